import json,glob,os,re
p='/verif/DESIGN.md'; s=open(p).read()
s=s.replace('lists 31 properties (C01-C31) spanning','lists 32 properties (C01-C32) spanning').replace('| `BKProps` | C01-C31 in declarative form |','| `BKProps` | C01-C32 in declarative form |')
row31=[l for l in s.split('\n') if l.startswith('| C31 |')][0]
if '| C32 |' not in s:
    s=s.replace(row31,row31+'\n| C32 | F `TimeLaws` (trichotomy, subtraction inverts addition, order = sign of the difference, on a grid with extreme fractions) | every pair of 27-36 times; makes, seconds at several rates | `fam_time`, and `fam_clock`, `fam_long`, `fam_gtt` on the library **compiled as for 32-bit systems** (`NARROW=1 harness/build.sh`: `BKTime` is two numbers) | the second representation of times is not compiled on the machine the tests run on |')
s=s.replace('callbacks that set ranges, phases, mute | indices','callbacks that set ranges, phases, mute | indices')
s=s.replace('| C19 | S `SampleInRange` | ranges, repeat, sustain, rates |','| C19 | S `SampleInRange` | ranges, repeat, sustain, rates; callbacks that change all of them when a sample starts or ends |')
s=s.replace('| C23 | F `ForeignFiles` (extra chunks and extended format = plain, cut = prefix + silence, damaged = refused) | every byte of three files changed, every truncation |','| C23 | F `ForeignFiles` (extra chunks and extended format = plain, cut = prefix + silence, damaged = refused) | every byte of three files changed, every truncation; chunks and extensions of 1 to 128 kB that look like data |')
s=s.replace('| C24 | `Renewed`: `LikeNew` compares reset + settings with a new context | 17 operations before the reset |','| C24 | `Renewed`: `LikeNew` compares reset + settings with a new context | 17 operations before the reset, of the context and of tracks that were detached for it |')
# fixes
rows=[]
for l in open('/verif/known/findings.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l.strip())
    if m: rows.append(m.groups())
rows.sort()
tab='| property | commit | what failed |\n|---|---|---|\n'+''.join('| %s | %s | %s |\n'%r for r in rows)
i=s.index('| property | commit | what failed |'); j=s.index('\n\n',i)
s=s[:i]+tab.rstrip('\n')+s[j:]
s=s.replace('Situations left out (stated in the properties)\n\n','Situations left out (stated in the properties)\n\n* A callback which resets the context it is called from.\n') if 'resets the context it is called' not in s else s
# section 5..
k=s.find('## 5.')
if k>0: s=s[:k]
s=s.rstrip('\n')+'\n\n'
B=[]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); B.append((m['property'],os.path.basename(os.path.dirname(f)),m['needs'],m['what_it_breaks']))
B.sort()
s+='''## 5. Planted bugs

%d bugs were written from the properties and the code alone (`seeded/<id>/`), each needing a particular history, value or
coincidence of two sites; each compiles, passes the three tests, and has a demonstration that fails with it only. In the last
complete run **every one is caught by the quick check of its own property**. Those below marked * were missed at first; what was
changed since is in section 6.

| property | planted bug | what it needs |
|---|---|---|
'''%len(B)
miss={x.strip() for x in open('/verif/tools/missed-at-first.txt')} if os.path.exists('/verif/tools/missed-at-first.txt') else set()
s+=''.join('| %s | %s%s | %s |\n'%(p,i,' *' if i in miss else '',n) for p,i,n,w in B)
s+='\n'+open('/verif/tools/design-tail.md').read()
open(p,'w').write(s)
