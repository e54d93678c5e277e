"""Running scenarios on the code (harness) and on the specification (TLC)."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('BKV_REPO', '/repo')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = max(1, min(8, os.cpu_count() or 1))


class Broken(Exception):
    """The machinery could not reach a verdict."""


# ---------------------------------------------------------------- scenarios

def is_acts(v):
    return isinstance(v, list)


def tokens(op):
    """one operation as a line of the harness; a list as last element holds callback actions"""
    out = []
    for v in op:
        if is_acts(v):
            for at, a in v:
                out.append('@%d' % at)
                out.extend(tokens(a))
        else:
            out.append(str(v))
    return out


def line(op):
    return ' '.join(tokens(op))


def script(scenarios):
    parts = []
    for i, sc in enumerate(scenarios):
        parts.append('=== %d' % i)
        parts.extend(line(op) for op in sc)
    return '\n'.join(parts) + '\n'


# ------------------------------------------------------------------ harness

class Work:
    """scratch directory of one run"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='bkv.')
        self.n = 0

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, '%d.%s' % (self.n, name))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def build_narrow(work):
    """the harness with times as on systems with 32 bits; None if that does not compile"""
    out = os.path.join(work.dir, 'bkh32')
    p = subprocess.run(['bash', os.path.join(VERIF, 'harness/build.sh'), out, os.path.join(REPO, 'src')], env=dict(os.environ, NARROW='1'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print('the code does not compile with times of two numbers: not checked with them')
        return None
    return out


def build(work, src=None):
    out = os.path.join(work.dir, 'bkh')
    p = subprocess.run(['bash', os.path.join(VERIF, 'harness/build.sh'), out, src or os.path.join(REPO, 'src')],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken('harness does not build:\n' + p.stdout[-4000:])
    build.parts = not os.path.exists(out + '.nopart')
    if not build.parts:
        print('the parts of contexts and tracks have another interface: only what is public is checked')
    return out


build.parts = True
PARTS = ('sld.', 'itv.', 'seq.', 'env.', 'sst.', 'buf.')


def possible(sc):
    """can the harness run it?"""
    return build.parts or not any(op[0].startswith(PARTS) for op in sc)


def run_part(bkh, path, timeout):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:print_summary=0',
               UBSAN_OPTIONS='print_stacktrace=0')
    cwd = os.path.dirname(path)
    p = subprocess.run([bkh, path, str(timeout)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env,
                       cwd=cwd, errors='replace')
    if p.returncode != 0:
        raise Broken('harness failed (%d): %s' % (p.returncode, p.stderr[-2000:]))
    res, cur = {}, None
    for l in p.stdout.splitlines():
        if l.startswith('==='):
            cur = res.setdefault(int(l[4:]), [])
        elif l:
            cur.append(json.loads(l))
    return res, p.stderr


def execute(work, bkh, scenarios, timeout=20):
    """[results per scenario]; one dict per operation, {'crash':..} ends one"""
    n = max(1, min(CPUS, len(scenarios)))
    parts = [list(range(k, len(scenarios), n)) for k in range(n)]
    jobs = []
    for ids in parts:
        path = work.path('script')
        with open(path, 'w') as f:
            for i in ids:
                f.write('=== %d\n' % i)
                for op in scenarios[i]:
                    f.write(line(op) + '\n')
        jobs.append(path)
    out = [None] * len(scenarios)
    with ThreadPoolExecutor(n) as ex:
        for (res, err), path in zip(ex.map(lambda p: run_part(bkh, p, timeout), jobs), jobs):
            for i, r in res.items():
                out[i] = r
            os.unlink(path)
    for i, r in enumerate(out):
        if r is None or (len(r) != len(scenarios[i]) and not (r and 'crash' in r[-1])):
            raise Broken('harness gave %s of %d results for scenario %d' % (r and len(r), len(scenarios[i]), i))
    return out


# ---------------------------------------------------------------------- TLC

def tlc(work, module, cfg, env=None, workers=CPUS, extra=(), timeout=850, mem='12g'):
    meta = work.path('tlc')
    os.makedirs(meta)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xss128m', '-Xmx' + mem, '-cp', JAR, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE', '-config', os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module)]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=meta)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise Broken('TLC ran out of time on %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, out


def errors_of(out):
    i = out.find('Error:')
    return out[i:i + 5000] + '\n...\n' + out[-1500:] if i >= 0 else out[-6000:]


def states_of(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


MISM = re.compile(r'<<\s*"MISMATCH",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', re.S)


def mismatches(out, entries, bad):
    lost = 0
    for m in MISM.finditer(out):
        i, ops, _ = entries[int(m.group(1)) - 1]
        j = int(m.group(2)) - 1
        exp = json.loads(m.group(3).replace('\\"', '"').replace('\\\\', '\\'))
        if i not in bad or bad[i][0] > j:
            bad[i] = (j, exp, 'result not allowed by the specification')
        lost += len(ops) - (j + 1)
    return lost


def validate(work, scenarios, results, prop='', module='Trace.tla', cfg='Trace.cfg'):
    """check recorded results against the specification
    returns {scenario: (op number from 0, expected or None, what)}, distinct states"""
    bad, entries = {}, []
    for i, (sc, rs) in enumerate(zip(scenarios, results)):
        ops, res = [], []
        for j, (op, r) in enumerate(zip(sc, rs)):
            if 'crash' in r:
                bad[i] = (j, None, 'the code crashed: ' + r['crash'])
                break
            if r.get('g'):
                bad[i] = (j, None, 'memory behind the result was written')
                break
            ops.append(op)
            res.append([r['r'], r['x'], r['ev']] + ([1] if r.get('inj') else []))
        if ops:
            entries.append((i, ops, res))
    if not entries:
        return bad, 0
    outside = 0
    while True:
        path = work.path('ndjson')
        with open(path, 'w') as f:
            for _, ops, res in entries:
                f.write(json.dumps({'ops': ops, 'res': res}, separators=(',', ':')) + '\n')
        code, out = tlc(work, module, cfg, {'TRACES': path, 'PROP': prop})
        os.unlink(path)
        if code == 0 and 'Model checking completed. No error' in out:
            break
        # a scenario that leaves the domain of the model is set aside, more than a few are an error of the machinery
        m = re.findall(r'^/\\ tid = (\d+)', out, re.M)
        outside += 1
        if outside > 3 or not m or 'evaluating' not in out or len(entries) < 20 * outside:
            # what was rejected until then stays rejected (and is checked once more by itself)
            mismatches(out, entries, bad)
            if bad and prop:
                return bad, 0
            raise Broken('TLC failed (%d):\n%s' % (code, errors_of(out)))
        validate.outside += 1
        del entries[int(m[-1]) - 1]
    gen, distinct = states_of(out)
    total = sum(len(ops) + 1 for _, ops, _ in entries)
    lost = mismatches(out, entries, bad)
    if distinct != total - lost:
        raise Broken('TLC validated %d states of %d\n%s' % (distinct, total - lost, out[-2000:]))
    return bad, distinct


validate.outside = 0
