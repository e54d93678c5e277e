"""Configurations for Explore.tla: small alphabets whose behaviours are all enumerated, and their replay on the code."""
import json, os, random, re
from . import core

ID = re.compile(r'^[cktduixwqfbps]\d+$')
CREATE = {'ctx.new', 'clk.new', 'div.new', 'unit.new', 'trk.new', 'ins.new', 'dat.new', 'ins.copy', 'dat.copy', 'wrt.new', 'rdr.new', 'fil.new',
          'sld.new', 'itv.new', 'seq.new', 'env.new', 'seq.copy', 'sst.new', 'buf.new'}
U20 = 1048576
MAXV = 32767


def O(*ops):
    """an entry: operations given as text or lists"""
    out, need, free, made = [], [], [], set()
    for op in ops:
        op = parse(op)
        ids = [v for v in op[1:] if isinstance(v, str) and ID.match(v)]
        if op[0] in CREATE:
            free.append(ids[0])
            made.add(ids[0])
            ids = ids[1:]
        for v in op:
            if isinstance(v, list):
                for _, a in v:
                    ids += [w for w in a[1:] if isinstance(w, str) and ID.match(w)]
        need += [i for i in ids if i not in made and i not in need]
        out.append(op)
    return {'ops': out, 'need': need, 'free': free}


def parse(op):
    if not isinstance(op, str):
        return list(op)
    t = []
    for w in op.split():
        try:
            if t and t[-1] == 'WAVEFORM':
                raise ValueError
            t.append(int(w))
        except ValueError:
            t.append(w)
    if t[0] in ('clk.new', 'div.new', 'scb') and not isinstance(t[-1], list):
        t.append([])
    return t


def E(text):
    """entries separated by | or lines, operations of one entry by ;"""
    return [O(*[o.strip() for o in e.split(';')]) for e in re.split(r'[|\n]', text) if e.strip()]


def ops(text):
    return [parse(o.strip()) for o in re.split(r'[;\n]', text) if o.strip()]


def conf(setup, levels, after='', close='', fresh='', again='', deep=True):
    return {'setup': ops(setup) if isinstance(setup, str) else setup, 'levels': levels, 'after': E(after), 'close': E(close),
            'fresh': ops(fresh), 'again': ops(again), 'deep': deep}


PATH = re.compile(r'<<\s*"PATH",\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', re.S)


def explore(work, prop, confs, simulate=0, seed=1, depth=100, timeout=850):
    """behaviours [(conf, [[op, r, x, ev], ...])] and the states TLC visited"""
    path = work.path('conf.json')
    with open(path, 'w') as f:
        json.dump(confs, f)
    extra = ['-simulate', 'num=%d' % simulate, '-seed', str(seed), '-depth', str(depth)] if simulate else []
    code, out = core.tlc(work, 'Explore.tla', 'Explore.cfg', {'CONF': path, 'PROP': prop}, extra=extra, timeout=timeout)
    os.unlink(path)
    if code != 0:
        raise core.Broken('TLC failed on the model of %s (%d):\n%s' % (prop, code, core.errors_of(out)))
    paths, seen = [], set()
    for m in PATH.finditer(out):
        s = m.group(2).replace('\\"', '"').replace('\\\\', '\\')
        if s not in seen:
            seen.add(s)
            paths.append((int(m.group(1)) - 1, json.loads(s)))
    if simulate:
        m = re.findall(r'(\d+) states checked', out)
        return paths, int(m[-1]) if m else 0
    return paths, core.states_of(out)[1]


def replay(check, paths, where):
    """the behaviours on the code: every result has to be the one demanded"""
    scs = [[e[0] for e in p] for _, p in paths]
    res = core.execute(check.work, check.bkh, scs, 8)
    n = 0
    for (k, p), sc, rs in zip(paths, scs, res):
        j = differs(p, rs)
        if j is None:
            n += 1
            continue
        if rs and rs[-1].get('crash') == 'skipped':
            continue
        if len(check.viol) >= 3:
            break
        # once more alone
        for _ in range(3):
            r2 = core.execute(check.work, check.bkh, [sc], 24)[0]
            j = differs(p, r2)
            if j is not None:
                break
        else:
            check.doubt = 'a rejection did not repeat: %s' % where
            continue
        exp = {'r': 'any error' if p[j][1] == 'oom' else p[j][1], 'x': p[j][2], 'ev': p[j][3]}
        check.report('result other than the specification demands' if 'crash' not in r2[j] else 'the code crashed: ' + r2[j]['crash'], sc, r2, j, exp,
                     'behaviour of configuration %d' % k)
    return n


def differs(p, rs):
    for j, e in enumerate(p):
        if j >= len(rs):
            return None if rs and 'crash' in rs[-1] else j
        r = rs[j]
        if 'crash' in r:
            return None if r['crash'] == 'skipped' else j
        if e[1] == 'oom' or r.get('inj'):
            # memory was refused; nothing more to compare if the model and the code do not agree on who needs it
            if e[1] != 'oom' or not r.get('inj'):
                return None
            if r['r'] >= 0:
                return j
            continue
        if r.get('g') or r['r'] != e[1] or r['x'] != e[2] or r['ev'] != e[3]:
            return j
    return None


def step(check):
    """explore all behaviours of the property's configurations and replay them"""
    make = CONFS.get(check.prop)
    if make is None:
        return
    thorough = check.tier != 'quick'
    confs = make(thorough)
    if not isinstance(confs, list):
        confs = [confs]
    many = 3 if thorough else 8
    for k in range(0, len(confs), many):
        follow(check, explore(check.work, check.prop, confs[k:k + many], timeout=3000 if thorough else 600))
        if len(check.viol) >= 3:
            return
    if thorough:
        # longer ones at random
        for c in confs:
            n = len(c['levels'])
            longer = dict(c, levels=[c['levels'][min(i, n - 1)] for i in range(n + 8)])
            follow(check, explore(check.work, check.prop, [longer], simulate=150, seed=check.seed, timeout=3000))
            if len(check.viol) >= 3:
                return


def follow(check, found):
    paths, states = found
    check.cov['model_states_checked'] += states
    paths = [p for p in paths if core.possible([e[0] for e in p[1]])]
    for i in range(0, len(paths), 20000):
        check.cov['behaviours_replayed_on_impl'] += replay(check, paths[i:i + 20000], check.prop)
        if len(check.viol) >= 3:
            return


CONFS = {}
