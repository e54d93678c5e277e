"""check PROPERTY [--replay FILE]: decide one property for the code in /repo"""
import json, os, sys, time, zlib
from . import core, checks, explore, models

EVID = os.environ.get('BKV_EVID', os.path.join(core.VERIF, 'evidence'))
SAFETY = 700          # seconds after which no new batch is started


def seed_of(base, prop, fam, i):
    return (base * 1000003 + zlib.crc32(('%s/%s' % (prop, fam)).encode()) * 131 + i) & 0x7fffffffffff


def findings(prop):
    """known findings: lines `finding: property=ID replay=FILE what`"""
    out = []
    p = os.path.join(core.VERIF, 'known/findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % prop):
                w = l.split(None, 3)
                out.append((w[2].split('=', 1)[1], w[3].strip()))
    return out


def scenarios(prop, spec, base, factor):
    for fam, n, kw in spec['fams']:
        for i in range(max(1, int(n * factor))):
            s = seed_of(base, prop, fam.__name__, i)
            yield fam.__name__, s, fam(s, **kw)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = checks.CHECKS[prop]
        self.t0 = time.time()
        self.work = core.Work()
        self.viol = []
        self.doubt = None
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'operations_compared': 0,
                    'behaviours_replayed_on_impl': 0, 'model_states_checked': 0, 'scenarios_by_family': {}, 'operations_by_kind': {}, 'samples': []}

    def seed_for(self, fam, i):
        return seed_of(self.seed, self.prop, fam, i)

    def report(self, what, sc, res, j, exp, where):
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        path = os.path.join(EVID, 'replay', '%s-%d.json' % (self.prop, len(self.viol)))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'what': what, 'narrow': where.startswith('narrow-'), 'from': where, 'operation': j, 'expected': exp, 'got': res[j] if j < len(res) else None,
                       'script': [core.line(o) for o in sc[:j + 1]], 'ops': sc[:j + 1]}, f, indent=1)
        self.viol.append(path)
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        print('  %s; %s, operation %d: %s' % (what, where, j, core.line(sc[j])[:200]))
        print('  expected %s' % json.dumps(exp)[:600])
        print('  got      %s' % json.dumps(res[j] if j < len(res) else None)[:600])
        sys.stdout.flush()

    def batch(self, items):
        """items: [(where, scenario)]"""
        items = [i for i in items if core.possible(i[1])]
        if not items:
            return
        scs = [s for _, s in items]
        res = core.execute(self.work, self.bkh, scs, checks.TIMEOUT)
        keep = [i for i, r in enumerate(res) if not (r and r[-1].get('crash') == 'skipped')]
        scs, res, items = [scs[i] for i in keep], [res[i] for i in keep], [items[i] for i in keep]
        bad, distinct = core.validate(self.work, scs, res, self.prop)
        c = self.cov
        c['states'] += distinct
        c['transitions'] += max(0, distinct - len(scs))
        c['traces_validated_against_impl'] += len(scs) - len(bad)
        for (where, s), r in zip(items, res):
            f = where.split('#')[0]
            c['scenarios_by_family'][f] = c['scenarios_by_family'].get(f, 0) + 1
            c['operations_compared'] += len(r)
            for op in s:
                c['operations_by_kind'][op[0]] = c['operations_by_kind'].get(op[0], 0) + 1
        if len(c['samples']) < 3 and items:
            k = len(items) // 2
            c['samples'].append({'from': items[k][0], 'ops': [core.line(o)[:160] for o in scs[k]][:60],
                                 'results': [json.dumps(x)[:160] for x in res[k]][:60]})
        for i in sorted(bad):
            if len(self.viol) >= 3:
                break
            # a rejection counts only if it is there again
            sc = scs[i][:bad[i][0] + 1]
            for _ in range(3):
                r2 = core.execute(self.work, self.bkh, [sc], checks.TIMEOUT * 3)
                b2, _ = core.validate(self.work, [sc], r2)
                if b2:
                    break
            else:
                self.doubt = 'a rejection did not repeat: %s' % items[i][0]
                continue
            j, exp, what = b2[0]
            self.report(what, sc, r2[0], j, exp, items[i][0])

    def run(self):
        self.bkh = core.build(self.work)
        for path, what in findings(self.prop):
            sc = json.load(open(os.path.join(core.VERIF, path)))['ops']
            r = core.execute(self.work, self.bkh, [sc], checks.TIMEOUT)
            if core.validate(self.work, [sc], r)[0]:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        for step in [explore.step] + self.spec.get('steps', []):
            if len(self.viol) < 3:
                step(self)
        items = []
        size = 400 if self.tier == 'quick' else 1500
        reg = checks.corpus(self.prop)
        items += reg
        factor = 1 if self.tier == 'quick' else self.spec.get('thorough', 12)
        for fam, s, sc in scenarios(self.prop, self.spec, self.seed, factor):
            items.append(('%s#%d' % (fam, s), sc))
            if len(items) >= size:
                self.batch(items)
                items = []
                if len(self.viol) >= 3 or (self.tier == 'quick' and time.time() - self.t0 > SAFETY):
                    break
        if items and len(self.viol) < 3:
            self.batch(items)
        if self.doubt:
            raise core.Broken(self.doubt)

    def evidence(self):
        os.makedirs(EVID, exist_ok=True)
        self.cov['scenarios_outside_the_model'] = core.validate.outside
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.spec.get('level', 'model_checking'), 'coverage': self.cov,
              'assumptions': checks.ASSUMPTIONS + self.spec.get('assumptions', []), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        tmp = os.path.join(EVID, '.%s.tmp' % self.prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, self.prop + '.json'))


def replay(path):
    d = json.load(open(path))
    w = core.Work()
    try:
        bkh = core.build_narrow(w) if d.get('narrow') else core.build(w)
        r = core.execute(w, bkh, [d['ops']], checks.TIMEOUT)
        for o, x in zip(d['ops'], r[0]):
            print(core.line(o)[:200], '->', json.dumps(x)[:300])
        bad, _ = core.validate(w, [d['ops']], r)
        print('rejected: %s' % (bad[0],) if bad else 'accepted')
        return 1 if bad else 0
    finally:
        w.close()


def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = Check(prop, tier, seed)
    try:
        c.run()
        c.evidence()
    except core.Broken as e:
        c.evidence()
        if not c.viol:
            print('NO VERDICT: %s' % e)
            return 2
    finally:
        c.work.close()
    k = c.cov
    print('%s %s: %d violations, %d traces, %d states, %.1f s' % (prop, tier, len(c.viol), k['traces_validated_against_impl'], k['states'], time.time() - c.t0))
    return 1 if c.viol else 0


if __name__ == '__main__':
    sys.exit(main())
