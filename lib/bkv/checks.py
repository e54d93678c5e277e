"""Which scenarios (and models) decide which property."""
import glob, json, os, random
from . import core
from .gen import *

TIMEOUT = 8
ASSUMPTIONS = [
    'the library is compiled from /repo/src with clang -O1 -fwrapv and address sanitizer for 64 bit Linux',
    'the reference model in spec/ states the documented behaviour',
]


def corpus(prop):
    """hand-written and formerly failing scenarios of a property"""
    out = []
    for p in sorted(glob.glob(os.path.join(core.VERIF, 'corpus', prop, '*.json'))):
        out.append(('corpus/%s' % os.path.basename(p), json.load(open(p))))
    return out


CREATE = {'ctx.new', 'clk.new', 'div.new', 'unit.new', 'trk.new', 'ins.new', 'dat.new', 'ins.copy', 'dat.copy', 'wrt.new', 'rdr.new'}


def failing_allocations(fams, per=3):
    """a step: run scenarios of the families once to count the allocations of every operation, then again with one of them failing"""
    def step(check):
        factor = 1 if check.tier == 'quick' else 8
        base = []
        for fam, n in fams:
            for i in range(n * factor):
                s = check.seed_for('alloc.' + fam.__name__, i)
                base.append(('alloc.%s#%d' % (fam.__name__, s), s, fam(s)))
        counted = [[o for op in sc for o in (op, ['nalloc'])] for _, _, sc in base]
        res = core.execute(check.work, check.bkh, counted, TIMEOUT)
        items = []
        for (where, s, sc), rs in zip(base, res):
            r = random.Random(s)
            spots = [(j, k) for j in range(len(sc)) if 2 * j + 1 < len(rs) and sc[j][0] not in ('gen', 'run', 'crun', 'gtt', 'nalloc')
                     for k in range(1, rs[2 * j + 1].get('r', 0) + 1)]
            for j, k in r.sample(spots, min(per, len(spots))):
                op = sc[j]
                new = op[0] in CREATE
                mid = [['fail', k], op, ['fail', 0]]
                if new:
                    mid.append(['drop', op[1]] + ([1] if r.random() < .5 else []))
                # what was there before is still as it was, and trying again works
                look = [['dat?', op[1]]] if op[0].startswith('dat.') and not new else []
                if op[0] == 'dat.wav':   # where a failing load leaves the file is not said
                    look.append(([['fil.pos', op[2], 0]] + [o for o in sc[:j] if o[:2] == ['fil.pos', op[2]]])[-1])
                items.append(('%s@%d.%d' % (where, j, k), sc[:j] + mid + look + sc[j:]))
        for i in range(0, len(items), 600):
            check.batch(items[i:i + 600])
    return step


def narrow(*fams):
    """the same histories where times are kept in two numbers of 32 bits"""
    def step(check):
        wide, check.bkh = check.bkh, core.build_narrow(check.work)
        try:
            if check.bkh:
                for fam, n in fams:
                    n *= 1 if check.tier == 'quick' else 8
                    seeds = [check.seed_for('narrow-' + fam.__name__, i) for i in range(n)]
                    if len(check.viol) < 3:
                        check.batch([('narrow-%s#%d' % (fam.__name__, s), fam(s)) for s in seeds])
        finally:
            check.bkh = wide
    return step


CHECKS = {
    'C01': dict(fams=[(fam_clock, 560, {}), (fam_long, 100, {}), (fam_move, 120, {}), (fam_late, 14, {})]),
    'C02': dict(fams=[(fam_clock, 300, {}), (fam_buffer, 120, {}), (fam_wave, 150, {}), (fam_track, 150, {}), (fam_sample, 120, {}), (fam_strack, 60, {}), (fam_long, 60, {})]),
    'C03': dict(fams=[(fam_clock, 660, {}), (fam_move, 80, {})]),
    'C04': dict(fams=[(fam_clock, 660, {}), (fam_move, 80, {}), (fam_late, 10, {})]),
    'C05': dict(fams=[(fam_attach, 600, {}), (fam_clock, 120, {}), (fam_move, 80, {}), (fam_crowd, 50, {})]),
    'C06': dict(fams=[(fam_dispose, 700, {}), (fam_data, 150, {}), (fam_attach, 100, {}), (fam_crowd, 40, {})]),
    'C07': dict(fams=[(fam_buffer, 220, {}), (fam_pbuffer, 300, {})]),
    'C08': dict(fams=[(fam_buffer, 220, {}), (fam_pbuffer, 300, {})]),
    'C09': dict(fams=[(fam_wave, 900, {})]),
    'C10': dict(fams=[(fam_noise, 500, {})]),
    'C11': dict(fams=[(fam_attr, 700, {})]),
    'C12': dict(fams=[(fam_track, 400, {'focus': {'note': 1}}), (fam_strack, 250, {})]),
    'C13': dict(fams=[(fam_pslide, 900, {}), (fam_slide, 450, {}), (fam_track, 150, {'focus': {'eff': EFFECTS[:3]}, 'insts': False})]),
    'C14': dict(fams=[(fam_pinterval, 900, {}), (fam_interval, 450, {}), (fam_track, 150, {'focus': {'eff': EFFECTS[3:]}, 'insts': False})]),
    'C15': dict(fams=[(fam_track, 500, {'focus': {'arp': 1}, 'insts': False})]),
    'C16': dict(fams=[(fam_pseq, 400, {}), (fam_instr, 400, {'env': False})]),
    'C17': dict(fams=[(fam_pseq, 500, {}), (fam_instr, 400, {'env': True})]),
    'C18': dict(fams=[(fam_instr, 400, {}), (fam_track, 150, {'ntracks': 3}), (fam_crowd, 40, {})]),
    'C19': dict(fams=[(fam_sample, 400, {}), (fam_strack, 150, {}), (fam_bigsample, 60, {})]),
    'C20': dict(fams=[(fam_data, 500, {}), (fam_dither, 150, {}), (fam_crowd, 40, {})]),
    'C21': dict(fams=[(fam_raw, 900, {})]),
    'C22': dict(fams=[(fam_wavfile, 900, {})]),
    'C23': dict(fams=[(fam_foreign, 1500, {})]),
    'C24': dict(fams=[(fam_reset, 700, {})]),
    'C25': dict(fams=[(fam_mix, 900, {})]),
    'C26': dict(fams=[(fam_pitch, 900, {})]),
    'C27': dict(fams=[(fam_gtt, 300, {}), (fam_late, 10, {})]),
    'C28': dict(fams=[(fam_copy, 600, {})]),
    'C29': dict(fams=[], steps=[failing_allocations([(fam_data, 40), (fam_instr, 30), (fam_copy, 50), (fam_dispose, 60), (fam_raw, 30), (fam_object, 20), (fam_attach, 10), (fam_wavfile, 20), (fam_foreign, 20)])]),
    'C30': dict(fams=[(fam_object, 700, {})]),
    'C31': dict(fams=[(fam_two, 320, {})]),
    'C32': dict(fams=[(fam_time, 600, {}), (fam_long, 60, {})], steps=[narrow((fam_time, 600), (fam_clock, 60), (fam_long, 30), (fam_gtt, 40), (fam_late, 8))]),
}

NOT_YET = {}
TECHNIQUE = ('TLA+ specification checked with TLC: declarative property on every state and step of all bounded behaviours of small alphabets, each behaviour '
             'replayed on the real code and compared; traces recorded from the real code validated against the same specification')
NOTE = ('Every result of every call (return codes, frames, callbacks with times, attribute values) has to be what the TLA+ specification demands, in all '
        'behaviours of the explored alphabets up to their depth and in seeded recorded histories; absence of violations is evidence within these bounds, '
        'not a proof.')
