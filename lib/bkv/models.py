"""The configurations explored for every property. `deep` is true for the thorough tier."""
import re
from .explore import CONFS, E, O, U20, MAXV, conf, ops

RATE = 48000


def levels(n, text):
    a = E(text) if isinstance(text, str) else text
    return [a] * n


def model(prop):
    def put(f):
        CONFS[prop] = f
        return f
    return put


BASE = 'ctx.new c1 1 48000 0; ctx.ker c1 tap; ctx.per c1 3 0'
UNIT = BASE + '; unit.new u1 SQUARE; unit.att u1 c1; set u1 VOLUME 8000; set u1 PERIOD 1048576'
END = 'disp u1|disp u2|disp u3|disp t1|disp t2|disp k1|disp k2|disp k3|disp d1|disp d2|disp d3|disp i1|disp i2|disp x1|disp x2|disp c2|disp c1'
BAL = '|bal'


# ------------------------------------------------------------------- clocks

@model('C01')
def c01(deep):
    s = UNIT + '; clk.new k1 2 0 1 0; clk.new k2 5 524288 1 0; div.new d1 2 1 0; div.attc d1 c1 beat'
    a = '''clk.att k1 c1 last | clk.att k2 c1 first | clk.att k2 c1 k1 | clk.det k1 | clk.det k2 | clk.per k1 3 262144 | clk.per k2 1 1 | clk.rst k2
           run c1 2 524288; read c1 9 | crun c1 4 100 | gen c1 7 | ctx.rst c1 | ctx.per c1 1 786432 | div.attk d1 k1 | clk.rst k1 | unit.det u1'''
    out = [conf(s, levels(4 if deep else 3, a), 'gen c1 4', 'ctx.time c1|gen c1 9|ctx.time c1|' + END + BAL)]
    # clocks that choose their next tick, change one another's period or leave
    for k1, k2 in [([[0, ['setnext', 1, 524288]]], [[2, ['clk.per', 'k1', 4, 0]]]), ([[2, ['setnext', 0, 0]]], [[1, ['clk.rst', 'k1']]]),
                   ([[2, ['clk.det', 'k2']]], [[1, ['clk.per', 'k2', 1, 0]]]), ([[1, ['clk.att', 'k3', 'c1', 'first']]], [[3, ['clk.det', 'k1']]]),
                   ([[3, ['clk.det', 'k1']]], [[2, ['div.attk', 'd1', 'k2']]])]:
        t = ops(UNIT) + [['clk.new', 'k1', 2, 0, 1, 0, k1], ['clk.new', 'k2', 3, 0, 1, 0, k2]] + ops('clk.new k3 2 0 1 0; div.new d1 1 1 0')
        b = '''clk.att k1 c1 last | clk.att k2 c1 last | clk.att k1 c1 first | clk.att k3 c1 last | clk.per k1 1 0 | gen c1 5'''
        out.append(conf(t, levels(5 if deep else 3, b), 'gen c1 3', 'gen c1 11|ctx.time c1|' + END))
    # clocks that move to another context
    for k1, d1 in [([[2, ['clk.det', 'k1']], [2, ['clk.att', 'k1', 'c2', 'last']]], []), ([[1, ['clk.det', 'k1']], [1, ['clk.att', 'k1', 'c2', 'first']], [4, ['clk.det', 'k1']], [4, ['clk.att', 'k1', 'c1', 'first']]], []),
                   ([], [[2, ['clk.det', 'k1']], [2, ['clk.att', 'k1', 'c2', 'last']]])]:
        t = ops('ctx.new c2 1 22050 0; unit.new u2 SQUARE; unit.att u2 c2; gen c2 4') + ops(UNIT) + [['clk.new', 'k1', 3, 0, 1, 0, k1], ['clk.new', 'k2', 2, 524288, 1, 0, []], ['div.new', 'd1', 2, 1, 0, d1]] + ops('clk.att k1 c1 last')
        b = '''clk.att k2 c2 last | clk.att k2 c1 first | div.attk d1 k1 | div.attc d1 c2 eff | clk.per k1 1 99 | ctx.use c2; gen c2 5; ctx.use c1'''
        out.append(conf(t, levels(4 if deep else 3, b), 'gen c1 5', 'ctx.use c2|gen c2 12|ctx.time c2|ctx.use c1|gen c1 7|' + END))
    return out


@model('C03')
def c03(deep):
    s = UNIT + '; clk.new k1 2 0 1 0; clk.new k2 2 0 1 0; clk.new k3 4 0 1 0; div.new d1 1 1 0; div.new d2 1 1 0; div.new d3 2 1 0'
    a = '''clk.att k1 c1 last | clk.att k2 c1 first | clk.att k2 c1 k1 | clk.att k3 c1 k2 | clk.att k3 c1 first | clk.det k1 | clk.det k2
           div.attk d1 k1 | div.attk d2 k1 | div.attk d2 k2 | div.attc d1 c1 eff | div.attc d3 c1 beat | div.det d1 | clk.rst k1'''
    return conf(s, levels(4 if deep else 3, a), 'gen c1 4', 'gen c1 5|' + END + BAL)


@model('C04')
def c04(deep):
    out = []
    for n in [1, 2, 3] if deep else [1, 3]:
        s = UNIT + '; clk.new k1 1 524288 1 0; clk.att k1 c1 last; div.new d1 %d 1 0; div.new d2 2 1 0' % n
        a = '''div.attk d1 k1 | div.attc d1 c1 eff | div.attc d1 c1 beat | div.det d1 | div.rst d1 | div.attk d2 k1 | div.attc d2 c1 beat | div.det d2 | gen c1 1
               clk.det k1 | clk.att k1 c1 last | clk.rst k1 | ctx.rst c1'''
        out.append(conf(s, levels(4 if deep else 3, a), 'gen c1 2', 'gen c1 7|' + END))
    for d1, d2 in [([[0, ['setdiv', 3]]], [[2, ['div.det', 'd1']]]), ([[2, ['setdiv', 0]]], [[1, ['div.rst', 'd1']]]), ([[2, ['div.det', 'd1']]], [[1, ['setdiv', 4]]])]:
        t = ops(UNIT + '; clk.new k1 1 524288 1 0; clk.att k1 c1 last') + [['div.new', 'd1', 2, 1, 0, d1], ['div.new', 'd2', 1, 1, 0, d2]]
        b = 'div.attk d1 k1 | div.attk d2 k1 | div.attc d1 c1 eff | div.attc d2 c1 eff | div.attc d2 c1 beat | div.rst d1 | gen c1 3'
        out.append(conf(t, levels(4 if deep else 3, b), 'gen c1 3', 'gen c1 7|' + END))
    return out


@model('C05')
def c05(deep):
    s = '''ctx.new c1 1 48000 0; ctx.ker c1 tap; ctx.per c1 3 0; ctx.new c2 1 32000 1; ctx.ker c2 tap; ctx.per c2 2 0; unit.new u1 SQUARE; set u1 VOLUME 8000
           set u1 PERIOD 1048576; clk.new k1 2 0 1 0; clk.new k2 2 0 1 1; div.new d1 1 1 0; div.new d2 2 1 0'''
    a = '''unit.att u1 c1 | unit.att u1 c2 | unit.det u1 | clk.att k1 c1 last | clk.att k1 c2 first | clk.att k2 c1 first | clk.att k2 c2 k1 | clk.det k1 | clk.det k2
           div.attk d1 k1 | div.attk d1 k2 | div.attc d1 c1 eff | div.attc d1 c2 beat | div.attc d2 c1 other | div.attk d2 k1 | div.det d1 | clk.att k1 c1 k1'''
    t = '''ctx.new c1 1 48000 0; ctx.ker c1 tap; ctx.per c1 2 0; ctx.new c2 2 32000 1; ctx.ker c2 tap; ctx.per c2 2 0; trk.new t1 SINE 0; set t1 MASTER_VOLUME 9000
           set t1 VOLUME 32767; set t1 NOTE 73400320; unit.new u1 SAWTOOTH; set u1 VOLUME 5000; set u1 PERIOD 2097152'''
    b = '''trk.att t1 c1 | trk.att t1 c2 | trk.det t1 | unit.att u1 c1 | unit.att u1 c2 | unit.det u1 | ctx.rst c1 | set t1 PANNING -20000 | trk.clr t1 | obs t1'''
    return [conf(s, levels(4 if deep else 3, a), 'ctx.use c1|gen c1 3', 'ctx.use c2|gen c2 4|ctx.use c1|gen c1 4|' + END + BAL),
            conf(t, levels(4 if deep else 3, b), 'ctx.use c1|gen c1 2|ctx.use c2|gen c2 2', 'obs t1|' + END + BAL)]


@model('C06')
def c06(deep):
    s = '''ctx.new c1 1 48000 1; ctx.ker c1 tap; ctx.per c1 2 0; clk.new k1 2 0 1 1; clk.att k1 c1 last; div.new d1 1 1 1; div.attk d1 k1; div.new d2 2 1 0; div.attc d2 c1 eff
           dat.new x1 1; dat.frm x1 1 1 4 3000 -3000 6000 -6000; unit.new u1 SQUARE; set u1 VOLUME 8000; set u1 PERIOD 1048576; unit.att u1 c1; ref u1 SAMPLE x1; set u1 SAMPLE_REPEAT 1
           ins.new i1 1; ins.seq i1 0 2 1 3 32767 20000 10000; trk.new t1 SINE 1; trk.att t1 c1; set t1 MASTER_VOLUME 9000; set t1 VOLUME 32767; ref t1 INSTRUMENT i1; set t1 NOTE 73400320'''
    a = 'disp c1 | disp k1 | disp d1 | disp d2 | disp x1 | disp u1 | disp i1 | disp t1 | unit.det u1 | trk.det t1 | clk.det k1 | dat.det x1 | ins.det i1 | ref u1 SAMPLE -'
    out = [conf(s, levels(4 if deep else 3, a), 'gen c1 3', END + BAL)]
    t = s + '; dat.copy x2 x1 1; ins.copy i2 i1; trk.new t2 SAWTOOTH 1; trk.att t2 c1; set t2 MASTER_VOLUME 5000; ref t2 WAVEFORM x1'
    b = 'ref t1 WAVEFORM x2 | ref t1 INSTRUMENT i2 | ref t2 INSTRUMENT i1 | disp x1 | disp x2 | disp i1 | disp i2 | disp t2 | disp t1 | disp c1 | trk.clr t1 | trk.clr t2 | ctx.rst c1'
    out.append(conf(t, levels(4 if deep else 3, b), 'gen c1 3', END + BAL))
    return out


# ------------------------------------------------------------------ rendering

SOUND = ('ctx.new c1 2 48000 0; ctx.ker c1 %s; ctx.per c1 4 262144; unit.new u1 SQUARE; unit.att u1 c1; set u1 VOLUME 12000; set u1 PERIOD 1310721; '
         'unit.new u2 SAWTOOTH; set u2 VOLUME_0 9000; set u2 VOLUME_1 3000; set u2 PERIOD 917503')


@model('C02')
def c02(deep):
    out = []
    for k in ['tap', 'slope'] if deep else ['slope']:
        a = '''unit.att u2 c1 | unit.det u1 | set u1 MUTE 1 | set u1 MUTE 0 | set u1 PERIOD 3400000 | set u2 WAVEFORM NOISE | set u1 DUTY_CYCLE 5 | gen c1 1 | run c1 0 700000; gen c1 1
               set u1 VOLUME_0 0 | set u1 WAVEFORM TRIANGLE | set u2 PHASE 3 | set u1 PHASE_WRAP 5'''
        out.append(conf(SOUND % k, levels(3, a), 'gen c1 2', 'gen c1 1|gen c1 3|gen c1 1|gen c1 7'))
        t = ('ctx.new c1 1 44100 0; ctx.ker c1 %s; ctx.per c1 2 349525; trk.new t1 SINE 0; trk.att t1 c1; set t1 MASTER_VOLUME 20000; set t1 EFFECT_DIVIDER 1; set t1 ARPEGGIO_DIVIDER 1; '
             'set t1 INSTRUMENT_DIVIDER 1; ins.new i1 0; ins.env i1 0 1 1 2 2 20000 1 32767; dat.new x1 0; dat.frm x1 1 1 6 5000 -9000 12000 3000 -1000 400') % k
        b = '''set t1 NOTE 73400320 | set t1 NOTE -1 | ref t1 INSTRUMENT i1 | ref t1 SAMPLE x1 | ref t1 WAVEFORM x1 | arp t1 2 0 3145728 | eff t1 EFFECT_VIBRATO 3 3 500000 0
               eff t1 EFFECT_VOLUME_SLIDE 1 4; set t1 VOLUME 9000 | set t1 SAMPLE_REPEAT 1 | trk.rst t1'''
        out.append(conf(t, levels(3, b), 'gen c1 3', 'gen c1 5|tob t1'))
    return out


@model('C07')
def c07(deep):
    a = '''gen c1 3 | gen c1 0 | run c1 2 0 | run c1 1 524288 | run c1 0 1 | crun c1 2 0 | crun c1 0 600000 | read c1 1 | read c1 9 | size c1 | unit.det u1 | unit.att u2 c1 | ctx.rst c1 | read c1 0 | ctx.time c1'''
    b = '''buf.add b1 0 0 9000 | buf.add b1 2 524288 -20000 | buf.frm b1 1 0 5000 | buf.end b1 3 0 | buf.end b1 1 1 | buf.shift b1 2 0 | buf.shift b1 0 600000 | buf.read b1 1 1
           buf.read b1 9 1 | buf.size b1 | buf.clr b1'''
    return [conf(SOUND % 'tap', levels(4 if deep else 3, a), 'size c1', 'gen c1 4|size c1|read c1 40|size c1|gen c1 3|ctx.time c1'),
            conf('buf.new b1; buf.ker b1 slope', levels(4 if deep else 3, b), 'buf.size b1', 'buf.end b1 30 0|buf.shift b1 30 0|buf.size b1|buf.read b1 50 1|buf.size b1')]


@model('C08')
def c08(deep):
    out = []
    for k in ['tap', 'slope', 'harm']:
        a = '''unit.att u2 c1 | unit.det u2 | set u1 VOLUME 32767 | set u2 VOLUME_1 0 | set u1 VOLUME_0 1 | set u2 MUTE 1 | set u1 DUTY_CYCLE 15 | set u1 WAVEFORM SINE | gen c1 12
               ctx.ker c1 harm | ctx.ker c1 tap | set u1 PERIOD 500000'''
        out.append(conf(SOUND % k, levels(3 if deep else 2, a), 'gen c1 4', 'gen c1 9'))
        big = '''buf.add b1 0 0 32767 | buf.add b1 0 0 -32767 | buf.add b1 1 524288 65534 | buf.add b1 1 98304 -65534 | buf.add b1 0 1015808 -20000 | buf.frm b1 0 0 30000 | buf.frm b1 1 700000 -32768'''
        out.append(conf('buf.new b1; buf.ker b1 %s' % k, levels(4 if deep else 3, big), '', 'buf.end b1 2 0|buf.shift b1 2 0|buf.read b1 3 1|buf.end b1 20 0|buf.shift b1 20 0|buf.read b1 30 1'))
    return out


@model('C09')
def c09(deep):
    out = []
    s = 'ctx.new c1 1 48000 0; ctx.ker c1 tap; unit.new u1 SQUARE; unit.att u1 c1; set u1 VOLUME 32767; set u1 PERIOD 524288'
    waves = E('set u1 WAVEFORM SQUARE | set u1 WAVEFORM TRIANGLE | set u1 WAVEFORM SAWTOOTH | set u1 WAVEFORM SINE | set u1 WAVEFORM 0')
    duty = [O('set u1 DUTY_CYCLE %d' % d) for d in range(0, 18)]
    phase = [O('set u1 PHASE %d' % d) for d in ([0, 1, 5, 6, 7, 15, 16, 31, 32] if deep else [0, 6, 15, 31])]
    wrap = E('gen c1 1 | set u1 PHASE_WRAP 3; set u1 PHASE 0 | set u1 PERIOD 1048576 | set u1 PERIOD 2097152; set u1 PHASE_WRAP 2')
    out.append(conf(s, [waves, duty, phase] + ([wrap] if deep else []), '', 'gen c1 20'))
    out.append(conf(s, [waves, wrap, waves, phase], 'gen c1 3', 'gen c1 18|obs u1'))
    cus = s + '; dat.new x1 0; dat.frm x1 1 1 5 3000 -3000 6000 -6000 9; ref u1 WAVEFORM x1'
    out.append(conf(cus, [E('gen c1 0 | set u1 PHASE 2 | set u1 PHASE_WRAP 3 | set u1 PHASE 4; set u1 PHASE_WRAP 7'), E('gen c1 1 | set u1 WAVEFORM SINE; ref u1 WAVEFORM x1 | set u1 PHASE 0 | set u1 MUTE 1; gen c1 3; set u1 MUTE 0'),
                          E('set u1 PERIOD 1048576 | set u1 PHASE_WRAP 0 | set u1 VOLUME_0 5 | ref u1 WAVEFORM -')], 'gen c1 3', 'gen c1 9|obs u1'))
    return out


@model('C10')
def c10(deep):
    s = 'ctx.new c1 1 48000 0; ctx.ker c1 tap; unit.new u1 NOISE; unit.att u1 c1; set u1 VOLUME 32767; set u1 PERIOD 524288'
    a = '''set u1 PHASE_WRAP 3 | set u1 PHASE_WRAP 7 | set u1 PHASE_WRAP 0 | set u1 PHASE 0 | set u1 PHASE 5 | set u1 PHASE 65535 | set u1 PHASE_WRAP 1 | set u1 PERIOD 1572864 | set u1 WAVEFORM SINE
           set u1 WAVEFORM NOISE | set u1 MUTE 1; gen c1 4; set u1 MUTE 0 | unit.det u1; gen c1 2; unit.att u1 c1'''
    return conf(s, levels(4 if deep else 3, a), 'gen c1 5|get u1 PHASE', 'gen c1 16|obs u1')


# ----------------------------------------------------------------- attributes

@model('C11')
def c11(deep):
    out = []
    vals = [0, 1, -1, 2, 16, 15, 32767, 32768, -32768, 40, 100663297, -100663297, 2147483647, -2147483647]
    attrs = ['DUTY_CYCLE', 'PERIOD', 'PHASE_WRAP', 'MUTE', 'VOLUME', 'VOLUME_0', 'VOLUME_7', 'SAMPLE_PERIOD', 'SAMPLE_REPEAT', 'SAMPLE_IMMED_RELEASE', 'WAVEFORM']
    track = ['MASTER_VOLUME', 'PANNING', 'PITCH', 'SAMPLE_PITCH', 'TRIANGLE_IGNORES_VOLUME', 'ARPEGGIO_DIVIDER', 'EFFECT_DIVIDER', 'INSTRUMENT_DIVIDER', 'NOTE', 'EFFECT_TREMOLO', 'NUM_CHANNELS']

    def ok(a, v):
        return not (a.endswith('DIVIDER') and v <= 0) and not (a == 'NOTE' and v < -2) and not (a == 'PERIOD' and 0 < abs(v) < 300000) and not (a == 'PERIOD' and abs(v) > 2 ** 27) and a != 'WAVEFORM'
    for o, aa in [('u1', attrs), ('t1', [a for a in attrs if not a.startswith('VOLUME_')] + track)]:
        s = 'unit.new u1 SQUARE; set u1 PERIOD 1048576; trk.new t1 SINE 0'
        alpha = [O(['set', o, a, v], ['get', o, a]) for a in aa for v in vals if ok(a, v)]
        few = [O(['set', o, a, v], ['get', o, a]) for a, v in [('DUTY_CYCLE', 5), ('PHASE_WRAP', 1), ('VOLUME', 70000), ('WAVEFORM', 'NOISE'), ('WAVEFORM', 'TRIANGLE'), ('WAVEFORM', '0'), ('MUTE', 9)] + ([('NOTE', 62914560), ('PANNING', -70000)] if o == 't1' else [('PERIOD', -700000)])]
        out.append(conf(s, [alpha, few], '', 'obs %s' % o, deep=False))
        if deep:
            out.append(conf(s, [few, alpha, few], '', 'obs %s' % o, deep=False))
    out.append(conf('unit.new u1 SQUARE; set u1 PERIOD 1048576; trk.new t1 SINE 0; ctx.new c1 2 48000 0; trk.att t1 c1; unit.att u1 c1', [E('gen c1 1 | set t1 NOTE 62914560 | ctx.get c1 SAMPLE_RATE | ctx.get c1 NUM_CHANNELS | ctx.get c1 VOLUME')], '', 'obs t1', deep=True))
    return out


# --------------------------------------------------------------------- tracks

TRACK = ('ctx.new c1 %d 48000 0; ctx.ker c1 tap; ctx.per c1 1 0; trk.new t1 %s 0; trk.att t1 c1; set t1 MASTER_VOLUME 30000; set t1 VOLUME 32767; '
         'set t1 EFFECT_DIVIDER 1; set t1 ARPEGGIO_DIVIDER 1; set t1 INSTRUMENT_DIVIDER 1')


@model('C12')
def c12(deep):
    a = '''set t1 NOTE 62914560 | set t1 NOTE 75497472 | set t1 NOTE -1 | set t1 NOTE -2 | ref t1 INSTRUMENT i1 | ref t1 INSTRUMENT i2 | ref t1 INSTRUMENT -
           set t1 PITCH 1048576 | set t1 WAVEFORM SAWTOOTH | arp t1 2 0 1048576 | trk.clr t1 | trk.rst t1 | gen c1 5 | eff t1 EFFECT_PORTAMENTO 1 3'''
    s = TRACK % (1, 'SINE') + '; ins.new i1 0; ins.seq i1 0 1 1 4 32767 20000 10000 5000; ins.new i2 0; ins.seq i2 2 1 1 2 1048576 0'
    t = (TRACK % (1, 'SINE')).replace('SINE', 'SQUARE') + '; dat.new x1 0; dat.frm x1 1 1 6 5000 -9000 12000 3000 -1000 400; ref t1 SAMPLE x1; ins.new i1 0; ins.env i1 0 1 1 3 1 32767 2 9000 2 0'
    b = '''set t1 NOTE 50331648 | set t1 NOTE 62914560 | set t1 NOTE -1 | set t1 NOTE -2 | set t1 SAMPLE_REPEAT 1 | rng t1 SAMPLE_SUSTAIN_RANGE 1 3 | set t1 SAMPLE_PITCH 12582912 | ref t1 INSTRUMENT i1
           set t1 WAVEFORM SINE | ref t1 SAMPLE x1 | gen c1 4'''
    return [conf(s, levels(4 if deep else 3, a), 'gen c1 2', 'gen c1 3|tob t1|obs t1', deep=not deep),
            conf(t, levels(4 if deep else 3, b), 'gen c1 2', 'gen c1 5|tob t1|obs t1', deep=not deep)]


# an instrument with something to play after the note was released
PLAYED = '; ins.new i1 0; ins.seq i1 0 1 1 9 32767 30000 28000 26000 24000 22000 20000 10000 5000; ref t1 INSTRUMENT i1; set t1 NOTE 62914560%s; gen c1 3'


@model('C13')
def c13(deep):
    a = '''sld.set s1 10000 4 | sld.val s1 -9000 | sld.val s1 20000 | sld.steps s1 0 | sld.steps s1 3 | sld.steps s1 1 | sld.halt s1 0 | sld.halt s1 1 | sld.step s1 1 | sld.step s1 2 | sld.set s1 -32000 7 | sld.set s1 1 0'''
    b = '''set t1 VOLUME 0 | set t1 VOLUME 32767 | set t1 VOLUME 12345 | eff t1 EFFECT_VOLUME_SLIDE 1 3 | eff t1 EFFECT_VOLUME_SLIDE 1 0 | eff t1 EFFECT_VOLUME_SLIDE 0 | gen c1 1 | set t1 EFFECT_DIVIDER 2 | trk.rst t1'''
    c = '''set t1 PANNING -32767 | set t1 PANNING 15000 | set t1 NOTE 75497472 | set t1 NOTE 41943040 | eff t1 EFFECT_PANNING_SLIDE 1 3 | eff t1 EFFECT_PORTAMENTO 1 4 | eff t1 EFFECT_PORTAMENTO 1 0 | set t1 NOTE -2 | gen c1 1'''
    d = '''set t1 NOTE 75497472 | set t1 VOLUME 0; set t1 PANNING 20000 | set t1 NOTE -1 | set t1 NOTE -2 | gen c1 3 | ref t1 INSTRUMENT - | trk.det t1; trk.att t1 c1'''
    return [conf('sld.new s1 32767', levels(4 if deep else 3, a), 'sld.step s1 1', 'sld.step s1 9'),
            conf(TRACK % (2, 'SINE') + '; set t1 NOTE 62914560', levels(4 if deep else 3, b), 'gen c1 2|tob t1', 'gen c1 1|tob t1|gen c1 1|tob t1|eff? t1 EFFECT_VOLUME_SLIDE 1'),
            conf(TRACK % (2, 'SINE') + '; set t1 NOTE 62914560', levels(4 if deep else 3, c), 'gen c1 2|tob t1', 'gen c1 1|tob t1|gen c1 2|tob t1|eff? t1 EFFECT_PORTAMENTO 1'),
            conf(TRACK % (2, 'SINE') + PLAYED % '; eff t1 EFFECT_PORTAMENTO 1 5; eff t1 EFFECT_VOLUME_SLIDE 1 7; eff t1 EFFECT_PANNING_SLIDE 1 5', levels(4 if deep else 3, d), 'gen c1 1|tob t1', 'gen c1 1|tob t1|gen c1 4|tob t1')]


@model('C14')
def c14(deep):
    a = '''itv.set s1 10000 3 | itv.set s1 -8000 1 | itv.delta s1 20000 | itv.delta s1 0 | itv.steps s1 2 | itv.steps s1 5 | itv.step s1 1 | itv.step s1 3 | itv.get s1 | itv.set s1 32767 4'''
    b = '''eff t1 EFFECT_TREMOLO 3 2 20000 0 | eff t1 EFFECT_TREMOLO 3 3 32767 2 | eff t1 EFFECT_TREMOLO 0 | eff t1 EFFECT_VIBRATO 3 2 1048576 0 | eff t1 EFFECT_VIBRATO 3 1 -524288 3 | eff t1 EFFECT_VIBRATO 0
           gen c1 1 | gen c1 3 | set t1 EFFECT_DIVIDER 2 | trk.rst t1 | set t1 NOTE 69206016'''
    d = '''set t1 NOTE -1 | set t1 NOTE -2 | set t1 NOTE 69206016 | gen c1 2 | eff t1 EFFECT_VIBRATO 3 2 -2000000 3 | eff t1 EFFECT_TREMOLO 3 3 32767 2 | ref t1 INSTRUMENT - | trk.det t1; trk.att t1 c1'''
    return [conf('itv.new s1 32767', levels(4 if deep else 3, a), 'itv.step s1 1', 'itv.step s1 13'),
            conf(TRACK % (1, 'SINE') + '; set t1 NOTE 62914560', levels(4 if deep else 3, b), 'gen c1 1|tob t1',
                 'gen c1 1|tob t1|gen c1 1|tob t1|eff? t1 EFFECT_TREMOLO 3|eff? t1 EFFECT_VIBRATO 3'),
            conf(TRACK % (1, 'SINE') + PLAYED % '; eff t1 EFFECT_TREMOLO 3 2 20000 0; eff t1 EFFECT_VIBRATO 3 3 1048576 0', levels(4 if deep else 3, d), 'gen c1 1|tob t1', 'gen c1 1|tob t1|gen c1 4|tob t1')]


@model('C15')
def c15(deep):
    a = '''arp t1 3 0 4194304 7340032 | arp t1 2 0 -1048576 | arp t1 1 524288 | arp t1 0 | arp t1 10 0 1 2 3 4 5 6 7 8 9 | set t1 ARPEGGIO_DIVIDER 1 | set t1 ARPEGGIO_DIVIDER 2
           set t1 NOTE 62914560 | set t1 NOTE -1 | set t1 NOTE -2 | gen c1 3 | trk.rst t1'''
    b = '''set t1 NOTE -1 | set t1 NOTE -2 | set t1 NOTE 69206016 | gen c1 2 | arp t1 2 0 -1048576 | arp t1 0 | ref t1 INSTRUMENT - | trk.det t1; trk.att t1 c1'''
    return [conf(TRACK % (1, 'SINE') + '; set t1 NOTE 60817408', levels(4 if deep else 3, a), 'gen c1 1|tob t1', 'gen c1 1|tob t1|gen c1 1|tob t1|arp? t1'),
            conf(TRACK % (1, 'SINE') + PLAYED % '; arp t1 3 0 4194304 7340032', levels(4 if deep else 3, b), 'gen c1 1|tob t1', 'gen c1 1|tob t1|gen c1 4|tob t1')]


SEQ = '''sst.seq s1 q1 | sst.seq s1 q2 | sst.seq s1 - | sst.ph s1 1 | sst.ph s1 2 | sst.ph s1 0 | sst.step s1 1 1 | sst.step s1 1 3 | sst.step s1 0 1 | sst.val s1 9'''


def sequences(defs, deep):
    """every pair of neighbouring definitions on one state"""
    out = []
    for k in range(0, len(defs) - 1, 2):
        out.append(conf('%s; %s; sst.new s1' % (defs[k] % 'q1', defs[k + 1] % 'q2'), [E('sst.seq s1 q1; sst.ph s1 1 | sst.seq s1 q2; sst.ph s1 1')] + levels(4 if deep else 3, SEQ), '', 'sst.step s1 1 9'))
    return out


@model('C16')
def c16(deep):
    defs = ['seq.new %s 1 2 4 5 1 2 3', 'seq.new %s 3 0 3 7 8 9', 'seq.new %s 0 2 3 1 2 3', 'seq.new %s 1 2 1 4', 'seq.new %s 2 1 3 3 6 9', 'seq.new %s 0 1 1 11']
    a = '''ref t1 INSTRUMENT i1 | ref t1 INSTRUMENT i2 | set t1 NOTE 100663296 | set t1 NOTE -1 | set t1 NOTE -2 | set t1 INSTRUMENT_DIVIDER 2 | gen c1 2 | ins.seq i1 0 0 1 2 30000 8000
           ins.seq i1 1 1 1 3 20000 -20000 0 | ins.seq i2 3 1 1 2 9 4 | ins.seq i1 0 0 0 0 | ref t1 INSTRUMENT -'''
    s = TRACK % (2, 'SQUARE') + '; ins.new i1 0; ins.seq i1 0 1 2 4 32767 20000 10000 5000; ins.new i2 0; ins.seq i2 2 1 1 3 1048576 0 524288'
    return sequences(defs, deep) + [conf(s, levels(4 if deep else 3, a), 'gen c1 1|tob t1', 'gen c1 1|tob t1|gen c1 7|tob t1')]


@model('C17')
def c17(deep):
    defs = ['env.new %s 1 1 3 2 5 3 2 1 0', 'env.new %s 2 0 2 1 7 4 -3', 'env.new %s 0 2 3 2 9 1 1 0 4', 'env.new %s 3 0 3 0 9 3 1 0 4', 'env.new %s 1 2 3 1 2 2 4 0 9', 'env.new %s 0 1 2 3 15 2 0']
    a = '''ref t1 INSTRUMENT i1 | ref t1 INSTRUMENT i2 | set t1 NOTE 100663296 | set t1 NOTE -1 | set t1 NOTE -2 | set t1 INSTRUMENT_DIVIDER 2 | gen c1 2 | ins.env i1 0 1 1 2 3 30000 2 8000
           ins.env i1 1 1 1 3 1 20000 2 -20000 1 0 | ins.env i2 3 1 1 2 2 9 1 4 | ins.adsr i1 2 1 20000 2 | set t1 DUTY_CYCLE 12'''
    s = TRACK % (2, 'SQUARE') + '; ins.new i1 0; ins.env i1 0 1 2 4 1 32767 2 20000 1 10000 3 0; ins.new i2 0; ins.env i2 2 1 1 3 2 1048576 1 0 2 524288'
    return sequences(defs, deep) + [conf(s, levels(4 if deep else 3, a), 'gen c1 1|tob t1', 'gen c1 1|tob t1|gen c1 7|tob t1')]


@model('C18')
def c18(deep):
    s = (TRACK % (2, 'SQUARE') + '; trk.new t2 SAWTOOTH 0; trk.att t2 c1; set t2 MASTER_VOLUME 9000; set t2 VOLUME 32767; set t2 INSTRUMENT_DIVIDER 1; ins.new i1 0; ins.seq i1 0 1 2 3 32767 20000 10000; '
         'ins.new i2 0; ins.env i2 0 1 1 2 1 20000 1 32767; set t1 NOTE 62914560; set t2 NOTE 73400320')
    a = '''ref t1 INSTRUMENT i1 | ref t2 INSTRUMENT i1 | ref t2 INSTRUMENT i2 | ref t1 INSTRUMENT - | ins.seq i1 0 0 1 2 30000 8000 | ins.seq i1 0 0 0 0 | ins.seq i1 3 1 1 2 3 9 | ins.env i1 1 1 1 2 2 20000 1 -20000
           ins.det i1 | disp i1 | ins.adsr i2 1 1 9000 2 | trk.rst t1 | disp t2 | ins.env i1 0 0 1 1 0 7'''
    return conf(s, levels(4 if deep else 3, a), 'gen c1 2', 'gen c1 2|tob t1|tob t2|set t1 NOTE -1|gen c1 3|tob t1')


# --------------------------------------------------------------- sample data

@model('C19')
def c19(deep):
    s = 'ctx.new c1 1 48000 0; ctx.ker c1 tap; unit.new u1 SQUARE; unit.att u1 c1; set u1 VOLUME 30000; set u1 PERIOD 1048576; dat.new x1 0; dat.frm x1 1 1 8 1000 -3000 6000 -6000 9000 200 -12000 32767; ref u1 SAMPLE x1'
    a = '''rng u1 SAMPLE_RANGE 2 6 | rng u1 SAMPLE_RANGE 6 1 | rng u1 SAMPLE_RANGE -3 -1 | set u1 SAMPLE_REPEAT 1 | set u1 SAMPLE_REPEAT 2 | set u1 SAMPLE_REPEAT 0 | rng u1 SAMPLE_SUSTAIN_RANGE 1 3
           rng0 u1 SAMPLE_SUSTAIN_RANGE | set u1 SAMPLE_PERIOD 2097152 | set u1 SAMPLE_PERIOD 700000 | set u1 PHASE 3 | set u1 MUTE 1 | set u1 MUTE 0 | gen c1 4 | rng0 u1 SAMPLE_RANGE'''
    out = [conf(s, levels(4 if deep else 3, a), 'gen c1 3', 'gen c1 9|obs u1|rng? u1 SAMPLE_RANGE')]
    # what callbacks change when a sample starts or ends takes effect at once
    acts = ops('rng u1 SAMPLE_SUSTAIN_RANGE 1 3; rng u1 SAMPLE_SUSTAIN_RANGE 4 7; rng0 u1 SAMPLE_SUSTAIN_RANGE; set u1 FLAG_RELEASE 1; set u1 FLAG_RELEASE 0; rng u1 SAMPLE_RANGE 2 6; rng u1 SAMPLE_RANGE 6 1; '
               'set u1 PHASE 3; set u1 SAMPLE_PERIOD 2097152; set u1 MUTE 1; set u1 SAMPLE_REPEAT 1; set u1 VOLUME 9000')
    cbs = [O(['scb', 'u1', r, [[k, a]]]) for a in acts for r in [1, 2] for k in ([1, 2, 3] if deep else [1, 2])]
    cbs += [O(['scb', 'u1', r, [[1, a], [2, b]]]) for a in acts[:7] for b in acts[:7] if a != b for r in ([0, 1, 2] if deep else [1])]
    pre = E('rng u1 SAMPLE_RANGE 0 8 | rng u1 SAMPLE_RANGE 7 0 | rng u1 SAMPLE_SUSTAIN_RANGE 1 3; set u1 SAMPLE_IMMED_RELEASE 1; set u1 FLAG_RELEASE 1 | rng u1 SAMPLE_SUSTAIN_RANGE 5 8')
    out.append(conf(s + '; set u1 SAMPLE_PERIOD 1048576', [pre, cbs, E('gen c1 23 | gen c1 6; gen c1 17' + (' | set u1 PHASE 5; gen c1 23 | gen c1 9; set u1 FLAG_RELEASE 1; gen c1 14' if deep else ''))], '', 'gen c1 7|obs u1|rng? u1 SAMPLE_RANGE'))
    return out


@model('C20')
def c20(deep):
    s = ('ctx.new c1 1 48000 0; ctx.ker c1 tap; unit.new u1 SQUARE; unit.att u1 c1; set u1 VOLUME 20000; set u1 PERIOD 1048576; trk.new t1 SINE 0; trk.att t1 c1; set t1 MASTER_VOLUME 9000; set t1 VOLUME 32767; '
         'set t1 NOTE 50331648; dat.new x1 0; dat.frm x1 1 1 6 1000 -3000 6000 -6000 9000 200; dat.new x2 0; dat.frm x2 0 1 4 -9000 4000 4000 -100')
    a = '''ref u1 SAMPLE x1 | ref u1 WAVEFORM x1 | ref t1 SAMPLE x1 | ref t1 WAVEFORM x2 | dat.frm x1 1 1 3 20000 -20000 5000 | dat.nrm x1 | dat.nrm x2 | dat.det x1 | disp x1 | ref u1 SAMPLE -
           dat.frm x2 1 2 2 1 2 3 4 | set u1 SAMPLE_REPEAT 1 | dat.cnv x1 16 0 | trk.clr t1'''
    return conf(s, levels(4 if deep else 3, a), 'gen c1 3', 'gen c1 4|obs u1|obs t1|dat? x1|dat? x2')


@model('C21')
def c21(deep):
    out = []
    bs = [0, 1, 127, 128, 129, 255] + ([2, 64, 85, 170, 254] if deep else [])
    for code in [1, 2, 3, 4, 6, 65536 + 6, 65536 + 4, 5, 0, 7]:
        alpha = [O('%s x1 %d %d %s' % (op, nch, code, ' '.join(map(str, b)))) for op in ['dat.raw', 'dat.ldr'] for nch in [1, 2]
                 for b in [(x, y) for x in bs for y in bs] + [(x, 3, 200, 255 - x) for x in bs] + [(7,), (1, 2, 3)]]
        out.append(conf('dat.new x1 0', [alpha, E('dat.cnv x1 12 0 | dat.nrm x1 | dat? x1')] if deep else [alpha], '', 'dat? x1|disp x1'))
    return out


def wave(data, nch=1, rate=8000, bits=16, align=None, size=None, riff=None, fmt=16, tag=1, extra=()):
    """bytes of a WAVE file"""
    def w(n, k):
        return [(n >> (8 * i)) & 255 for i in range(k)]
    al = nch * bits // 8
    head = w(tag, 2) + w(nch, 2) + w(rate, 4) + w(rate * al, 4) + w(al, 2) + w(bits, 2) + [0] * (fmt - 16)
    body = list(b'WAVE') + list(b'fmt ') + w(fmt, 4) + head + list(extra) + list(b'data') + w(len(data) if size is None else size, 4) + list(data)
    return list(b'RIFF') + w(len(body) if riff is None else riff, 4) + body


@model('C22')
def c22(deep):
    out = []
    for bits in [16, 8]:
        for nch in [1, 2]:
            a = 'wrt.add w1 1 -1 300 -32768 | wrt.add w1 | wrt.add w1 32767 255 256 -256 | wrt.end w1 | wrt.add w1 -255 -257 127 128'
            for start in [0, 3]:
                s = 'fil.new f1 rw %s; fil.pos f1 -1; wrt.new w1 f1 %d 8000 %d; dat.new x1 0' % (' '.join(['9'] * start), nch, bits)
                out.append(conf(s, levels(4 if deep else 3, a), '', 'fil? f1|wrt.end w1|fil? f1|fil.pos f1 %d|dat.wav x1 f1|dat? x1|disp w1|fil? f1|disp x1' % start))
    s = 'dat.new x1 0; dat.frm x1 1 2 2 1 -1 300 -32768; dat.new x2 0; fil.new f1 rw'
    out.append(conf(s, [E('wav.put f1 x1 44100 16 | wav.put f1 x1 8000 8 | wav.put f1 x1 8000 0 | wav.put f1 x1 8000 12'), E('fil.pos f1 0 | fil.pos f1 3 | fil.pos f1 -1; wav.put f1 x1 96000 16; fil.pos f1 0')], '', 'dat.wav x2 f1|dat? x2|fil? f1|disp x2'))
    return out


READ = E('dat.wav x1 f1 | rdr.new q1 f1; rdr.hdr q1; rdr.read q1; rdr.hdr q1; disp q1')


@model('C23')
def c23(deep):
    out = []
    base = [wave([1, 2, 3, 4, 5, 6, 7, 8]), wave([1, 2, 3, 4, 5, 6], nch=2, bits=8), wave([1, 2, 3, 4, 5, 6, 7, 8], fmt=18, extra=list(b'LIST') + [4, 0, 0, 0, 1, 2, 3, 4])]
    for b in base[:3 if deep else 2]:
        alpha = []
        for i in range(len(b)):
            for v in sorted({0, 1, 3, 127, 128, 255, b[i] ^ 1, b[i] ^ 32} if deep else {0, 1, 255, b[i] ^ 1}):
                # sizes of millions of frames are refused for want of memory or take too long
                if v != b[i] and b[i - 6:i - 2] != list(b'data') and not (b[i - 7:i - 3] == list(b'data') and v < 128):
                    alpha.append(O(['fil.new', 'f1', 'r'] + b[:i] + [v] + b[i + 1:]))
        for n in range(len(b)):
            alpha.append(O(['fil.new', 'f1', 'r'] + b[:n]))
        out.append(conf('dat.new x1 0; dat.frm x1 1 1 2 5 6', [alpha, READ], '', 'dat? x1|disp x1'))
    # long chunks to skip that themselves look like data, long format extensions, data longer than one portion
    fake = list(b'data') + [2, 0, 0, 0]
    alpha = []
    for nch, bits, data in [(1, 16, [1, 2, 3, 4, 5, 6]), (2, 8, [7, 8, 9, 10])]:
        b = wave(data, nch=nch, bits=bits)
        for n in [1024, 4104, 32776, 65535, 65544, 131072] if deep else [1024, 4097, 65544]:
            size = [(n >> (8 * i)) & 255 for i in range(4)]
            alpha.append(O(['fil.new', 'f1', 'r'] + b[:36] + list(b'LIST') + size, ['fil.add', 'f1', n // 8] + fake, ['fil.add', 'f1', 1] + [0] * (n % 8 + n % 2) + b[36:]))
        for n in [24, 264, 65552] if deep else [264, 65552]:
            size = [(n >> (8 * i)) & 255 for i in range(4)]
            alpha.append(O(['fil.new', 'f1', 'r'] + b[:16] + size + b[20:36], ['fil.add', 'f1', (n - 16) // 8] + fake, ['fil.add', 'f1', 1] + b[36:]))
        for n in [1023, 1024, 1025, 2048, 2050, 4999] if deep else [1024, 1025, 2050]:
            b = wave([3] * n, nch=nch, bits=bits)
            alpha.append(O(['fil.new', 'f1', 'r'] + b[:44], ['fil.add', 'f1', n // 5, 1, 200, 0, 255, 40], ['fil.add', 'f1', 1] + [9] * (n % 5) + list(b'LIST')))
    out.append(conf('dat.new x1 0; dat.frm x1 1 1 2 5 6', [alpha, READ], '', 'dat? x1|disp x1'))
    return out


# ----------------------------------------------------------------- the rest

@model('C24')
def c24(deep):
    again = '''ctx.per c1 2 0; set t1 MASTER_VOLUME 20000; set t1 VOLUME 32767; set t1 EFFECT_DIVIDER 1; set t1 ARPEGGIO_DIVIDER 1; set t1 INSTRUMENT_DIVIDER 1; ref t1 INSTRUMENT i1
               set t1 WAVEFORM SQUARE; set t1 DUTY_CYCLE 4; set t1 NOTE 62914560; set u1 WAVEFORM SAWTOOTH; set u1 PERIOD 1310720; set u1 VOLUME 9000; set u1 MUTE 0'''
    new = '''ctx.new c1 2 48000 0; ctx.ker c1 slope; ctx.per c1 2 0; trk.new t1 SQUARE 0; trk.att t1 c1; unit.new u1 SAWTOOTH; unit.att u1 c1; clk.new k1 3 0 1 0; clk.att k1 c1 last
             div.new d1 2 1 0; div.attk d1 k1; ins.new i1 0; ins.env i1 0 1 1 2 2 20000 1 32767; dat.new x1 0; dat.frm x1 1 1 3 1 900 -900'''
    a = '''set t1 NOTE 73400320 | set t1 NOTE -1 | ref t1 INSTRUMENT i1 | set t1 PANNING -9000 | arp t1 2 0 2097152 | eff t1 EFFECT_TREMOLO 3 2 20000 0 | eff t1 EFFECT_PORTAMENTO 1 3 | set t1 PITCH 2000000
           set u1 PHASE 4 | set u1 MUTE 1 | run c1 1 524288 | crun c1 2 0 | gen c1 9 | div.rst d1 | clk.rst k1 | set u1 PHASE_WRAP 3 | ref u1 WAVEFORM x1'''
    rst = 'ctx.rst c1; ' + again.replace('\n', ';')
    play = ';'.join(['gen c1 1', 'gen c1 5', 'gen c1 8'])
    # reset in its place, and a track reset while it belongs to no context
    return [conf(new + ';' + again.replace('\n', ';') + '; gen c1 5', levels(3 if deep and away == '' else 2 if deep or away == '' else 1, a) + [[O(*[o for o in (away + rst).split(';') if o.strip()])]],
                 'gen c1 3', 'gen c1 9|tob t1|obs u1', fresh=new, again=again + ';' + play) for away in ['', 'trk.det t1; trk.rst t1; trk.att t1 c1;']]


@model('C25')
def c25(deep):
    a = '''set t1 VOLUME 0 | set t1 VOLUME 32767 | set t1 VOLUME 11111 | set t1 MASTER_VOLUME 0 | set t1 MASTER_VOLUME 9000 | set t1 PANNING 32767 | set t1 PANNING -32767 | set t1 PANNING 7777 | set t1 PANNING -16384
           ref t1 INSTRUMENT i1 | ref t1 INSTRUMENT - | eff t1 EFFECT_TREMOLO 3 2 32767 0 | set t1 WAVEFORM TRIANGLE; set t1 TRIANGLE_IGNORES_VOLUME 1 | set t1 NOTE -1 | set t1 MUTE 1 | trk.rst t1'''
    s = '; ins.new i1 0; ins.seq i1 0 0 2 2 32767 7000; ins.seq i1 1 0 2 2 32767 -32767; set t1 NOTE 62914560'
    return [conf(TRACK % (n, 'SINE') + s, levels(4 if deep and n == 2 else 3 if n == 2 or deep else 2, a), 'gen c1 1|tob t1', 'gen c1 1|tob t1|gen c1 2|tob t1') for n in [2, 1, 3]]


@model('C26')
def c26(deep):
    out = []
    notes = [0, 1, 11, 12, 47, 48, 59, 60, 94, 95, 96]
    for rate in [16000, 22050, 44100, 48000, 96000]:
        step = 1 if deep else 4
        alpha = [O(*['tone %d %d' % (p * U20 + f, rate) for f in [0, 1, 16, 1000, 65536, 262144, 524288, 786432, 1048575]]) for p in range(0, 97, step)]
        out.append(conf('', [alpha], ''))
    out.append(conf('', [[O(*['log2 %d' % (p * U20 + f) for f in [0, 1, 4096, 262144, 524288, 786432, 1048575]]) for p in range(-3, 100, 1 if deep else 2)]], ''))
    for rate in [16000, 44100, 96000]:
        s = TRACK.replace('48000', str(rate)) % (1, 'SINE') + '; dat.new x1 0; dat.frm x1 1 1 3 1 900 -900; ins.new i1 0; ins.seq i1 2 0 1 2 1048576 -1048576'
        a = ['set t1 NOTE %d' % (n * U20) for n in (notes if deep else [0, 12, 59, 96])] + ['set t1 NOTE 63439000', 'set t1 PITCH 1048576', 'set t1 PITCH -12582912', 'set t1 SAMPLE_PITCH 6291456', 'ref t1 SAMPLE x1', 'ref t1 WAVEFORM x1',
             'set t1 WAVEFORM SAWTOOTH', 'dat.frm x1 1 1 5 1 900 -900 7 -7', 'arp t1 2 0 12582912', 'ref t1 INSTRUMENT i1', 'eff t1 EFFECT_VIBRATO 3 2 1048576 0']
        out.append(conf(s, levels(3 if deep else 2, [O(x) for x in a]), 'gen c1 1|tob t1', 'gen c1 1|tob t1|dat.frm x1 1 1 2 900 -900|tob t1|gen c1 1|tob t1'))
    return out


@model('C27')
def c27(deep):
    a = '''gtt c1 3 0 0 | gtt c1 5 524288 0 | gtt c1 2 0 0 | gtt c1 9 0 1 | gtt c1 6 1 0 | gen c1 2 | gen c1 5 | run c1 1 524288 | read c1 2 | unit.det u1 | unit.att u2 c1 | ctx.rst c1 | clk.att k1 c1 last'''
    return conf(SOUND % 'tap' + '; clk.new k1 2 524288 1 0', levels(4 if deep else 3, a), 'ctx.time c1', 'gtt c1 12 0 0|ctx.time c1|size c1|read c1 30|gtt c1 15 262144 0|gen c1 3|ctx.time c1')


@model('C28')
def c28(deep):
    s = (TRACK % (1, 'SQUARE') + '; ins.new i1 0; ins.seq i1 0 1 2 3 32767 20000 10000; ins.env i1 3 1 1 2 1 9 1 4; dat.new x1 0; dat.frm x1 0 1 4 1000 -3000 6000 -6000; unit.new u1 SQUARE; unit.att u1 c1; '
         'set u1 VOLUME 9000; set u1 PERIOD 1048576; set t1 NOTE 62914560')
    a = '''ins.copy i2 i1 0 | dat.copy x2 x1 0 | ins.seq i1 0 0 1 2 30000 8000 | ins.seq i2 0 0 1 2 9000 4000 | ins.seq i2 3 0 0 0 | dat.nrm x2 | dat.nrm x1 | dat.frm x1 1 1 3 9 -9 90 | dat.frm x2 1 1 3 9 -9 90
           ref t1 INSTRUMENT i2 | ref u1 SAMPLE x2 | ref t1 INSTRUMENT i1 | ref u1 WAVEFORM x1 | disp i1 | disp x1 | disp i2 | disp x2'''
    return conf(s, levels(4 if deep else 3, a), 'gen c1 2', 'gen c1 3|tob t1|dat? x1|dat? x2|' + END + BAL)


@model('C29')
def c29(deep):
    s = (TRACK % (1, 'SQUARE') + '; ins.new i1 0; ins.seq i1 0 1 2 3 32767 20000 10000; ins.env i1 3 1 1 2 1 9 1 4; dat.new x1 0; dat.frm x1 0 1 4 1000 -3000 6000 -6000; dat.new x2 0; dat.frm x2 1 1 3 9 -9 90; '
         'unit.new u1 SQUARE; unit.att u1 c1; set u1 VOLUME 9000; set u1 PERIOD 1048576; set t1 NOTE 62914560; fil.new f1 r ' + ' '.join(str(b) for b in wave([1, 0, 2, 0, 3, 0])))
    need = ['ins.seq i1 0 0 1 2 30000 8000', 'ins.env i1 0 0 1 2 2 20000 1 9000', 'ins.adsr i1 2 2 20000 3', 'dat.frm x1 1 1 3 9 -9 90', 'dat.frm x1 1 1 5 7 8 9 10 11', 'dat.frm x2 1 1 2 5 6', 'dat.raw x1 1 4 1 2 3', 'dat.ldr x2 1 4 1 2 3 4',
            'dat.nrm x1', 'fil.pos f1 0; dat.wav x1 f1', 'ctx.new c2 2 44100 0; drop c2 1', 'ctx.new c2 1 44100 1; drop c2', 'trk.new t2 SINE 1; drop t2', 'clk.new k1 2 0 1 1; drop k1', 'div.new d1 2 1 1; drop d1',
            'ins.new i2 1; drop i2', 'dat.new x3 1; drop x3', 'ins.copy i2 i1 0; drop i2', 'dat.copy x3 x1 0; drop x3']
    a = []
    for o in need:
        first, more = (o.split('; ') + [''])[:2]
        if o.startswith('fil.pos'):
            a.append(O('fil.pos f1 0', 'fail 1', 'dat.wav x1 f1', 'fail 0'))
        else:
            a.append(O(*[w for w in ['fail 1', first, 'fail 0', more] if w]))
    a += [O('fail 2', 'ins.copy i2 i1 0', 'fail 0', 'drop i2'), O('fail 2', 'ctx.new c2 1 44100 1', 'fail 0', 'drop c2')]
    if not deep:
        a = a[:10] + [a[10], a[12], a[17], a[18]] + a[19:]
    # what works meanwhile
    b = E('''ref t1 INSTRUMENT i1 | ref u1 SAMPLE x1 | ref u1 WAVEFORM x2 | ins.seq i1 0 0 1 2 30000 8000 | dat.frm x1 1 1 3 9 -9 90 | dat.nrm x1 | disp x1 | disp i1 | ins.copy i2 i1 0 | dat.copy x3 x1 0''')
    return conf(s, [b, a, a + b] if not deep else [b, a, b, a], 'gen c1 2', 'dat? x1|dat? x2|dat.own x1|gen c1 3|obs t1|obs u1|disp x3|' + END + BAL)


@model('C30')
def c30(deep):
    s = ('ctx.new c1 1 48000 0; unit.new u1 SQUARE; trk.new t1 SINE 0; ins.new i1 0; dat.new x1 0; dat.frm x1 0 1 4 1000 -3000 6000 -6000; ins.new i2 0; ins.seq i2 0 0 1 1 5')
    a = '''ref u1 SAMPLE x1; ref? u1 SAMPLE | ref u1 WAVEFORM x1; ref? u1 SAMPLE | ref t1 INSTRUMENT i1; ref? t1 INSTRUMENT | ref t1 SAMPLE x1; ref? t1 SAMPLE | ref t1 INSTRUMENT -; ref? t1 INSTRUMENT
           ref u1 INSTRUMENT i1; ref? u1 INSTRUMENT | sref t1 INSTRUMENT i2; sref? t1 INSTRUMENT | arp t1 2 5 6; arp? t1 | sarp t1 1 9; sarp? t1 | eff t1 EFFECT_TREMOLO 3 2 3 4; eff? t1 EFFECT_TREMOLO 3
           seff t1 EFFECT_VIBRATO 2 5 6; seff? t1 EFFECT_VIBRATO 2 | rng u1 SAMPLE_RANGE 1 3; rng? u1 SAMPLE_RANGE | disp i1; ref? t1 INSTRUMENT | disp x1; ref? u1 SAMPLE | ctx.get c1 SAMPLE_RATE
           ctx.per c1 0 0; ctx.per? c1 | ctx.per c1 3 5; ctx.per? c1 | trk.clr t1; ref? t1 INSTRUMENT; ref? t1 SAMPLE | name 0 | eff u1 EFFECT_TREMOLO 3 1 2 3 | set u1 WAVEFORM SINE; ref? u1 SAMPLE'''
    return conf(s, levels(3 if deep else 2, a), 'obs t1|obs u1', END + BAL)


@model('C31')
def c31(deep):
    out = []
    def two(a, b):
        """the same for both sides"""
        return a + '; ' + other(a if b is None else b)
    def other(t):
        return re.sub(r'\b([cktduixqwfp])(\d)\b', lambda m: m[1] + str(int(m[2]) + 50), t)
    one = 'ctx.new c1 1 48000 0; ctx.ker c1 tap; ctx.per c1 3 0; trk.new t1 SQUARE 0; set t1 MASTER_VOLUME 20000; trk.att t1 c1; ins.new i1 0; ins.seq i1 0 1 1 3 32767 20000 10000; dat.new x1 0; dat.frm x1 0 1 4 1000 -3000 6000 -6000'
    two_ = 'ctx.new c1 2 22050 1; ctx.ker c1 slope; ctx.per c1 2 5; trk.new t1 NOISE 1; set t1 MASTER_VOLUME 9000; trk.att t1 c1; ins.new i1 1; ins.seq i1 0 0 1 2 3 4; dat.new x1 1; dat.frm x1 1 1 3 9 -9 90'
    act = 'set t1 NOTE 98566144 | set t1 NOTE -2 | set t1 VOLUME 9000 | ref t1 INSTRUMENT i1 | ref t1 SAMPLE x1 | eff t1 EFFECT_VIBRATO 2 2 3000000 | gen c1 4 | trk.clr t1 | ctx.rst c1 | disp i1 | dat.nrm x1'
    a = E(act)
    b = E(other(act))
    for s in [two(one, two_)] + ([two(one, None)] if deep else []):
        out.append(conf(s, [a, b, a, b] if deep else [a[:7], b[:8], a[:7]], 'gen c1 3|gen c51 2', 'gen c1 5|gen c51 5|obs t1|obs t51|' + END + '|' + '|'.join('disp ' + o for o in ['t51', 'i51', 'x51', 'c51']) + BAL))
    # pitches, waveforms and noise of both sides at once
    one = 'ctx.new c1 1 48000 0; ctx.ker c1 tap; trk.new t1 %s 0; set t1 MASTER_VOLUME 20000; trk.att t1 c1; unit.new u1 %s; set u1 VOLUME 9000; set u1 PERIOD 700000; unit.att u1 c1'
    act = 'set t1 NOTE 70000000 | set t1 NOTE 99999999 | set t1 WAVEFORM NOISE | set t1 PITCH 400000; set t1 NOTE 61000000 | set u1 PHASE_WRAP 5 | set u1 DUTY_CYCLE 3 | gen c1 3 | name 3'
    for w, v in [('SQUARE', 'NOISE'), ('SINE', 'NOISE')] + ([('TRIANGLE', 'SAWTOOTH')] if deep else []):
        s = two(one % (w, v), (one % (v, w)).replace('48000', '32000'))
        out.append(conf(s, [E(act), E(other(act)), E(act), E(other(act))] if deep else [E(act), E(other(act)), E(act)], 'gen c51 2|gen c1 3', 'get t1 PERIOD|get t51 PERIOD'))
    # clocks and callbacks
    s = two('ctx.new c1 1 48000 0; ctx.per c1 2 0; clk.new k1 2 0 1 0; div.new d1 2 1 0; unit.new u1 SQUARE; unit.att u1 c1; set u1 VOLUME 9000; set u1 PERIOD 1048576; set u1 DUTY_CYCLE 15', None)
    act = 'clk.att k1 c1 last | clk.det k1 | clk.per k1 1 524288 | div.attk d1 k1 | div.attc d1 c1 eff | gen c1 3 | ctx.rst c1 | disp k1'
    out.append(conf(s, [E(act), E(other(act))] * 2 if deep else [E(act), E(other(act)), E(act)], 'gen c1 2|gen c51 2', 'ctx.time c1|ctx.time c51'))
    # whatever was done to some objects, new ones start with the defaults
    s = one.replace('ctx.ker c1 tap', 'ctx.per c1 2 0') % ('SQUARE', 'NOISE') + '; dat.new x1 0; dat.frm x1 0 1 4 1000 -3000 6000 -6000; ins.new i1 0; ins.seq i1 0 1 1 3 32767 20000 10000; clk.new k1 3 0 1 0; clk.att k1 c1 last; div.new d1 2 1 0; div.attk d1 k1'
    act = """ctx.ker c1 sinc | ctx.ker c1 tap | ctx.per c1 3 5 | set t1 NOTE 70000000; set t1 PITCH 400000 | set t1 MASTER_VOLUME 5 | set t1 PANNING 9000; set t1 VOLUME 300 | set t1 DUTY_CYCLE 9; set u1 DUTY_CYCLE 2 | set t1 EFFECT_DIVIDER 3 |
           set t1 ARPEGGIO_DIVIDER 5; set t1 INSTRUMENT_DIVIDER 2 | arp t1 2 0 12582912; set t1 NOTE 70000000 | eff t1 EFFECT_VIBRATO 2 2 3000000; set t1 NOTE 70000000 | eff t1 EFFECT_VOLUME_SLIDE 1 9; set t1 VOLUME 900 | ref t1 INSTRUMENT i1 |
           ref u1 SAMPLE x1; set u1 SAMPLE_REPEAT 2; set u1 SAMPLE_PERIOD 1572864 | set x1 SAMPLE_PITCH 12582912 | rng x1 SAMPLE_SUSTAIN_RANGE 1 3 | ref u1 WAVEFORM x1; set u1 PHASE_WRAP 5 | set u1 VOLUME 4; set u1 PERIOD 800000; set u1 PHASE 3 |
           clk.per k1 1 524288; div.det d1 | set u1 MUTE 1; set t1 MUTE 1 | unit.det u1; trk.det t1"""
    out.append(conf(s, [E(act), E(act)] if deep else [E(act)], 'gen c1 4', """ctx.new c9 2 44100 0|ctx.ker? c9|ctx.per? c9|trk.new t9 SQUARE 0|trk.att t9 c9|obs t9|tob t9|unit.new u9 NOISE|obs u9|set u9 VOLUME 9000|set u9 PERIOD 1048576|unit.att u9 c9|set t9 MASTER_VOLUME 20000|set t9 NOTE 70000000|obs t9|gen c9 4|dat.new x9 0|dat.frm x9 0 1 4 1000 -3000 6000 -6000|get x9 SAMPLE_PITCH|rng? x9 SAMPLE_SUSTAIN_RANGE|ref u9 SAMPLE x9|obs u9|clk.new k9 2 0 1 0|clk.att k9 c9 last|div.new d9 2 1 0|div.attk d9 k9|ins.new i9 0|ins.has i9 0|ref t9 INSTRUMENT i9|gen c9 4|tob t9|gen c9 3"""))
    # files of several formats written and read in turns
    new = 'wrt.new w1 f1 1 8000 16; wrt.add w1 1 -300 | wrt.new w1 f1 2 8000 16; wrt.add w1 700 9 | wrt.new w1 f1 1 8000 8 | wrt.new w1 f1 2 9000 16; wrt.add w1 5 -6'
    more = 'wrt.add w1 300 -400 | wrt.end w1'
    out.append(conf(two('fil.new f1 rw; fil.pos f1 -1', None), [E(new), E(other(new)), E(other(more)), E(more)], '', 'disp w51|fil? f51|disp w1|fil? f1'))
    return out


@model('C32')
def c32(deep):
    ts = [(t, f) for t in [-2049, -1, 0, 1, 2047, 2048, 4095, 4096, 536870911] for f in ([0, 1, 524288, 1048575] if deep else [0, 1, 1048575])]
    pairs = [O(*['tcmp %d %d %d %d' % (a + b) for b in ts]) for a in ts]
    made = [O(*['tmk %d %d' % (t, f) for f in [0, 1, 1048575, 1048576, 3145729, 2147483647]]) for t in [-5, -1, 0, 7, 2048, 536870911]]
    out = [conf('', [pairs], ''), conf('', [made], '')]
    for rate in [16000, 22050, 44100, 96000] if deep else [44100, 96000]:
        out.append(conf('ctx.new c1 1 %d 0' % rate, [[O(*['tsec c1 %d %d' % (n, d) for n in [0, 1, 3, 255, 9999]]) for d in [1, 2, 64, 1024]]], ''))
    return out
