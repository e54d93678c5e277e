"""Seeded generators of operation sequences for the conformance checks.

They only decide what to do next and keep track of which objects exist; what has
to happen is decided by the specification alone."""
import random, re

U20 = 1 << 20
MAXV = 32767
WAVES = ['SQUARE', 'TRIANGLE', 'NOISE', 'SAWTOOTH', 'SINE']
UNIT_ATTRS = ['DUTY_CYCLE', 'WAVEFORM', 'PHASE', 'PHASE_WRAP', 'PERIOD', 'VOLUME', 'VOLUME_0', 'VOLUME_1', 'VOLUME_2', 'VOLUME_3',
              'VOLUME_4', 'VOLUME_5', 'VOLUME_6', 'VOLUME_7', 'MUTE', 'SAMPLE_REPEAT', 'SAMPLE_PERIOD', 'SAMPLE_IMMED_RELEASE',
              'FLAG_RELEASE']
TRACK_ATTRS = ['MASTER_VOLUME', 'VOLUME', 'PANNING', 'DUTY_CYCLE', 'NOTE', 'PITCH', 'SAMPLE_PITCH', 'ARPEGGIO_DIVIDER', 'EFFECT_DIVIDER',
               'INSTRUMENT_DIVIDER', 'TRIANGLE_IGNORES_VOLUME', 'EFFECT_VOLUME_SLIDE', 'EFFECT_PANNING_SLIDE', 'EFFECT_PORTAMENTO']
ALL_ATTRS = sorted(set(UNIT_ATTRS + TRACK_ATTRS + ['NUM_CHANNELS', 'SAMPLE_RATE', 'NUM_PHASES', 'NUM_FRAMES', 'SAMPLE_RANGE', 'ARPEGGIO',
                       'INSTRUMENT', 'CLOCK_PERIOD', 'EFFECT_TREMOLO', 'EFFECT_VIBRATO', 'SAMPLE', 'TIME', 'PULSE_KERNEL']))
EFFECTS = ['EFFECT_VOLUME_SLIDE', 'EFFECT_PANNING_SLIDE', 'EFFECT_PORTAMENTO', 'EFFECT_TREMOLO', 'EFFECT_VIBRATO']
KERNELS = ['tap', 'slope', 'sinc', 'harm']


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.ops = []
        self.pend = {}         # frames run but not read, upper bound
        self.nch = {}
        self.n = {}
        self.ctxs, self.clks, self.divs, self.units, self.trks, self.inss, self.dats = [], [], [], [], [], [], []
        self.dmin = 1000       # length of the shortest data

    # -- little helpers
    def __call__(self, *op):
        self.ops.append(list(op))
        return self

    def name(self, p):
        self.n[p] = self.n.get(p, 0) + 1
        return '%s%d' % (p, self.n[p])

    def ri(self, a, b):
        return self.r.randint(a, b)

    def pick(self, l):
        return self.r.choice(l)

    def p(self, x):
        return self.r.random() < x

    def edge(self, lo, hi):
        """a value of lo..hi, often near the ends, sometimes beyond"""
        k = self.r.random()
        if k < .15:
            return lo
        if k < .3:
            return hi
        if k < .38:
            return self.pick([lo - 1, hi + 1, lo - self.ri(1, 100000), hi + self.ri(1, 100000)])
        if k < .42:
            return self.pick([2147483647, -2147483647, -2147483648]) if lo - 1 > -2147483648 else self.ri(lo, hi)
        if k < .55:
            return min(hi, max(lo, self.pick([0, 1, -1, 2, lo + 1, hi - 1, (lo + hi) // 2])))
        return self.ri(lo, hi)

    # -- times
    def period(self, small=False):
        k = self.r.random()
        if small or k < .5:
            s = self.ri(1, 40)
        elif k < .75:
            s = self.ri(20, 300)
        elif k < .87:
            s = self.ri(300, 700)
        else:
            s = self.pick([682, 683, 1023, 1024, 1365, 1366, 2047, 2048, 2049, 3000, 4095, 4096, 5000, self.ri(2000, 9000)])
        f = 0 if self.p(.4) else self.pick([1, 524288, 262144, U20 - 1, self.ri(0, U20 - 1)])
        return s, f

    # -- creation
    def ctx(self, nch=None, rate=None, ker=None, alloc=None):
        c = self.name('c')
        nch = nch if nch is not None else self.pick([1, 1, 2, 2, 2, 3, 4, 8] if self.p(.97) else [0, 9, 100])
        self('ctx.new', c, nch, rate or self.pick([44100, 44100, 48000, 22050, 16000, 96000, 8000, 32000]), self.ri(0, 1) if alloc is None else alloc)
        self('ctx.ker', c, ker or self.pick(KERNELS + ['tap', 'tap']))
        self.ctxs.append(c)
        self.pend[c] = 0
        self.nch[c] = min(8, max(1, nch))
        return c

    def unit(self, c=None, wf=None, vol=None, per=None):
        u = self.name('u')
        self('unit.new', u, wf or self.pick(WAVES))
        self.units.append(u)
        if c:
            self('unit.att', u, c)
        if vol is not None:
            self('set', u, 'VOLUME', vol)
        if per is not None:
            self('set', u, 'PERIOD', per)
        return u

    def per(self, lo=400000):
        """step period of a unit"""
        k = self.r.random()
        if k < .2:
            return self.ri(1, 8) * U20
        if k < .3:
            return self.ri(lo, U20)
        if k < .4:
            return self.pick([U20 - 1, U20 + 1, U20 * 3 // 2, U20 // 2, 1 << 27, 123456789])
        return self.ri(lo, 12 * U20)

    def track(self, c=None, wf=None, mvol=None, alloc=None):
        t = self.name('t')
        self('trk.new', t, wf or self.pick(WAVES), self.ri(0, 1) if alloc is None else alloc)
        self.trks.append(t)
        if c:
            self('trk.att', t, c)
        if mvol is not None:
            self('set', t, 'MASTER_VOLUME', mvol)
        return t

    def data(self, nch=None, n=None, small=False, amp=None, copy=None):
        x = self.name('x')
        self('dat.new', x, self.ri(0, 1))
        self.dats.append(x)
        self.frames(x, nch, n, amp, copy)
        return x

    def frames(self, x, nch=None, n=None, amp=None, copy=None):
        nch = nch or self.pick([1, 1, 2])
        n = n or self.pick([2, 3, 4, 5, 7, 8, 12, 16, 33, 63, 64, 65, 100])
        self.dmin = min(n, self.dmin)
        amp = amp or self.pick([32767, 30000, 12000])
        vals = [self.pick([amp, -amp, self.ri(-amp, amp), self.ri(-amp, amp), 0, -32768 if amp == 32767 else -amp]) for _ in range(n * nch)]
        self('dat.frm', x, self.ri(0, 1) if copy is None else copy, nch, n, *vals)
        return n

    def seqval(self, slot):
        if slot == 0:
            return self.pick([0, MAXV, self.ri(0, MAXV), self.ri(0, MAXV)])
        if slot == 1:
            return self.pick([0, MAXV, -MAXV, self.ri(-MAXV, MAXV)])
        if slot == 2:
            return self.pick([0, U20, -U20, 12 * U20, self.ri(-24 * U20, 24 * U20)])
        return self.pick([0, 1, 15, 8, self.ri(1, 15)])

    def sequence(self, i, slot=None, env=None):
        slot = self.ri(0, 3) if slot is None else slot
        n = self.pick([1, 1, 2, 3, 4, 5, 8])
        if self.p(.01):
            n = self.ri(256, 260)
        k = self.r.random()
        if k < .25:
            so, sl = n, 0
        elif k < .8:
            so = self.ri(0, n - 1)
            sl = self.ri(1, n - so)
        elif k < .9:
            so, sl = self.ri(0, n), self.ri(0, n)
        else:
            so, sl = self.pick([-1, 0, n, n + 3, n - 1]), self.pick([-1, 0, n, n + 3, 1])
        if self.p(.5) if env is None else env:
            st = []
            for _ in range(n):
                st += [self.pick([0, 0, 1, 1, 2, 3, 5, 8, 1, 2, 3, 5, self.ri(0, 40), self.ri(0, 40), self.pick([256, 257, 65537])]), self.seqval(slot)]
            self('ins.env', i, slot, so, sl, n, *st)
        elif self.p(.12) and slot == 0 and env is None:
            self('ins.adsr', i, self.ri(0, 6), self.ri(0, 6), self.ri(0, MAXV), self.ri(0, 6))
        else:
            self('ins.seq', i, slot, so, sl, n, *[self.seqval(slot) for _ in range(n)])

    def ins(self, slots=None, env=None):
        i = self.name('i')
        self('ins.new', i, self.ri(0, 1))
        self.inss.append(i)
        for s in slots if slots is not None else self.r.sample(range(4), self.pick([1, 1, 2, 3, 4])):
            self.sequence(i, s, env)
        return i

    # -- time passes
    def gen(self, c, lo=1, hi=60):
        self('gen', c, self.ri(lo, hi))

    def advance(self, c, hi=60):
        k = self.r.random()
        if k < .62:
            self('gen', c, self.pick([0, 1, 2, self.ri(1, hi), self.ri(1, hi), self.ri(1, hi)]))
        elif k < .76:
            s = self.ri(0, hi)
            f = self.pick([0, 0, 1, 524288, U20 - 1, self.ri(0, U20 - 1)])
            if self.pend[c] + s + 1 < 880:
                # run ahead in pieces, sometimes further than the end
                m = s
                for _ in range(self.pick([0, 0, 0, 1, 2, 3])):
                    if self.pend[c] + s + 5 < 880:
                        m = self.ri(0, s + 3)
                        self('crun', c, m, self.pick([0, f, self.ri(0, U20 - 1)]))
                if not self.p(.1) or m > s: # else read or generate next
                    self('run', c, s, f)
                self.pend[c] += s + 4
            else:
                self.read(c, 900)
        elif k < .86:
            self.read(c, self.pick([0, 1, self.ri(1, hi), self.ri(1, hi), 900]))
        elif k < .93:
            self('size', c)
        else:
            self('ctx.time', c)

    def read(self, c, n):
        self('read', c, n)
        self.pend[c] = max(0, self.pend[c] - n)

    def drain(self, c):
        self.read(c, 900)

    def end(self, shuffle=True):
        """dispose everything, nothing may be left"""
        all_ = self.ctxs + self.clks + self.divs + self.units + self.trks + self.inss + self.dats
        if shuffle:
            self.r.shuffle(all_)
        for o in all_:
            self('disp', o)
        self('bal')
        return self.ops


# =============================================================== clocks

def clock_acts(g, k, kind):
    """callback actions of clock or divider k"""
    acts = []
    if g.p(.35):
        return acts
    others = [x for x in g.clks if x != k]
    for _ in range(g.pick([1, 1, 1, 2])):
        at = g.ri(1, 4)
        q = g.r.random()
        if kind == 'clk' and q < .3:
            s, f = g.period(True)
            acts.append([g.pick([0, at, at]), ['setnext', s, f] if g.p(.85) else ['setnext', 0, 0]])
        elif kind == 'div' and q < .3:
            acts.append([g.pick([0, at, at]), ['setdiv', g.pick([1, 2, 3, 5, 0, 1000000, 7, 258, 65537])]])
        elif q < .45:
            s, f = g.period(True)
            t = g.pick(g.clks) if g.clks else None
            if t:
                acts.append([g.pick([0, at, at]), ['clk.per', t, s, f]])
        elif q < .6 and others:
            acts.append([at, ['clk.det', g.pick(others)]])
        elif q < .72 and others:
            acts.append([at, ['clk.att', g.pick(others), g.pick(g.ctxs[:1]), g.pick(['last', 'first', k if kind == 'clk' else 'last'])]])
        elif q < .8 and others:
            acts.append([at, ['clk.rst', g.pick(others)]])
        elif q < .82 and kind == 'clk':
            acts.append([at, [g.pick(['clk.det', 'clk.rst']), k]])
        elif q < .84 and g.clks:   # to another context or the end
            x = k if kind == 'clk' and g.p(.7) else g.pick(g.clks)
            acts += [[at, ['clk.det', x]], [at, ['clk.att', x, g.pick(g.ctxs), 'last']]]
        elif q < .9 and g.divs:
            d = [x for x in g.divs if x != k]
            if d:
                x = g.pick(d)
                acts.append([at, g.pick([['div.det', x], ['div.rst', x], ['div.attc', x, g.ctxs[0], g.pick(['eff', 'beat'])],
                                         ['div.attk', x, g.pick(g.clks)] if g.clks else ['div.rst', x]])])
        elif q < .94 and kind == 'div':
            return [[at, ['div.det', k]]]
        elif g.units:
            acts.append([g.pick([0, at]), ['set', g.pick(g.units), 'PERIOD', g.per(900000)]])
    return acts


def fam_clock(seed, ops=18, audible=True, div=True, two=True):
    g = G(seed)
    c = g.ctx(nch=g.pick([1, 1, 2]), ker='tap')
    if g.p(.85):
        u = g.unit(c, vol=g.pick([0, 8000]) if audible else 0, per=g.per(900000))
    if two and g.p(.25):
        c2 = g.ctx(nch=1, ker='tap', rate=48000)
        if g.p(.6):
            g.unit(c2, vol=0)
        g('ctx.use', c)
    nk, nd = g.pick([1, 2, 2, 3, 4]), g.pick([0, 0, 1, 2, 3, 5]) if div else 0
    g.clks = ['k%d' % (i + 1) for i in range(nk)]
    g.divs = ['d%d' % (i + 1) for i in range(nd)]
    base = g.period(True)
    for k in g.clks:
        s, f = base if g.p(.4) else g.period()
        if g.p(.15):
            s, f = s * 2, 0
        if g.p(.06):
            s, f = 0, g.pick([524288, U20 - 1, 300000])
        cb = 1 if g.p(.85) else 0
        g('clk.new', k, s, f, cb, g.ri(0, 1), clock_acts(g, k, 'clk') if cb else [])
    for d in g.divs:
        cb = 1 if g.p(.9) else 0
        g('div.new', d, g.pick([1, 1, 2, 2, 3, 4, 5, 0, 100000, 256, 257, 65537]), cb, g.ri(0, 1), clock_acts(g, d, 'div') if cb else [])
    for k in g.clks:
        if g.p(.8):
            g('clk.att', k, g.pick(g.ctxs) if g.p(.2) else c, g.pick(['last', 'last', 'first', g.pick(g.clks)]))
    for d in g.divs:
        if g.p(.85):
            g.pick([lambda: g('div.attk', d, g.pick(g.clks)), lambda: g('div.attc', d, c, g.pick(['eff', 'beat', 'eff', 'beat', 'other']))])()
    if g.p(.3):
        g('ctx.per', c, *(base if g.p(.5) else g.period(True)))
    short = g.p(.8)
    for _ in range(ops):
        q = g.r.random()
        if q < .55:
            g.advance(g.pick(g.ctxs) if g.p(.2) else c, 50 if short else 250)
        elif q < .60:
            g('gen', c, g.pick([300, 700, 1024, 1025, 1500]) if not short else g.ri(50, 120))
        elif q < .64:
            g('clk.att', g.pick(g.clks), g.pick(g.ctxs), g.pick(['last', 'first', g.pick(g.clks)]))
        elif q < .69:
            g('clk.det', g.pick(g.clks))
        elif q < .73:
            g('clk.rst', g.pick(g.clks))
        elif q < .78:
            g('clk.per', g.pick(g.clks), *g.period(short))
        elif q < .80:
            s, f = g.period(True)
            g('ctx.per', c, s, f) if g.p(.8) else g('ctx.per', c, *g.pick([(0, 0), (-1, 0), (-3, 500)]))
        elif q < .82:
            g('ctx.per?', c)
        elif g.divs and q < .94:
            d = g.pick(g.divs)
            g.pick([lambda: g('div.attk', d, g.pick(g.clks)), lambda: g('div.attc', d, g.pick(g.ctxs), g.pick(['eff', 'beat'])),
                    lambda: g('div.det', d), lambda: g('div.rst', d)])()
        elif q < .96:
            g('ctx.time', c)
        elif q < .98 and g.units:
            g.pick([lambda: g('unit.det', g.pick(g.units)), lambda: g('unit.att', g.pick(g.units), c)])()
        elif q < .985:
            g('ctx.rst', c)
            g.pend[c] = 0
    g.drain(c)
    g('ctx.time', c)
    return g.end()


def fam_move(seed):
    """clocks which callbacks move between contexts"""
    g = G(seed)
    cs = [g.ctx(nch=1, ker='tap'), g.ctx(nch=1, ker='tap', rate=48000)]
    for c in cs:
        g('ctx.per', c, *g.pick([(1000, 0), (3, 0), g.period(True)]))
        if g.p(.9):
            g.unit(c, wf=g.pick(['SQUARE', 'SINE']), vol=g.pick([0, 8000, 20000]), per=g.per(900000))
    if g.p(.5):
        t = g.track(g.pick(cs), wf='SAWTOOTH', mvol=9000)
        g('set', t, 'NOTE', g.ri(40, 80) * U20)
        if g.p(.5):
            g('eff', t, 'EFFECT_TREMOLO', 3, g.ri(1, 5), 20000, 0)
    for c in cs:
        if g.p(.7):
            g('gen', c, g.ri(1, 40))
    g.clks = ['k%d' % (i + 1) for i in range(g.pick([1, 2, 2, 3]))]
    g.divs = ['d%d' % (i + 1) for i in range(g.pick([0, 0, 1, 2]))]

    def moves(own, kind):
        acts = []
        for at in sorted(g.r.sample(range(1, 6), g.pick([0, 1, 1, 2]))):
            x = own if kind == 'clk' and g.p(.65) else g.pick(g.clks)
            acts.append([at, ['clk.det', x]])
            if kind == 'clk' and g.p(.2):
                acts.append([at, ['clk.per', x, *g.period(True)]])
            acts.append([at, ['clk.att', x, g.pick(cs), g.pick(['last', 'last', 'first'])]])
            if g.p(.35) and g.units + g.trks:
                y = g.pick(g.units + g.trks)
                v = 'unit' if y[0] == 'u' else 'trk'
                acts += [[at, [v + '.det', y]], [at, [v + '.att', y, g.pick(cs)]]]
            if kind == 'clk' and g.p(.15):
                acts.append([at, ['setnext', *g.period(True)]])
        return acts
    for k in g.clks:
        g('clk.new', k, *g.period(True), 1, g.ri(0, 1), moves(k, 'clk'))
    for d in g.divs:
        g('div.new', d, g.pick([1, 2, 3]), 1, g.ri(0, 1), moves(d, 'div') if g.p(.5) else [])
    for k in g.clks:
        if g.p(.9):
            g('clk.att', k, g.pick(cs), 'last')
    for d in g.divs:
        g('div.attk', d, g.pick(g.clks)) if g.p(.8) else g('div.attc', d, g.pick(cs), 'eff')
    for _ in range(g.ri(4, 10)):
        c = g.pick(cs)
        g('ctx.use', c)
        g('gen', c, g.ri(1, 25))
        if g.p(.3):
            k = g.pick(g.clks)
            g.pick([lambda: g('clk.att', k, g.pick(cs), 'last'), lambda: g('clk.det', k), lambda: g('clk.rst', k)])()
    return g.end()


def fam_long(seed, ops=14):
    """clocks whose ticks are hundreds or thousands of frames apart, at fractional times"""
    g = G(seed)
    c = g.ctx(nch=1, ker='tap')
    if g.p(.5):
        loud = g.p(.5)
        g.unit(c, wf=g.pick(['SQUARE', 'TRIANGLE', 'SAWTOOTH', 'SINE', 'NOISE']), vol=g.ri(1000, 20000) if loud else 0, per=g.ri(60, 400) * U20 if loud else None)
    lo, hi = g.pick([(200, 700), (600, 1100), (900, 1400), (1500, 2600), (2500, 4500)])
    fr = lambda: g.pick([0, 1, 524288, U20 - 1, g.ri(0, U20 - 1), g.ri(0, U20 - 1)])
    nk = g.pick([1, 1, 2])
    g.clks = ['k%d' % (i + 1) for i in range(nk)]
    for k in g.clks:
        acts = []
        if g.p(.25):
            acts = [[g.ri(1, 3), ['setnext', g.ri(lo, hi), fr()]]]
        elif g.p(.2):
            acts = [[g.ri(1, 3), ['clk.per', g.pick(g.clks), g.ri(lo, hi), fr()]]]
        g('clk.new', k, g.ri(lo, hi), fr(), 1, 0, acts)
    if g.p(.5):
        g.divs = ['d1']
        g('div.new', 'd1', g.ri(1, 3), 1, 0, [])
        g('div.attk', 'd1', g.pick(g.clks))
    for k in g.clks:
        g('clk.att', k, c, 'last')
    if g.p(.3):
        g('ctx.per', c, g.ri(lo, hi), fr())
    for _ in range(ops):
        q = g.r.random()
        if q < .86:
            g('gen', c, g.pick([g.ri(1, 100), g.ri(100, 1200), g.ri(lo, hi), hi]))
        elif q < .9:
            g('clk.per', g.pick(g.clks), g.ri(lo, hi), fr())
        elif q < .93:
            g('clk.rst', g.pick(g.clks))
        elif q < .96:
            g('clk.det', g.pick(g.clks))
        else:
            g('clk.att', g.pick(g.clks), c, g.pick(['last', 'first']))
        if g.p(.2):
            g('ctx.time', c)
    return g.end()


# =============================================================== buffers, waveforms

def fam_late(seed, ops=12):
    """clocks and dividers after tens or hundreds of thousands of frames"""
    g = G(seed)
    c = g.ctx(nch=1, ker='tap')
    u = g.unit(None, vol=g.ri(0, 20000), per=U20)
    fr = lambda: g.pick([0, 1, 524288, U20 - 1, g.ri(0, U20 - 1)])
    nk = g.pick([1, 2, 2])
    g.clks = ['k%d' % (i + 1) for i in range(nk)]
    slow = g.p(.7)
    for k in g.clks:
        g('clk.new', k, g.ri(300, 1500) if slow else g.ri(30, 120), fr(), 1, 0, [])
        g('clk.att', k, c, 'last')
    for _ in range(g.pick([0, 1, 2])):
        d = g.name('d')
        g.divs.append(d)
        g('div.new', d, g.pick([1, 2, 3, 7, 50, 300]), 1, 0, [])
        g('div.attk', d, g.pick(g.clks)) if g.p(.6) else g('div.attc', d, c, g.pick(['eff', 'beat']))
    t = 0
    for _ in range(g.pick([1, 2])):
        t += g.pick([32760, 65530, 65536, 40000, 20000])
        g('gtt', c, t + g.ri(-5, 5), fr(), 0)
        g('ctx.time', c)
    g('unit.att', u, c)
    for _ in range(ops):
        q = g.r.random()
        if q < .7:
            g('gen', c, g.pick([g.ri(1, 60), g.ri(1, 500)]))
        elif q < .75:
            g('clk.per', g.pick(g.clks), g.ri(2, 200), fr())
        elif q < .8:
            g('clk.rst', g.pick(g.clks))
        elif q < .85:
            g('clk.det', g.pick(g.clks))
        elif q < .93:
            g('clk.att', g.pick(g.clks), c, g.pick(['last', 'first']))
        else:
            g('ctx.rst', c)
        if g.p(.3):
            g('ctx.time', c)
    return g.end()


def volumes(g, n):
    """volumes of n units that together stay inside what a mix can hold"""
    k = g.r.random()
    if n == 1 or k < .15:
        return [g.pick([MAXV, g.ri(0, MAXV), 20000, 1, 0])] + [g.pick([0, g.ri(0, 22000 // max(1, n - 1))]) for _ in range(n - 1)]
    return [g.ri(0, int(1.7 * MAXV) // n) for _ in range(n)]


def fam_buffer(seed, ops=16):
    """frame accounting and the exact mix: several units, every kernel, arbitrary requests"""
    g = G(seed)
    c = g.ctx(ker=g.pick(KERNELS))
    n = g.pick([0, 1, 1, 1, 2, 2, 3])
    vols = volumes(g, n)
    for v in vols:
        wf = g.pick(WAVES)
        u = g.unit(None, wf, vol=v, per=g.per(300000))
        if g.p(.4):
            for ch in g.r.sample(range(8), 3):
                g('set', u, 'VOLUME_%d' % ch, g.ri(0, v))
        if g.p(.3):
            g('set', u, 'PHASE', g.ri(0, 31) if wf != 'NOISE' else g.ri(0, 7))
        if g.p(.3):
            g('set', u, 'DUTY_CYCLE', g.ri(1, 15))
    us = list(g.units)
    g.r.shuffle(us)
    for u in us:
        g('unit.att', u, c)
    if g.p(.3):
        k = 'k1'
        g.clks.append(k)
        s, f = g.period()
        g('clk.new', k, s, f, 0, 0, [])
        g('clk.att', k, c, 'last')
    big = g.p(.15)
    for _ in range(ops):
        q = g.r.random()
        if q < .75:
            g.advance(c, 70 if not big else 300)
        elif q < .80 and big:
            g('gen', c, g.pick([1023, 1024, 1025, 2048, 1500]))
        elif g.units and q < .88:
            u = g.pick(g.units)
            i = g.units.index(u)
            g.pick([lambda: g('set', u, 'PERIOD', g.per(300000)), lambda: g('set', u, 'MUTE', g.ri(0, 1)),
                    lambda: g('set', u, 'VOLUME', g.ri(0, vols[i])),
                    lambda: g('set', u, 'VOLUME_%d' % g.ri(0, 3), g.ri(0, vols[i]))])()
        elif g.units and q < .93:
            u = g.pick(g.units)
            g.pick([lambda: g('unit.det', u), lambda: g('unit.att', u, c)])()
        elif q < .95:
            g('ctx.ker', c, g.pick(KERNELS + ['null'])) if g.p(.7) else g('ctx.rst', c)
            g('ctx.ker?', c)
        elif q < .97:
            a = g.ri(0, 30)
            g('gtt', c, g.pick([a, a * 20, g.ri(0, 400)]), g.pick([0, 524288, 77]), 0)
    g.drain(c)
    return g.end()


def fam_wave(seed, ops=18):
    """a unit or two stepping through waveforms, attributes changing at any time"""
    g = G(seed)
    c = g.ctx(nch=g.pick([1, 1, 1, 2, 3]), ker=g.pick(['tap', 'tap', 'slope', 'harm']))
    nu = g.pick([1, 1, 2])
    top = 26000 if nu == 2 else MAXV
    datas = []
    if g.p(.4):
        for _ in range(g.pick([1, 1, 2])):
            datas.append(g.data(nch=1, n=g.pick([2, 3, 5, 8, 16, 32, 63, 64, 65, 90])))
    for _ in range(nu):
        u = g.unit(c, vol=g.pick([top, g.ri(0, top), g.ri(0, top)]), per=g.per())
        if datas and g.p(.7):
            g('ref', u, 'WAVEFORM', g.pick(datas))
        if g.p(.3):
            g('set', u, 'PHASE_WRAP', g.pick([0, 1, 2, 3, 5, 16, 30, g.ri(2, 200), 258, 65538]))
    if g.p(.25):
        g.clks.append('k1')
        s, f = g.period(True)
        acts = []
        for _ in range(g.pick([1, 2])):
            u = g.pick(g.units)
            acts.append([g.ri(1, 4), g.pick([['set', u, 'PERIOD', g.per(900000)], ['set', u, 'DUTY_CYCLE', g.ri(1, 15)], ['set', u, 'MUTE', g.ri(0, 1)],
                                             ['set', u, 'VOLUME', g.ri(0, top)], ['set', u, 'WAVEFORM', g.pick(WAVES)]])])
        g('clk.new', 'k1', s, f, 1, 0, acts)
        g('clk.att', 'k1', c, 'last')
    for _ in range(ops):
        q = g.r.random()
        u = g.pick(g.units)
        if q < .42:
            g('gen', c, g.pick([1, 2, g.ri(1, 40), g.ri(1, 40), g.ri(10, 120)]))
        elif q < .48:
            g.advance(c, 40)
        elif q < .54:
            g('obs', u)
        elif q < .60:
            g('set', u, 'PERIOD', g.per())
        elif q < .66:
            g('set', u, 'DUTY_CYCLE', g.edge(1, 15))
        elif q < .72:
            g('set', u, g.pick(['VOLUME', 'VOLUME_0', 'VOLUME_1', 'VOLUME_2']), g.ri(0, top))
        elif q < .77:
            g('set', u, 'MUTE', g.pick([0, 1, 0, 1, 7, -1]))
        elif q < .83:
            g('set', u, 'WAVEFORM', g.pick(WAVES))
        elif q < .88:
            g('set', u, 'PHASE', g.pick([0, g.ri(0, 40), g.ri(0, 15), -3, 7, 31, 63]))
        elif q < .93:
            g('set', u, 'PHASE_WRAP', g.pick([0, 1, 2, 3, 5, 16, g.ri(2, 60), -1]))
        elif q < .96 and datas:
            g('ref', u, 'WAVEFORM', g.pick(datas + ['-']))
        elif q < .97:
            g.pick([lambda: g('unit.det', u), lambda: g('unit.att', u, c)])()
        elif q < .98:
            g('set', u, 'WAVEFORM', g.pick(['CUSTOM', 'SAMPLE', '0', '12345']))
        else:
            g('get', u, g.pick(['PHASE', 'NUM_PHASES', 'WAVEFORM', 'PERIOD']))
    g('gen', c, 20)
    return g.end()


def fam_noise(seed):
    """noise over long stretches: every step is one sample"""
    g = G(seed)
    c = g.ctx(nch=g.pick([1, 2, 8]), ker='tap', rate=44100)
    u = g.unit(c, 'NOISE', vol=g.pick([MAXV, g.ri(1, MAXV), 2]), per=g.pick([U20, U20, U20 // 2, U20 * 2, U20 * 3 // 2]))
    if g.p(.004):   # the whole sequence
        g('set', u, 'PERIOD', U20 // 4)
        g('set', u, 'PHASE_WRAP', g.pick([0, 0, 65535, 65536]))
        for _ in range(43):
            g('gen', c, 400)
            g('obs', u) if g.p(.1) else None
        return g.end()
    if g.p(.5):
        g('set', u, 'PHASE', g.ri(0, 9))
    for _ in range(g.ri(3, 8)):
        q = g.r.random()
        if q < .3:
            g('set', u, 'PHASE_WRAP', g.pick([0, 2, 3, 7, 15, 31, 93, 255, g.ri(2, 400), 1, -2, 257, 65538]))
        elif q < .4:
            g('set', u, 'WAVEFORM', g.pick(['NOISE', 'SQUARE', 'NOISE']))
        elif q < .5:
            g('set', u, 'PHASE', g.ri(0, 100))
        elif q < .55:
            g('set', u, 'MUTE', g.ri(0, 1))
        elif q < .6:
            g('set', u, 'VOLUME_%d' % g.ri(0, 7), g.ri(0, MAXV))
        g('gen', c, g.ri(1, 400))
        if g.p(.5):
            g('obs', u)
    return g.end()


# =============================================================== tracks

def note(g):
    k = g.r.random()
    if k < .5:
        return g.ri(0, 96) * U20
    if k < .8:
        return g.ri(0, 96 * U20)
    if k < .9:
        return g.pick([0, 96 * U20, 95 * U20 + 1, 96 * U20 + 5, 120 * U20, 48 * U20 + 524288])
    return g.pick([60, 48, 72]) * U20


def effect(g, t, which=None):
    e = which or g.pick(EFFECTS)
    if e in ('EFFECT_TREMOLO', 'EFFECT_VIBRATO'):
        dep = g.pick([0, MAXV, g.ri(0, MAXV), g.ri(0, MAXV)]) if e == 'EFFECT_TREMOLO' else g.pick([0, U20, g.ri(0, 12 * U20), g.ri(0, U20), U20 // 2, g.ri(0, 12 * U20), g.ri(0, U20), g.ri(12, 90) * U20 + g.ri(0, 5), -g.ri(0, 30 * U20)])
        v = [g.pick([0, 1, 2, 3, 5, 8, 16, g.ri(1, 40)]), dep, g.pick([0, 0, 0, 1, 3, 7, g.ri(0, 20)])]
        if g.p(.03):
            v[0] = g.pick([-1, 70000, 65536])
        if g.p(.03) and e == 'EFFECT_TREMOLO':
            v[1] = g.pick([-5, 40000])
        if g.p(.05):
            v = v[:g.ri(0, 3)]
    else:
        v = [g.pick([0, 0, 1, 2, 3, 5, 7, 16, g.ri(1, 60), g.ri(1, 60)])]
        if g.p(.04):
            v = [g.pick([-1, 65536, 65537, 1000, 30000])]
        if g.p(.1):
            v += [0]
        if g.p(.03):
            v = []
    g('eff', t, e, len(v), *v)


def arpeggio(g, t):
    k = g.r.random()
    if k < .12:
        g('arp', t, -1)
    elif k < .17:
        g('arp', t, 0)
    elif k < .2:
        g('arp', t, g.pick([-2, -3, -100]), *[g.pick([0, 12 * U20, 7 * U20])] * g.ri(0, 3))
    else:
        n = g.pick([1, 2, 3, 3, 4, 7, 8, 9, 12])
        g('arp', t, n, *[g.pick([0, 3 * U20, 7 * U20, 12 * U20, -12 * U20, g.ri(-24 * U20, 24 * U20)]) for _ in range(n)])


def track_step(g, t, top, focus):
    """one change of a track's settings"""
    w = {'note': 3, 'eff': 2, 'arp': 2, 'vol': 2, 'pan': 1, 'pitch': 1, 'ins': 2, 'seq': 1, 'divs': 1, 'wave': 1, 'clr': .3, 'att': .3, 'insd': .2, 'get': .8,
         'tri': .4, 'mute': .5}
    for f in focus:
        w[f] = w.get(f, 1) * 4
    q = g.r.choices(list(w), list(w.values()))[0]
    if q == 'note':
        g('set', t, 'NOTE', g.pick([note(g), note(g), note(g), note(g), -1, -1, -2, -3]))
    elif q == 'eff':
        effect(g, t, g.pick(focus['eff']) if focus.get('eff') else None)
    elif q == 'arp':
        arpeggio(g, t)
    elif q == 'vol':
        g('set', t, g.pick(['VOLUME', 'VOLUME', 'MASTER_VOLUME']), g.pick([0, MAXV, g.ri(0, MAXV), g.ri(0, MAXV)]) if top == MAXV else g.ri(0, top))
    elif q == 'pan':
        g('set', t, 'PANNING', g.edge(-MAXV, MAXV))
    elif q == 'pitch':
        g('set', t, 'PITCH', g.pick([0, U20, -U20, g.ri(-4 * U20, 4 * U20), 60 * U20, -60 * U20]))
    elif q == 'ins':
        if g.inss:
            g('ref', t, 'INSTRUMENT', g.pick(g.inss + g.inss + ['-']))
    elif q == 'seq':
        if g.inss:
            i = g.pick(g.inss)
            if g.p(.2):
                g(g.pick(['ins.seq', 'ins.env']), i, g.ri(0, 3), 0, 0, 0)
            else:
                g.sequence(i, g.pick(focus['seq']) if focus.get('seq') else None)
    elif q == 'divs':
        g('set', t, g.pick(['ARPEGGIO_DIVIDER', 'EFFECT_DIVIDER', 'INSTRUMENT_DIVIDER']), g.pick([1, 1, 2, 3, 4, 7, 1, 2, 3, 257, 65537]))
    elif q == 'wave':
        g('set', t, 'WAVEFORM', g.pick(WAVES + ['SQUARE', 'TRIANGLE'])) if g.p(.5) else g('set', t, 'DUTY_CYCLE', g.edge(1, 15))
    elif q == 'clr':
        g(g.pick(['trk.clr', 'trk.rst']), t)
    elif q == 'att':
        g.pick([lambda: g('trk.det', t), lambda: g('trk.att', t, g.pick(g.ctxs))])()
    elif q == 'insd':
        if g.inss:
            g('ins.det', g.pick(g.inss))
    elif q == 'tri':
        g('set', t, 'TRIANGLE_IGNORES_VOLUME', g.pick([0, 1, 3]))
    elif q == 'mute':
        g('set', t, 'MUTE', g.ri(0, 1))
    else:
        e = g.pick(EFFECTS)
        g.pick([lambda: g('obs', t), lambda: g('eff?', t, e, 3), lambda: g('eff?', t, e, g.ri(1, 3)), lambda: g('arp?', t), lambda: g('ref?', t, 'INSTRUMENT')])()


def fam_track(seed, focus=None, steps=26, ntracks=None, insts=True, audio=None):
    """tracks observed tick by tick"""
    focus = focus or {}
    g = G(seed)
    audio = g.p(.3) if audio is None else audio
    c = g.ctx(nch=g.pick([1, 2, 2, 2, 3]), ker=g.pick(['tap', 'harm']), rate=g.pick([44100, 48000, 22050, 96000]))
    if g.p(.12):
        g.ctx(nch=g.pick([1, 2]), rate=g.pick([22050, 96000]), ker='tap')
    tick = g.pick([(1, 0), (2, 0), (3, 524288), (4, 0)])
    g('ctx.per', c, *tick)
    nt = ntracks or g.pick([1, 1, 1, 2, 3])
    top = MAXV if nt == 1 else int(1.7 * MAXV) // nt
    if insts and g.p(.75):
        for _ in range(g.pick([1, 1, 2])):
            g.ins(slots=g.r.sample(focus['seq'], g.ri(1, len(focus['seq']))) if focus.get('seq') else None)
    for _ in range(nt):
        # what another track slides or plays must not disturb the volume budget
        t = g.track(c, g.pick(WAVES + ['SQUARE', 'TRIANGLE']), mvol=g.pick([top, top, g.ri(0, top)]))
        for a in ['ARPEGGIO_DIVIDER', 'EFFECT_DIVIDER', 'INSTRUMENT_DIVIDER']:
            if g.p(.6):
                g('set', t, a, g.pick([1, 1, 1, 2, 3]))
        if g.inss and g.p(.8):
            g('ref', t, 'INSTRUMENT', g.pick(g.inss))
        if g.p(.8):
            g('set', t, 'NOTE', note(g))
        if g.p(.5):
            effect(g, t, g.pick(focus['eff']) if focus.get('eff') else None)
        if g.p(.25) or 'arp' in focus:
            arpeggio(g, t)
    for _ in range(steps):
        t = g.pick(g.trks)
        if g.p(.45):
            track_step(g, t, top if nt > 1 else MAXV, focus)
        if g.p(.75):
            for _ in range(g.pick([1, 1, 2, 4])):
                g('gen', c, g.pick([1, tick[0], tick[0] + 1, tick[0] * 3]) if not audio else g.ri(1, 40))
                if g.p(.8):
                    g('tob', t)
    for t in g.trks:
        g('obs', t)
    return g.end()


def fam_slide(seed):
    """one long slide, watched step by step"""
    g = G(seed)
    c = g.ctx(nch=2, ker='tap', alloc=0)
    g('ctx.per', c, 1, 0)
    t = g.track(c, 'SQUARE', mvol=MAXV)
    n = g.pick([1, 2, 3, 4, 5, 7, 10, 16, 31, 33, 64, g.ri(1, 120), g.ri(1, 120)])
    kind = g.pick(['VOLUME', 'PANNING', 'NOTE'])
    eff = {'VOLUME': 'EFFECT_VOLUME_SLIDE', 'PANNING': 'EFFECT_PANNING_SLIDE', 'NOTE': 'EFFECT_PORTAMENTO'}[kind]
    val = {'VOLUME': lambda: g.pick([0, MAXV, g.ri(0, MAXV), g.ri(0, 50)]), 'PANNING': lambda: g.pick([0, MAXV, -MAXV, g.ri(-MAXV, MAXV)]), 'NOTE': lambda: note(g)}[kind]
    g('set', t, 'EFFECT_DIVIDER', g.pick([1, 1, 1, 2]))
    if kind != 'NOTE':
        g('set', t, 'NOTE', 48 * U20)
    if g.p(.35):
        g('ref', t, 'INSTRUMENT', g.ins([g.pick([0, 0, 0, 1, 3])]))
    g('set', t, kind, val())
    if g.p(.9):
        g('eff', t, eff, 1, n)
    for _ in range(g.pick([1, 1, 2, 4])):
        if g.p(.15):
            g('set', t, 'NOTE', g.pick([-1, -1, -2]))
            if g.p(.6):
                g('gen', c, g.ri(1, 4))
            if kind != 'NOTE':
                g('set', t, 'NOTE', 50 * U20)
        g('set', t, kind, val())
        if g.p(.2):
            g('eff', t, eff, 1, g.pick([0, n, n + 1, 1, g.ri(0, 50)]))
        left = g.pick([n + 2, n + 3, g.ri(1, n + 1)])
        out = g.ri(0, left) if g.inss and g.p(.6) else -1   # released under way
        for m in range(min(left, 130)):
            if m == out:
                g('set', t, 'NOTE', g.pick([-1, -1, -1, -2]))
            g('gen', c, 1)
            g('tob', t)
        if g.p(.4):   # ended, or another number of steps, in the middle
            g('eff', t, eff, 1, g.pick([0, 0, 0, n + 1, g.ri(1, 50)]))
            for _ in range(g.ri(1, 6)):
                g('gen', c, 1)
                g('tob', t)
        if g.p(.3):
            g('eff?', t, eff, 3)
    return g.end()


def fam_interval(seed):
    """tremolo or vibrato over several periods, parameters changing"""
    g = G(seed)
    c = g.ctx(nch=g.pick([1, 2]), ker='tap', alloc=0)
    g('ctx.per', c, 1, 0)
    t = g.track(c, 'SQUARE', mvol=MAXV)
    g('set', t, 'EFFECT_DIVIDER', g.pick([1, 1, 1, 2]))
    if g.p(.3):
        g('ref', t, 'INSTRUMENT', g.ins([g.pick([0, 0, 1, 2, 3])]))
    g('set', t, 'NOTE', g.pick([48 * U20, note(g)]))
    e = g.pick(['EFFECT_TREMOLO', 'EFFECT_VIBRATO'])
    def dep():
        return g.pick([MAXV, g.ri(1, MAXV), 0, g.ri(1, 500)]) if e == 'EFFECT_TREMOLO' else g.pick([U20, g.ri(1, 12 * U20), 1000, -U20, 0])
    for _ in range(g.pick([1, 2, 3, 5])):
        n = g.pick([1, 2, 3, 4, 5, 7, 8, 12, g.ri(1, 30)])
        g('eff', t, e, 3, n, dep(), g.pick([0, 0, 0, 1, 4, 9, g.ri(1, 30)]))
        left = g.pick([4 * n + 3, g.ri(1, 4 * n + 1), g.ri(1, 10)])
        out = g.ri(0, left) if g.p(.5 if g.inss else .1) else -1   # released under way
        for m in range(left):
            if m == out:
                g('set', t, 'NOTE', g.pick([-1, -1, -1, -2]))
            g('gen', c, 1)
            g('tob', t)
        if g.p(.2):
            g('eff', t, e, 3, 0, 0, 0)
            g('gen', c, 2)
            g('tob', t)
        if g.p(.4):
            g('eff?', t, e, 3)
        if g.p(.15 if out < 0 else .7):
            g('set', t, 'NOTE', note(g))
    return g.end()


def fam_instr(seed, slots=(0, 1, 2, 3), env=None):
    """an instrument played through strikes, holds and releases; shared and edited sometimes"""
    g = G(seed)
    c = g.ctx(nch=2, ker='tap', alloc=0)
    g('ctx.per', c, 1, 0)
    nt = g.pick([1, 1, 1, 2, 3])
    for _ in range(g.pick([1, 1, 2])):
        g.ins(slots=g.r.sample(slots, g.ri(1, len(slots))), env=env)
    for _ in range(nt):
        t = g.track(c, g.pick(['SQUARE', 'SQUARE', 'SINE', 'TRIANGLE']), mvol=MAXV // nt)
        g('set', t, 'INSTRUMENT_DIVIDER', g.pick([1, 1, 2, 3]))
        if g.p(.4):
            g('set', t, 'PANNING', g.ri(-MAXV, MAXV))
        if g.p(.4):
            g('set', t, 'VOLUME', g.ri(0, MAXV))
        if g.p(.3):
            g('set', t, 'DUTY_CYCLE', g.ri(1, 15))
        g('ref', t, 'INSTRUMENT', g.pick(g.inss))
    for _ in range(g.ri(4, 12)):
        t = g.pick(g.trks)
        q = g.r.random()
        if q < .45:
            g('set', t, 'NOTE', note(g))
        elif q < .65:
            g('set', t, 'NOTE', -1)
        elif q < .70:
            g('set', t, 'NOTE', -2)
        elif q < .80:
            g.sequence(g.pick(g.inss), g.pick(slots), env)
        elif q < .83:
            g('ins.seq', g.pick(g.inss), g.pick(slots), 0, 0, 0)
        elif q < .89:
            g('ref', t, 'INSTRUMENT', g.pick(g.inss + ['-']))
        elif q < .91:
            g('ins.det', g.pick(g.inss))
        elif q < .93:
            i = g.name('i')
            g('ins.copy', i, g.pick(g.inss))
            g.inss.append(i)
        elif q < .95:
            g('ins.has', g.pick(g.inss), g.ri(0, 4))
        elif q < .97:
            g('ref?', t, 'INSTRUMENT')
        else:
            i = g.pick(g.inss)
            if len(g.inss) > 1 and g.p(.5):
                g('disp', i)
                g.inss.remove(i)
        for _ in range(g.pick([1, 2, 4, 8, 20])):
            g('gen', c, 1)
            for t in g.trks:
                if g.p(.8):
                    g('tob', t)
    return g.end()


# =============================================================== samples and data

def srange(g, n):
    k = g.r.random()
    if k < .5:
        a, b = g.ri(0, n), g.ri(0, n)
    elif k < .7:
        a, b = g.ri(0, n), g.pick([-1, n, n + 5])
    elif k < .85:
        a, b = g.ri(-n - 2, n + 2), g.ri(-n - 2, n + 2)
    else:
        a, b = g.pick([(0, -1), (-1, 0), (n, 0), (0, n), (1, 2), (2, 1), (n - 1, n)])
    return a, b


def sample_step(g, u, top):
    n = g.pick([2, 4, 8, 12, 33])
    q = g.r.random()
    if q < .14:
        a, b = prange(g)
        g('rng', u, 'SAMPLE_RANGE', a, b) if g.p(.9) else g('rng0', u, 'SAMPLE_RANGE')
    elif q < .26:
        g('rng', u, 'SAMPLE_SUSTAIN_RANGE', *srange(g, n)) if g.p(.85) else g('rng0', u, 'SAMPLE_SUSTAIN_RANGE')
    elif q < .36:
        g('set', u, 'SAMPLE_REPEAT', g.pick([0, 1, 2, 1, 2, 3, -1]))
    elif q < .48:
        g('set', u, 'SAMPLE_PERIOD', g.pick([U20, U20 // 2, 2 * U20, 3 * U20, 5 * U20 // 2, 20 * U20, 256 * U20, 4096, 1, -U20, g.ri(4096, 8 * U20), g.ri(4096, 8 * U20), 400 * U20]))
    elif q < .56:
        g('set', u, 'FLAG_RELEASE', g.pick([1, 1, 0]))
    elif q < .61:
        g('set', u, 'SAMPLE_IMMED_RELEASE', g.ri(0, 1))
    elif q < .69:
        g('set', u, 'PHASE', g.pick([-1, -1, 0, 1, g.ri(0, 12), 1000]))
    elif q < .76:
        g('set', u, 'MUTE', g.pick([0, 0, 1]))
    elif q < .82:
        g('set', u, g.pick(['VOLUME', 'VOLUME_0', 'VOLUME_1']), g.ri(0, top))
    elif q < .86:
        g('set', u, 'PERIOD', g.pick([0, U20, U20 // 2, U20]))
    elif q < .9:
        g.pick([lambda: g('rng?', u, 'SAMPLE_RANGE'), lambda: g('rng?', u, 'SAMPLE_SUSTAIN_RANGE'), lambda: g('ref?', u, 'SAMPLE'), lambda: g('scb?', u)])()
    elif q < .94:
        acts = []
        for _ in range(g.pick([0, 1, 2])):
            a = g.pick([['setres', g.ri(0, 2)], ['set', u, 'VOLUME', g.ri(0, top)], ['set', u, 'SAMPLE_PERIOD', g.ri(U20 // 2, 3 * U20)], ['setres', g.ri(0, 2)],
                        ['rng', u, 'SAMPLE_RANGE', *prange(g)], ['rng', u, 'SAMPLE_SUSTAIN_RANGE', *srange(g, n)], ['set', u, 'FLAG_RELEASE', g.pick([1, 1, 0])],
                        ['set', u, 'SAMPLE_IMMED_RELEASE', g.ri(0, 1)], ['set', u, 'MUTE', g.ri(0, 1)], ['set', u, 'PHASE', g.pick([-1, 0, 1, 5])]])
            acts.append([g.pick([0, 1, 2, 3]) if a[0] != 'rng' and 'PHASE' not in a else g.ri(1, 4), a])
        g('scb', u, g.pick([0, 1, 2, 1, 2, -1]), acts)
    elif q < .97 and g.dats:
        g('ref', u, g.pick(['SAMPLE', 'SAMPLE', 'SAMPLE', 'WAVEFORM']), g.pick(g.dats + g.dats + ['-']))
    else:
        g('set', u, 'WAVEFORM', g.pick(WAVES))


def sustained(g, u, c):
    """plays in a sustain range, in either direction, and is released from it"""
    n = g.dmin
    back = n >= 4 and g.p(.6)
    g('rng', u, 'SAMPLE_RANGE', *((n, 0) if back else (0, n)))
    g('set', u, 'PHASE', -1)
    a = g.ri(2, n - 1) if back else g.ri(0, n - 1)
    g('rng', u, 'SAMPLE_SUSTAIN_RANGE', a, g.ri(a + 1, n))
    g('set', u, 'SAMPLE_REPEAT', g.ri(0, 2))
    g('set', u, 'SAMPLE_IMMED_RELEASE', g.pick([1, 1, 0]))
    g('set', u, 'MUTE', 0)
    g('gen', c, g.ri(1, 3 * n))
    g('set', u, 'FLAG_RELEASE', 1)
    g('get', u, 'PHASE')
    g('gen', c, g.ri(1, 2 * n))


def prange(g):
    """a range that keeps at least one frame in every data of the scenario"""
    n = g.dmin
    k = g.r.random()
    if k < .5:
        a, b = g.r.sample(range(n + 1), 2)
    elif k < .75:
        a, b = g.r.sample(range(-n - 1, 0), 2)
    elif k < .88:
        a, b = g.ri(0, n - 1), g.pick([-1, 1000, 2 * n + 40])
    else:
        a, b = g.pick([(0, -1), (-1, 0), (-5000, n), (n, 0), (1000, 0), (1, 0)])
    return a, b


def empty_range(g, u, c):
    """nothing left to play"""
    k = g.ri(0, 3)
    g('rng', u, 'SAMPLE_RANGE', k, k)
    g('gen', c, 12)
    g('obs', u)


def fam_sample(seed, steps=22):
    """samples: ranges, sustain ranges, rates, repeat modes, callbacks"""
    g = G(seed)
    nch = g.pick([1, 1, 2, 3])
    c = g.ctx(nch=nch, ker=g.pick(['tap', 'tap', 'slope', 'harm']))
    nu = g.pick([1, 1, 1, 2])
    top = 26000 if nu == 2 else MAXV
    for _ in range(g.pick([1, 2])):
        g.data(nch=g.pick([1, nch]), n=g.pick([2, 3, 4, 8, 12, 33]) if g.p(.97) else g.ri(257, 300))
    for _ in range(nu):
        u = g.unit(None if g.p(.05) else c, vol=g.ri(0, top), per=U20)
        g('ref', u, 'SAMPLE', g.pick(g.dats))
        g('set', u, 'SAMPLE_REPEAT', g.ri(0, 2))
        if g.p(.4):
            sample_step(g, u, top)
    if g.p(.2):
        s, f = g.period(True)
        u = g.pick(g.units)
        g.clks.append('k1')
        g('clk.new', 'k1', s, f, 1, 0, [[g.ri(1, 5), g.pick([['set', u, 'FLAG_RELEASE', 1], ['set', u, 'PHASE', -1], ['set', u, 'SAMPLE_PERIOD', g.ri(U20 // 2, 4 * U20)], ['set', u, 'MUTE', g.ri(0, 1)]])]])
        g('clk.att', 'k1', c, 'last')
    for _ in range(steps):
        u = g.pick(g.units)
        if g.p(.04):
            sustained(g, u, c)
        if g.p(.5):
            sample_step(g, u, top)
        if g.p(.7):
            g('gen', c, g.pick([1, 2, 3, g.ri(1, 30), g.ri(1, 30), g.ri(1, 60)]))
        elif g.p(.3):
            g.advance(c, 30)
        if g.p(.35):
            g('obs', u)
    if g.p(.3):
        empty_range(g, u, c)
    g.drain(c)
    return g.end()


def fam_bigsample(seed, steps=18):
    """samples of tens of thousands of frames: positions and ranges around 2^15, 2^16 and the ends"""
    g = G(seed)
    nch = g.pick([1, 1, 2])
    c = g.ctx(nch=nch, ker=g.pick(['tap', 'tap', 'harm']))
    u = g.unit(c, vol=g.ri(3000, 26000), per=U20)
    size = {}

    def frames(x):
        m = g.pick([1, nch])
        n = g.pick([1000, 5000, 32766, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 70000]) if m == 2 or g.p(.8) else g.pick([131071, 131073, 140000])
        size[x] = n
        g('dat.pat', x, g.ri(0, 1), m, n, g.ri(1, 13000), g.ri(0, 60000))

    def edge(n):
        return min(n, max(0, g.pick([0, n, n // 2, 32767, 32768, 65535, 65536, 1 << 17, n, 0, g.ri(0, n)]) + g.ri(-6, 6)))

    for _ in range(g.pick([1, 1, 2])):
        x = g.name('x')
        g('dat.new', x, g.ri(0, 1))
        g.dats.append(x)
        frames(x)
    x = g.pick(g.dats)
    g('ref', u, 'SAMPLE', x)
    g('set', u, 'SAMPLE_REPEAT', g.ri(0, 2))
    lo, hi = 0, size[x]
    for _ in range(steps):
        n = size[x]
        q = g.r.random()
        if q < .2:
            a, b = edge(n), edge(n)
            if a != b:
                g('rng', u, 'SAMPLE_RANGE', a if g.p(.8) or a == n else a - n - 1, b if g.p(.8) or b == n else b - n - 1)
                lo, hi = a, b
        elif q < .34:
            a, b = edge(n), edge(n)
            g('rng', u, 'SAMPLE_SUSTAIN_RANGE', a, b)
        elif q < .44:
            g('set', u, 'SAMPLE_PERIOD', g.pick([U20, U20, U20 // 2, 7 * U20, 100 * U20, 400 * U20, 2000 * U20, g.ri(U20, 2000 * U20)]))
        elif q < .66:
            d = abs(hi - lo)
            g('set', u, 'PHASE', g.pick([-1, 0, d - 1, d - g.ri(1, 40), edge(d), edge(d), edge(d), d + 5]))
        elif q < .74:
            g('set', u, 'SAMPLE_REPEAT', g.ri(0, 2))
        elif q < .8:
            g('set', u, 'FLAG_RELEASE', g.ri(0, 1))
        elif q < .84:
            g('set', u, 'SAMPLE_IMMED_RELEASE', g.ri(0, 1))
        elif q < .87:
            g.pick([lambda: g('rng?', u, 'SAMPLE_RANGE'), lambda: g('rng?', u, 'SAMPLE_SUSTAIN_RANGE'), lambda: g('obs', u), lambda: g('rng0', u, 'SAMPLE_SUSTAIN_RANGE')])()
        elif q < .9:
            x = g.pick(g.dats)
            frames(x) if g.p(.5) else None
            g('ref', u, 'SAMPLE', x)
            g('set', u, 'SAMPLE_REPEAT', g.ri(0, 2))
            lo, hi = 0, size[x]
        elif q < .93:
            g('scb', u, g.ri(0, 2), [[g.pick([0, 1, 2]), ['setres', g.ri(0, 2)]]])
        if g.p(.75):
            g('gen', c, g.pick([1, 2, 5, g.ri(1, 40), g.ri(1, 60)]))
        if g.p(.4):
            g('get', u, 'PHASE')
    g.drain(c)
    return g.end()


def fam_crowd(seed, steps=30):
    """dozens of units, tracks, clocks and dividers at one context, sharing data and instruments"""
    g = G(seed)
    c = g.ctx(nch=g.pick([1, 2]), ker='tap')
    if g.p(.4):
        g.ctx(nch=1, ker='tap')
        g('ctx.use', c)
    cs = list(g.ctxs)
    g('ctx.per', c, g.ri(1, 6), 0)
    for _ in range(g.pick([0, 1, 2])):
        g.data(nch=1, n=g.pick([3, 5, 9]), amp=12000, copy=g.ri(0, 1))
    for _ in range(g.pick([0, 1, 1, 2])):
        g.ins()
    nu, nt = g.pick([(0, 9), (0, 20), (0, 40), (18, 0), (40, 0), (9, 9), (17, 17), (5, 33), (66, 0), (0, 66), (33, 5)])
    top = 40000 // max(1, nu + nt)

    def unit():
        u = g.unit(g.pick(cs) if g.p(.93) else None, wf=g.pick(WAVES[:5]), vol=g.ri(1, top), per=g.pick([U20, 3 * U20 // 2, 2 * U20]))
        if g.dats and g.p(.8):
            g('ref', u, g.pick(['SAMPLE', 'WAVEFORM', 'SAMPLE']), g.pick(g.dats))
            g('set', u, 'SAMPLE_REPEAT', g.ri(0, 2))

    def track():
        t = g.track(g.pick(cs) if g.p(.93) else None, mvol=top)
        g('set', t, 'INSTRUMENT_DIVIDER', 1)
        if g.inss and g.p(.85):
            g('ref', t, 'INSTRUMENT', g.pick(g.inss))
        if g.dats and g.p(.3):
            g('ref', t, g.pick(['SAMPLE', 'WAVEFORM']), g.pick(g.dats))
        g('set', t, 'NOTE', g.pick([60, 69, 72]) * U20)

    for _ in range(nu):
        unit()
    for _ in range(nt):
        track()
    nk, nd = g.pick([(0, 0), (1, 20), (20, 2), (10, 10), (40, 0), (1, 40), (0, 33)])
    for _ in range(nk):
        k = g.name('k')
        g.clks.append(k)
        g('clk.new', k, g.ri(1, 9), g.pick([0, 0, 524288]), 1, g.ri(0, 1), [])
        g('clk.att', k, g.pick(cs), g.pick(['last', 'first', g.pick(g.clks)]) if g.p(.95) else 'last')
    for _ in range(nd):
        d = g.name('d')
        g.divs.append(d)
        g('div.new', d, g.ri(1, 4), g.pick([1, 1, 1, 0]), g.ri(0, 1), [])
        if g.clks and g.p(.6):
            g('div.attk', d, g.pick(g.clks[:2]))
        else:
            g('div.attc', d, g.pick(cs), g.pick(['eff', 'beat']))
    lists = (g.clks, g.divs, g.units, g.trks, g.inss, g.dats)
    for _ in range(steps):
        al = g.clks + g.divs + g.units + g.trks + g.inss + g.dats
        if not al:
            break
        q = g.r.random()
        if q < .16:
            o = g.pick(al)
            for l in lists:
                if o in l:
                    l.remove(o)
            g('disp', o)
        elif q < .30 and g.inss:
            g.sequence(g.pick(g.inss))
        elif q < .40 and g.dats:
            x = g.pick(g.dats)
            g.pick([lambda: g.frames(x, 1, g.pick([2, 4, 6]), amp=12000), lambda: g('dat.nrm', x), lambda: g.frames(x, 1, 4, amp=9000)])()
        elif q < .44:
            g(g.pick(['ins.det', 'ins.det']), g.pick(g.inss)) if g.inss and g.p(.5) else g('dat.det', g.pick(g.dats)) if g.dats else None
        elif q < .60:
            o = g.pick(g.clks + g.divs + g.units + g.trks)if g.clks + g.divs + g.units + g.trks else None
            if o:
                g({'u': 'unit.det', 't': 'trk.det', 'k': 'clk.det', 'd': 'div.det'}[o[0]], o)
                if g.p(.4) and o[0] in 'ut':
                    g({'u': 'unit.att', 't': 'trk.att'}[o[0]], o, g.pick(cs))
                elif g.p(.5) and o[0] == 'k':
                    g('clk.att', o, g.pick(cs), g.pick(['last', 'first', g.pick(g.clks)]))
        elif q < .72 and g.trks:
            t = g.pick(g.trks)
            k = g.ri(0, 4)
            if k == 0 and g.inss:
                g('ref', t, 'INSTRUMENT', g.pick(g.inss))
            elif k == 1:
                g('set', t, 'NOTE', g.pick([-1, -2, 64 * U20]))
            elif k == 2:
                g('trk.rst', t)
            elif k == 3:
                g('set', t, 'MUTE', g.ri(0, 1))
            else:
                g('obs', t)
        elif q < .78 and g.units:
            u = g.pick(g.units)
            g('ref', u, g.pick(['SAMPLE', 'WAVEFORM']), g.pick(g.dats)) if g.dats and g.p(.6) else g('obs', u)
        elif q < .82 and g.clks:
            g('clk.rst', g.pick(g.clks))
        elif q < .85 and len(g.units) + len(g.trks) < 70:
            unit() if g.p(.5) else track()
        elif q < .87:
            g('ctx.rst', g.pick(cs))
        if g.p(.6):
            g('gen', g.pick(cs), g.ri(1, 8))
    for x in cs:
        g('gen', x, 12)
    return g.end()


def fam_strack(seed, steps=24):
    """tracks playing samples: notes, releases, sample pitch, attributes of the data"""
    g = G(seed)
    c = g.ctx(nch=g.pick([1, 2]), ker='tap')
    g('ctx.per', c, g.ri(1, 6), 0)
    for _ in range(2):
        x = g.data(nch=g.pick([1, 1, g.nch[c]]), n=g.pick([4, 8, 12, 33]))
        if g.p(.5):
            g('set', x, 'SAMPLE_PITCH', g.pick([0, 12 * U20, -12 * U20, g.ri(-30 * U20, 30 * U20), 60 * U20]))
        if g.p(.4):
            g('rng', x, 'SAMPLE_SUSTAIN_RANGE', *srange(g, 8))
    if g.p(.4):
        g.ins()
    nt = g.pick([1, 1, 2])
    top = MAXV if nt == 1 else 26000
    for _ in range(nt):
        t = g.track(c, mvol=top)
        g('ref', t, g.pick(['SAMPLE', 'SAMPLE', 'WAVEFORM']), g.pick(g.dats))
        if g.inss and g.p(.5):
            g('ref', t, 'INSTRUMENT', g.pick(g.inss))
        if g.p(.5):
            g('rng', t, 'SAMPLE_SUSTAIN_RANGE', *g.pick([(1, 3), (0, 2), (1, 4), (2, 4), (3, 1), srange(g, 8)]))
            g('set', t, 'SAMPLE_REPEAT', g.ri(0, 2))
    for _ in range(steps):
        t = g.pick(g.trks)
        q = g.r.random()
        if q < .08:   # released and struck again at once
            g('set', t, 'NOTE', 60 * U20)
            for _ in range(g.pick([0, 1])):
                g('gen', c, g.ri(1, 12))
            g('set', t, 'NOTE', -1)
            for _ in range(g.pick([0, 1])):
                g('gen', c, g.ri(1, 12))
            g('set', t, 'NOTE', g.pick([60 * U20, 60 * U20, g.ri(48, 84) * U20]))
        elif q < .12:   # struck again at the rate of the data and released from a sustain range
            n = g.dmin
            back = n >= 4 and g.p(.5)
            g('rng', t, 'SAMPLE_RANGE', *((n, 0) if back else (0, n)))
            a = g.ri(2, n - 1) if back else g.ri(0, n - 1)
            g('rng', t, 'SAMPLE_SUSTAIN_RANGE', a, g.ri(a + 1, n))
            g('set', t, 'SAMPLE_IMMED_RELEASE', g.pick([1, 1, 0]))
            g('set', t, 'NOTE', -2)
            g('set', t, 'NOTE', 60 * U20)
            g('gen', c, g.ri(8, 30))
            g('set', t, 'NOTE', -1)
        elif q < .3:
            g('set', t, 'NOTE', g.pick([note(g), 60 * U20, 72 * U20, g.ri(48, 84) * U20, -1, -1, -2]))
        elif q < .36:
            g('set', t, 'SAMPLE_PITCH', g.pick([0, g.ri(-12 * U20, 12 * U20), 60 * U20]))
        elif q < .42:
            effect(g, t)
        elif q < .46:
            arpeggio(g, t)
        elif q < .5:
            g('ref', t, g.pick(['SAMPLE', 'WAVEFORM']), g.pick(g.dats + ['-']))
        elif q < .54:
            g('set', t, 'WAVEFORM', g.pick(WAVES))
        elif q < .58:
            g(g.pick(['trk.clr', 'trk.rst']), t)
        elif q < .75:
            n = 8
            g.pick([lambda: g('rng', t, 'SAMPLE_SUSTAIN_RANGE', *srange(g, n)), lambda: g('set', t, 'SAMPLE_REPEAT', g.ri(0, 2)),
                    lambda: g('rng', t, 'SAMPLE_RANGE', 1, -1), lambda: g('rng', t, 'SAMPLE_RANGE', -1, 0),
                    lambda: g('set', t, 'SAMPLE_IMMED_RELEASE', g.ri(0, 1)), lambda: g('set', t, 'MASTER_VOLUME', g.ri(0, top)),
                    lambda: g('rng', g.pick(g.dats), 'SAMPLE_SUSTAIN_RANGE', *srange(g, n)), lambda: g('set', g.pick(g.dats), 'SAMPLE_PITCH', g.ri(-12, 12) * U20),
                    lambda: g('rng?', g.pick(g.dats), 'SAMPLE_SUSTAIN_RANGE'), lambda: g('rng?', t, 'SAMPLE_SUSTAIN_RANGE'), lambda: g('get', g.pick(g.dats), 'SAMPLE_PITCH')])()
        g('gen', c, g.ri(1, 25))
        if g.p(.5):
            g('tob', t)
        if g.p(.1):
            g('obs', t)
    return g.end()


def convert(g, x):
    """to a number of bits at which no random dithering happens"""
    bits = g.pick([9, 10, 12, 15, 16, 24, g.ri(1, 8)])
    g('dat.cnv', x, bits, 66 if bits <= 8 else g.pick([0, 1, 16, 32, 66]))


def load_wave(g, x, nch):
    """load a file, often a complete one"""
    bits = g.pick([8, 16])
    n = g.pick([0, 1, 2, 3, 5, 9])
    body = [g.ri(0, 255) for _ in range(n * nch * (bits // 8))]
    b = tag('RIFF') + le(4, 36 + len(body)) + tag('WAVEfmt ') + le(4, 16) + le(2, 1) + le(2, nch) + le(4, 44100) + le(4, 44100 * nch * bits // 8) \
        + le(2, nch * bits // 8) + le(2, bits) + tag('data') + le(4, len(body)) + body
    k = g.r.random()
    if k < .1:
        b = b[:g.ri(0, len(b))]
    elif k < .2:
        b = b[:g.ri(max(0, len(b) - 12), len(b))]
    elif k < .25:
        b[g.ri(0, 43)] ^= g.pick([1, 2, 255])
        if not claims(b):
            return
    f = g.name('f')
    mode = g.pick(['r'] * 6 + ['rw', 'w', 'pipe'])
    g('fil.new', f, mode, *(b if mode != 'pipe' else []))
    g('dat.wav', x, f)
    g('disp', f)


def fam_dither(seed):
    """data reduced to few bits, chance decided"""
    g = G(seed)
    nch = g.pick([1, 2])
    c = g.ctx(nch=nch, ker='tap')

    def frame():
        while True:
            f = g.pick([g.ri(-32767, 32767), g.ri(-32767, 32767), g.ri(-3000, 3000), 0])
            if half:
                n, d = delta * (32767 + abs(f)), 65534
            else:
                n, d = delta * abs(f), L * 32767
            r = n % d / d
            if r < .97 and (r > .03 or n < d):   # where rounding does not matter
                return f
    for _ in range(g.pick([1, 2, 3])):
        bits = g.ri(1, 8)
        half = g.p(.3)
        L = 1 if half else g.pick([0, 1, 2, 7, 64, 64])
        delta = 2 ** (16 - bits) - 1
        L = L or 64
        n = g.pick([2, 5, 9, 20])
        x = g.name('x')
        g('dat.new', x, 0)
        g.dats.append(x)
        g('dat.frm', x, g.ri(0, 1), g.pick([1, nch]) if n > 2 else 1, n, *[])
        k = g.ops[-1][3]
        g.ops[-1] += [frame() for _ in range(n * k)]
        if g.p(.7):
            u = g.unit(c, vol=g.ri(1, MAXV // 2), per=U20)
            g('ref', u, g.pick(['SAMPLE', 'WAVEFORM']), x)
            g('set', u, 'SAMPLE_REPEAT', g.ri(0, 2))
            g('gen', c, g.ri(1, 12))
        g('dat.cnv', x, bits, g.pick([0, 0, 1, 16, 32, 63]), L if L != 64 or g.p(.5) else 0, int(half), g.ri(0, 1))
        g('dat?', x)
        g('dat.own', x)
        g('gen', c, g.ri(1, 30))
    return g.end()


def fam_data(seed, steps=24):
    """data shared by several units and tracks while its frames change"""
    g = G(seed)
    nch = g.pick([1, 2, 2])
    c = g.ctx(nch=nch, ker='tap')
    nu = g.pick([1, 2, 2, 3, 4, 5])
    top = int(1.7 * MAXV) // (nu + 1) if nu else MAXV
    for _ in range(1 if nu > 3 else g.pick([1, 2, 2])):
        g.data(nch=g.pick([1, nch]), n=g.pick([2, 4, 8, 12]), copy=g.pick([0, 0, 1]))
    for _ in range(nu):
        if g.p(.7):
            g.unit(None if g.p(.1) else c, vol=g.ri(1, top), per=g.pick([U20, 3 * U20 // 2, 2 * U20]))
        else:
            t = g.track(c, mvol=top)
            g('set', t, 'NOTE', 60 * U20)
    us = g.units + g.trks
    for u in us:
        g('ref', u, g.pick(['SAMPLE', 'SAMPLE', 'WAVEFORM']), g.pick(g.dats))
        g('set', u, 'SAMPLE_REPEAT', g.pick([1, 2, 1, 0]))
        if len(us) > 3 and g.p(.3):   # stays a user the data does not count on any longer
            g('ref', u, 'WAVEFORM', g.dats[0])
    for _ in range(steps):
        q = g.r.random()
        u = g.pick(us)
        x = g.pick(g.dats) if g.dats else None
        if not x:
            x = g.data(nch=1, n=4)
        if q < .14:
            k = g.r.random()
            if k < .75:
                g.frames(x, g.pick([1, nch, nch, 3]), g.pick([2, 3, 5, 9]), copy=g.pick([0, 1]))
            elif k < .9:
                g('dat.raw', x, g.pick([1, nch]), g.pick([4, 5, 6, 65542, 131078, 3]), *[g.ri(0, 255) for _ in range(g.pick([0, 1, 2, 4, 6, 11]))])
            else:
                g('dat.frm', x, 1, g.pick([0, 9, 1]), g.pick([1, 4]), *[7] * 16)
        elif q < .16:
            load_wave(g, x, g.pick([1, nch, nch, 3, 9]))
        elif q < .17:
            y = g.name('x')
            g('dat.new', y, 0)
            g.dats.append(y)
            g('ref', u, g.pick(['SAMPLE', 'WAVEFORM']), y)
            g('ref?', u, 'SAMPLE')
            if g.p(.5):
                g.frames(y, 1, 3)
        elif q < .19:
            g('dat.nrm', x)
        elif q < .2:
            convert(g, x)
        elif q < .24:
            g('dat.det', x)
        elif q < .30:
            y = g.name('x')
            g('dat.copy', y, x)
            g.dats.append(y)
        elif q < .34 and len(g.dats) > 1:
            g('disp', x)
            g.dats.remove(x)
        elif q < .46:
            g('ref', u, g.pick(['SAMPLE', 'SAMPLE', 'WAVEFORM']), g.pick(g.dats + ['-']))
        elif q < .5:
            g('set', u, 'WAVEFORM', g.pick(WAVES))
        elif q < .54:
            g('ref?', u, 'SAMPLE')
        elif q < .57:
            g('dat?', x)
        elif q < .60:
            g('dat.own', x)
        elif q < .64:
            g.pick([lambda: g('unit.det', u) if u in g.units else g('trk.det', u), lambda: g('unit.att', u, c) if u in g.units else g('trk.att', u, c)])()
        elif q < .67:
            g('set', u, 'SAMPLE_PERIOD', g.ri(U20 // 2, 3 * U20)) if u in g.units else g('set', u, 'NOTE', g.pick([60 * U20, 64 * U20, -1]))
        elif q < .69 and u in g.trks:
            g(g.pick(['trk.clr', 'trk.rst']), u)
        elif q < .73 and g.trks:   # a cleared track uses data which changes
            t = g.pick(g.trks)
            g(g.pick(['trk.clr', 'trk.rst']), t)
            g('set', t, 'MASTER_VOLUME', top)
            g('set', t, 'VOLUME', MAXV)
            g('ref', t, g.pick(['SAMPLE', 'WAVEFORM']), x)
            g('set', t, 'NOTE', g.pick([60, 65, 48]) * U20)
            g('gen', c, g.ri(1, 300))
            g.pick([lambda: g.frames(x, g.pick([1, nch]), g.pick([2, 3, 5, 9]), copy=1), lambda: g('dat.nrm', x)])()
            g('tob', t)
            g('gen', c, g.ri(1, 40))
        if g.p(.6):
            g('gen', c, g.ri(1, 14))
        if g.p(.2):
            g('obs', u)
    for x in g.dats:
        g('dat.own', x)
    return g.end()


def fam_raw(seed):
    """raw data of every format"""
    g = G(seed)
    x = 'x1'
    g.dats.append(x)
    g('dat.new', x, g.ri(0, 1))
    for _ in range(g.ri(4, 10)):
        q = g.r.random()
        if q < .7:
            code = g.pick([1, 2, 3, 4, 5, 6, 6, 6])
            end = g.pick([0, 0, 1, 2])
            nch = g.pick([1, 1, 2, 2, 3, 4, 7, 8])
            n = g.pick([1, 2, 3, 4, 5, 8, 9, 16, 17, 31, 48, g.ri(0, 60)])
            if g.p(.06):
                code = g.pick([0, 7, 8, 12])
            if g.p(.06):
                nch = g.pick([0, 9, 100])
            if g.p(.003):
                n = g.pick([4095, 8192, 9000 * nch, 33000, 40001] + ([65536, 70003] if code > 3 else []))
            b = [g.pick([0, 255, 127, 128, 1, 254, g.ri(0, 255), g.ri(0, 255), g.ri(0, 255)]) for _ in range(n)]
            g(g.pick(['dat.raw', 'dat.raw', 'dat.ldr']), x, nch, code + end * 65536, *b)
        elif q < .82:
            amp = g.pick([1, 2, 100, 12345, 32767, 32766, 16384])
            n, nch = g.ri(2, 12), g.pick([1, 2])
            g('dat.frm', x, g.ri(0, 1), nch, n, *[g.pick([0, amp, -amp, g.ri(-amp, amp)]) for _ in range(n * nch)])
        elif q < .86:
            convert(g, x)
            g('dat.own', x)
        elif q < .97:
            g('dat.nrm', x)
            g('dat.own', x)
        else:
            g('dat.frm', x, g.ri(0, 1), g.pick([1, 2, 0, 9]), g.pick([0, 1, 2]), *[3] * 20)
        g('dat?', x)
    return g.end()


# =============================================================== attributes, objects

def zoo(g, tracks=True):
    """one of everything; most attached and in use"""
    c = g.ctx(nch=g.pick([1, 2, 2, 3]), ker='tap')
    if g.p(.8):
        g.data(nch=1, n=g.pick([2, 4, 9]))
        g.data(nch=g.nch[c], n=4)
    for _ in range(g.pick([1, 1, 2])):
        g.unit(c if g.p(.85) else None, vol=g.ri(0, 8000), per=U20)
    for _ in range(g.pick([1, 1, 2])):
        g.track(c if g.p(.85) else None, mvol=g.ri(0, 8000))
    for _ in range(g.pick([1, 1, 2])):
        g.ins()
    g.clks = ['k1']
    g('clk.new', 'k1', *g.period(True), g.ri(0, 1), g.ri(0, 1), [])
    g.divs = ['d1']
    g('div.new', 'd1', g.ri(1, 4), g.ri(0, 1), g.ri(0, 1), [])
    if g.p(.7):
        g('clk.att', 'k1', c, 'last')
    if g.p(.7):
        g('div.attk', 'd1', 'k1') if g.p(.5) else g('div.attc', 'd1', c, g.pick(['eff', 'beat']))
    return c


def attr_value(g, a, safe=False):
    """in range, at the ends, beyond"""
    if a in ('VOLUME', 'MASTER_VOLUME') or a.startswith('VOLUME_'):
        return g.edge(0, MAXV) if not safe else g.ri(0, 8000)
    if a == 'PANNING':
        return g.edge(-MAXV, MAXV)
    if a == 'DUTY_CYCLE':
        return g.edge(1, 15)
    if a == 'NOTE':
        return g.pick([note(g), -1, -2, -3, -100, 2147483647, 96 * U20 + 1])
    if a in ('PITCH', 'SAMPLE_PITCH'):
        return g.edge(-48 * U20, 48 * U20)
    if a == 'PERIOD':
        return g.pick([0, U20, 1 << 27, g.per(), -U20, -g.per()])
    if a == 'SAMPLE_PERIOD':
        return g.pick([0, 1, 4095, 4096, 4097, 268435455, 268435456, 268435457, 2147483647, -U20, -5, g.ri(4096, 1 << 28)])
    if a == 'WAVEFORM':
        return g.pick(WAVES + WAVES + ['0', 'CUSTOM', 'SAMPLE', '7', '-1', 'NOTE'])
    if a in ('ARPEGGIO_DIVIDER', 'EFFECT_DIVIDER', 'INSTRUMENT_DIVIDER'):
        return g.pick([1, 2, 3, 4, 7, 240, 256, 65537])
    if a.startswith('EFFECT'):
        return g.pick([0, 1, 5, 65535, 65536, 65537, -1, 2147483647, g.ri(0, 70000)])
    if a == 'PHASE_WRAP':
        return g.pick([0, 1, 2, 3, 100, 65535, -1, -2147483648, g.ri(2, 100000)])
    if a == 'PHASE':
        return g.pick([0, 1, -1, 7, 8, 15, 16, 31, 32, 63, 100, 2147483647, -2147483648])
    if a == 'SAMPLE_REPEAT':
        return g.pick([0, 1, 2, 3, -1, 1000])
    return g.pick([0, 1, 2, -1, 2147483647, -2147483648, g.ri(0, 100000)])


SPECIFIC = {'u': 1, 't': 1, 'c': 1, 'x': 1}
LOUD = ['MASTER_VOLUME', 'VOLUME', 'PERIOD', 'MUTE'] + ['VOLUME_%d' % i for i in range(8)]


def ab_read(g, o):
    """read something of an object, generically or by its own function"""
    s = 's' if o[0] in SPECIFIC and g.p(.4) else ''
    q = g.r.random()
    if q < .55:
        g(s + 'get', o, g.pick(ALL_ATTRS if g.p(.4) else {'t': UNIT_ATTRS + TRACK_ATTRS, 'u': UNIT_ATTRS}.get(o[0], ['NUM_FRAMES', 'NUM_CHANNELS', 'SAMPLE_PITCH', 'SAMPLE_RATE'])))
    elif q < .68:
        if o[0] in 'tu':
            g(g.pick(['obs', 'obs', 'obs', 'scb?']), o)
    elif q < .78:
        e = g.pick(EFFECTS + ['EFFECT_DIVIDER', 'NOTE'])
        k = g.pick(['eff?', 'eff?', 'seff?', 'xeff?']) if o[0] == 't' else g.pick(['eff?', 'seff?'])
        g(k, o, e, 2 if k == 'seff?' else g.ri(0, 4))
    elif q < .84:
        if o[0] == 't':
            g(s + 'arp?', o)
    elif q < .92:
        g(s + 'ref?', o, g.pick(['SAMPLE', 'INSTRUMENT', 'WAVEFORM', 'NOTE'] if o[0] != 'c' else ['SAMPLE', 'INSTRUMENT']))
    else:
        g(s + 'rng?', o, g.pick(['SAMPLE_RANGE', 'SAMPLE_SUSTAIN_RANGE', 'NOTE']))


def ab_write(g, o, quiet):
    s = 's' if o[0] in SPECIFIC and g.p(.4) else ''
    q = g.r.random()
    if q < .62:
        l = {'t': UNIT_ATTRS + TRACK_ATTRS, 'u': UNIT_ATTRS, 'x': ['SAMPLE_PITCH', 'NUM_FRAMES', 'NUM_CHANNELS'], 'c': ['NUM_CHANNELS', 'SAMPLE_RATE', 'VOLUME']}.get(o[0], ALL_ATTRS)
        a = g.pick(ALL_ATTRS if g.p(.15) else l)
        # nobody listens to what is set at random: full volume is left to tracks and units that are alone
        if not quiet and a in LOUD:
            a = 'DUTY_CYCLE'
        g(s + 'set', o, a, attr_value(g, a))
    elif q < .72:
        if o[0] == 't':
            effect(g, o)
            if g.p(.4):
                op = g.ops[-1]
                if g.p(.5):
                    op[0] = 'xeff'
                else:
                    op[0] = 'seff'
                    if op[3] > 0:
                        v = (op[4:] + [0, 0])[:2]
                        op[3:] = [2] + v
        else:
            g(g.pick(['eff', 'seff']), o, g.pick(EFFECTS), 2, 1, 2)
    elif q < .78:
        if o[0] == 't':
            arpeggio(g, o)
            if g.p(.5):
                g.ops[-1][0] = 'sarp'
        else:
            g(s + 'arp', o, 2, 0, U20)
    elif q < .80 and o[0] in 'tu':
        g('scb', o, g.pick([0, 1, 2, -1]), [])
    elif q < .9:
        a = g.pick(['SAMPLE', 'WAVEFORM', 'INSTRUMENT', 'NOTE', 'SAMPLE'])
        if a == 'INSTRUMENT':
            v = g.pick(g.inss + ['-'])
        elif a == 'NOTE' or not g.dats:
            v = '-'
        else:
            v = g.pick(g.dats + ['-'])
        g(s + 'ref', o, a, v)
    else:
        a = g.pick(['SAMPLE_RANGE', 'SAMPLE_SUSTAIN_RANGE', 'NOTE'])
        if g.p(.15):
            g(s + 'rng0', o, a) if o[0] != 'c' else None
        elif a == 'SAMPLE_RANGE':
            x, y = prange(g)
            g(s + 'rng', o, a, x, y)
        elif o[0] != 'c':
            g(s + 'rng', o, a, *srange(g, g.pick([2, 4, 9])))


def fam_attr(seed, steps=40):
    """every attribute of every object: values inside, at and beyond their range, read back afterwards"""
    g = G(seed)
    c = zoo(g)
    silent = g.p(.5)
    if silent:
        for u in g.units:
            g('unit.det', u)
        for t in g.trks:
            g('trk.det', t)
    objs = g.trks * 5 + g.units * 3 + g.dats + g.ctxs + g.clks + g.divs + g.inss
    for _ in range(steps):
        o = g.pick(objs)
        if g.p(.6):
            ab_write(g, o, silent)
            if o[0] in 'tu' and g.p(.5):
                g('obs', o)
        else:
            ab_read(g, o)
        if g.p(.1) and not silent:
            g('gen', c, g.ri(1, 10))
    for o in g.trks + g.units:
        g('obs', o)
    return g.end()


def fam_time(seed, steps=60):
    """times: made, added, subtracted, compared, from seconds"""
    g = G(seed)
    c = g.ctx(nch=1, ker='tap', rate=g.pick([16000, 22050, 44100, 48000, 96000, g.ri(16000, 96000)]))
    fr = lambda: g.pick([0, 1, U20 - 1, U20 // 2, g.ri(0, U20 - 1), g.ri(0, U20 - 1)])
    sec = lambda: g.pick([0, 1, -1, 2047, 2048, 2049, 4095, 4096, g.ri(0, 10), g.ri(0, 5000), g.ri(0, 1 << 20), g.ri(0, 1 << 29), -g.ri(0, 5000), -g.ri(0, 1 << 29)])
    for _ in range(steps):
        q = g.r.random()
        if q < .15:
            g('tmk', sec(), g.pick([fr(), fr(), U20, g.ri(0, 2047 * U20)]))
        elif q < .35:
            d = 1 << g.ri(0, 10)
            g('tsec', c, g.pick([0, 1, d, d - 1, g.ri(0, 20000), g.ri(0, 2 * d)]), d)
        elif q < .40:
            g('run', c, g.ri(1, 9), fr())
            g('ctx.rst', c)
        else:
            a = (sec(), fr())
            b = g.pick([a, (a[0] + g.ri(-1, 1), fr()), (a[0], fr()), (sec(), fr()), (sec(), a[1]), (sec(), (U20 - a[1]) % U20)])
            g('tcmp', *a, *b)
    return g.end()


def fam_object(seed, steps=30):
    """objects of every class through generic and own functions, invalid calls, names, times"""
    g = G(seed)
    if g.p(.5):
        g('name.all')
    if g.p(.5):
        g('nul')
    c = zoo(g)
    if g.p(.25):   # a context out of bounds
        d = g.ctx(nch=g.pick([0, 9, 100, 8, 7, 1]), rate=g.pick([0, 1, 15999, 16000, 96000, 96001, 200000, 2147483647]), ker='tap')
        g('ctx.get', d, 'NUM_CHANNELS')
        g('ctx.get', d, 'SAMPLE_RATE')
        g('ctx.per?', d)
        if g.p(.6):
            g('ctx.ker', d, g.pick(['null', 'tap', 'slope', 'sinc', 'harm']))
            g('ctx.ker?', d)
        g.unit(d, 'SQUARE', vol=MAXV, per=3 * U20)
        g('set', g.units[-1], 'VOLUME_%d' % g.ri(0, 7), g.ri(0, MAXV))
        g('gen', d, g.ri(3, 12))
    objs = g.trks + g.units + g.dats + g.ctxs + g.clks + g.divs + g.inss
    for _ in range(steps):
        q = g.r.random()
        o = g.pick(objs)
        if q < .25:
            ab_read(g, o)
        elif q < .5:
            ab_write(g, o, False)
        elif q < .62:
            a = g.pick(ALL_ATTRS)
            o = g.pick(g.clks + g.divs + g.inss + ['-'])
            g.pick([lambda: g('set', o, a, g.ri(-5, 100)), lambda: g('get', o, a)])()
        elif q < .7:
            g('obj.init', o, g.pick([0, 0, 1, -1, 8, -8, 64, 1000, -1000]))
        elif q < .78:
            g('name', g.pick([0, 1, -1, 2147483647, -2147483648, g.ri(-2147483648, 2147483647), g.ri(-1000, 1000), -7, -8, g.ri(-28000, 28000)])) if g.p(.5) \
                else g('name', *g.pick([('ALLOCATION_ERROR', -g.pick([1, 2, 3, 4, 100])), ('OTHER_ERROR', g.pick([1, 2, 3, 16, 100, 4000]))]))
        elif q < .82:
            g('name.all')
        elif q < .84:
            g('nul')
        elif q < .88:
            g('tmk', g.ri(0, 100000), g.ri(0, U20 - 1))
        elif q < .92:
            d = g.pick([1, 2, 4, 8, 64, 256, 1024])
            g('tsec', c, g.ri(0, 20000), d)
        else:
            a = (g.ri(0, 3000), g.ri(0, U20 - 1))
            b = a if g.p(.3) else (a[0] + g.ri(-1, 1), g.ri(0, U20 - 1))
            g('tcmp', *a, *b)
        if g.p(.1):
            g('gen', c, g.ri(1, 10))
        if g.p(.06):
            x = g.pick(objs)
            if x[0] != 'c' or g.p(.3):
                for l in (g.ctxs, g.clks, g.divs, g.units, g.trks, g.inss, g.dats):
                    if x in l:
                        l.remove(x)
                objs.remove(x)
                g('disp', x)
                if x == c:
                    break
    return g.end()


# =============================================================== attaching, disposing, resetting

def fam_attach(seed, steps=34):
    """attaching, refused attaching and detaching of everything that has an owner"""
    g = G(seed)
    c = g.ctx(nch=g.pick([1, 2]), ker='tap')
    g.ctx(nch=g.pick([1, 2, 3]), ker='tap', rate=48000)
    g('ctx.use', c)
    cs = list(g.ctxs)
    for x in cs:
        g('ctx.per', x, g.ri(1, 6), 0)
    x = g.data(nch=g.pick([1, 2]), n=4, amp=12000)
    for _ in range(g.ri(1, 3)):
        u = g.unit(None, vol=g.ri(1, 8000), per=g.pick([U20, 3 * U20 // 2]))
        if g.p(.3):
            g('unit.att', u, g.pick(cs))
            g('ref', u, g.pick(['SAMPLE', 'WAVEFORM']), x)
            g('set', u, 'SAMPLE_REPEAT', 1)
            if g.p(.6):
                g('unit.det', u)
    for _ in range(g.ri(0, 2)):
        t = g.track(None, mvol=8000)
        g('set', t, 'EFFECT_DIVIDER', 1)
        g('eff', t, 'EFFECT_VOLUME_SLIDE', 1, 9)
        g('set', t, 'NOTE', 60 * U20)
    for i in range(g.ri(2, 4)):
        k = g.name('k')
        g.clks.append(k)
        g('clk.new', k, g.ri(1, 6), g.pick([0, 0, 524288]), 1, g.ri(0, 1), [])
    for i in range(g.ri(2, 4)):
        d = g.name('d')
        g.divs.append(d)
        g('div.new', d, g.ri(1, 3), 1, g.ri(0, 1), [])
    everything = g.units + g.trks + g.clks + g.divs
    for _ in range(steps):
        o = g.pick(everything)
        q = g.r.random()
        att = q < .62
        det = q < .82
        gone = q < .87
        if att:
            to = g.pick(cs + [g.ctxs[0]]) if g.ctxs else None
            if to is None or (not g.ctxs and o[0] != 'd'):
                to = g.ctx(nch=g.pick([1, 2]), ker='tap')
                cs.append(to)
            if o[0] == 'u':
                g('unit.att', o, to)
            elif o[0] == 't':
                g('trk.att', o, to)
            elif o[0] == 'k':
                g('clk.att', o, to, g.pick(['last', 'last', 'first', g.pick(g.clks), g.pick(g.clks)]))
            elif g.clks and g.p(.5):
                g('div.attk', o, g.pick(g.clks))
            else:
                g('div.attc', o, to, g.pick(['eff', 'beat', 'eff', 'beat', 'other']))
        elif det:
            g({'u': 'unit.det', 't': 'trk.det', 'k': 'clk.det', 'd': 'div.det'}[o[0]], o)
        elif gone:
            if g.p(.35) and len(cs) > 1:
                o = g.pick(cs)
                cs.remove(o)
            if o[0] == 'k' and len(g.clks) == 1:
                continue
            for l in (g.ctxs, g.clks, g.divs, g.units, g.trks, everything):
                if o in l:
                    l.remove(o)
            if not everything:
                everything = [g.unit()]
            g('disp', o)
            if o[0] == 'c':
                g('ctx.use', cs[0])
        if g.p(.5):
            g('gen', g.pick(cs), g.ri(1, 9))
    for x in cs:
        g('gen', x, 12)
    return g.end()


def fam_dispose(seed, steps=26):
    """a web of objects coming apart in any order while the rest is used"""
    g = G(seed)
    nch = g.pick([1, 2])
    c = g.ctx(nch=nch, ker='tap')
    if g.p(.3):
        g.ctx(nch=nch, ker='tap')
    g('ctx.per', c, g.ri(1, 6), 0)
    for _ in range(g.ri(1, 2)):
        g.data(nch=g.pick([1, nch]), n=g.pick([2, 5, 9]), amp=12000, copy=g.pick([0, 1]))
    for _ in range(g.ri(1, 3)):
        u = g.unit(g.pick(g.ctxs), vol=g.ri(1, 7000), per=U20)
        if g.p(.7):
            g('ref', u, g.pick(['SAMPLE', 'WAVEFORM', 'SAMPLE']), g.pick(g.dats))
            g('set', u, 'SAMPLE_REPEAT', g.ri(0, 2))
    for _ in range(g.ri(1, 2)):
        g.ins()
    for _ in range(g.ri(1, 3)):
        t = g.track(g.pick(g.ctxs) if g.p(.9) else None, mvol=7000)
        if g.p(.4):
            g('ref', t, g.pick(['SAMPLE', 'WAVEFORM']), g.pick(g.dats))
        if g.p(.7):
            g('ref', t, 'INSTRUMENT', g.pick(g.inss))
        g('set', t, 'NOTE', 60 * U20)
    pool = g.units + g.trks + g.inss + g.dats
    for i in range(g.ri(0, 3)):
        k = g.name('k')
        acts = []
        if g.p(.3):
            # one object is disposed from inside the callback, nothing else refers to it afterwards
            o = g.pick(pool)
            if len(pool) > 1:
                pool.remove(o)
                g.ops.append(None)
                acts = [[g.ri(1, 3), ['disp', o]]]
        if acts:
            g.ops.pop()
            g.dying = getattr(g, 'dying', []) + [o]
        g.clks.append(k)
        g('clk.new', k, g.ri(1, 5), 0, 1, g.ri(0, 1), acts)
        g('clk.att', k, g.pick(g.ctxs) if not acts else c, 'last')
    for i in range(g.ri(0, 3)):
        d = g.name('d')
        g.divs.append(d)
        g('div.new', d, g.ri(1, 3), g.pick([1, 1, 0]), g.ri(0, 1), [])
        g('div.attk', d, g.pick(g.clks)) if g.clks and g.p(.5) else g('div.attc', d, g.pick(g.ctxs), g.pick(['eff', 'beat']))
    dying = getattr(g, 'dying', [])
    for l in (g.units, g.trks, g.inss, g.dats):
        for o in dying:
            if o in l:
                l.remove(o)
    if dying:
        g('gen', c, 20)
        for k in g.clks:
            pass
    for _ in range(steps):
        al = g.ctxs + g.clks + g.divs + g.units + g.trks + g.inss + g.dats
        if not al:
            break
        q = g.r.random()
        if q < .4:
            o = g.pick(al)
            for l in (g.ctxs, g.clks, g.divs, g.units, g.trks, g.inss, g.dats):
                if o in l:
                    l.remove(o)
            g('disp', o)
        elif q < .48 and g.dats:
            g.frames(g.pick(g.dats), g.pick([1, nch, 3]), g.pick([2, 4, 9]), amp=9000, copy=g.ri(0, 1))
        elif q < .52 and g.dats:
            y = g.name('x')
            g('dat.copy', y, g.pick(g.dats))
            g.dats.append(y)
        elif q < .55 and g.dats:
            g(g.pick(['dat.nrm', 'dat.det', 'dat.own']), g.pick(g.dats))
        elif q < .60 and g.inss:
            g.sequence(g.pick(g.inss))
        elif q < .63 and g.inss:
            y = g.name('i')
            g('ins.copy', y, g.pick(g.inss))
            g.inss.append(y)
        elif q < .66 and g.inss:
            g('ins.det', g.pick(g.inss))
        elif q < .72 and g.trks:
            g('set', g.pick(g.trks), 'NOTE', g.pick([60 * U20, -1, -2]))
        elif q < .76 and g.trks and g.inss:
            g('ref', g.pick(g.trks), 'INSTRUMENT', g.pick(g.inss))
        elif q < .80 and g.units + g.trks and g.dats:
            g('ref', g.pick(g.units + g.trks), g.pick(['SAMPLE', 'WAVEFORM']), g.pick(g.dats))
        elif q < .83 and g.trks:
            g(g.pick(['trk.clr', 'trk.rst', 'trk.det']), g.pick(g.trks))
        elif q < .86 and g.clks:
            g(g.pick(['clk.det', 'clk.rst']), g.pick(g.clks))
        elif q < .89 and g.divs:
            g('div.det', g.pick(g.divs))
        elif q < .91 and g.ctxs:
            g('ctx.rst', g.pick(g.ctxs))
        if g.ctxs and g.p(.5):
            g('gen', g.pick(g.ctxs), g.ri(1, 10))
    return g.end()


def fam_reset(seed):
    """play something, reset, apply settings again, play on"""
    g = G(seed)
    c = g.ctx(nch=g.pick([1, 2]), ker=g.pick(['tap', 'slope', 'harm']))
    g('ctx.per', c, g.ri(1, 8), g.pick([0, 0, 300000]))
    kinds = g.pick(['ut', 't', 'tt', 'u', 'uut'])
    top = int(1.7 * MAXV) // len(kinds) if len(kinds) > 1 else MAXV
    for k in kinds:
        if k == 'u':
            g.unit(c, vol=g.ri(0, top), per=g.per(900000))
        else:
            g.track(c, g.pick(WAVES), mvol=top)
    if g.p(.5):
        g.ins()
    if g.p(.4):
        g.data(nch=1, n=g.pick([2, 5, 8]), amp=20000)
    for i in range(g.pick([0, 1, 2])):
        k = g.name('k')
        g.clks.append(k)
        g('clk.new', k, *g.period(True), 1, 0, [])
        g('clk.att', k, c, 'last')
    for i in range(g.pick([0, 1, 2, 2])):
        d = g.name('d')
        g.divs.append(d)
        g('div.new', d, g.ri(1, 5), 1, 0, [])
        g('div.attk', d, g.pick(g.clks)) if g.clks and g.p(.5) else g('div.attc', d, c, g.pick(['eff', 'beat']))

    def settings():
        for t in g.trks:
            if g.dats and g.p(.3):
                g('ref', t, g.pick(['SAMPLE', 'WAVEFORM']), g.pick(g.dats))
            for a in ['ARPEGGIO_DIVIDER', 'EFFECT_DIVIDER', 'INSTRUMENT_DIVIDER']:
                if g.p(.7):
                    g('set', t, a, g.pick([1, 2, 3]))
            if g.inss and g.p(.6):
                g('ref', t, 'INSTRUMENT', g.pick(g.inss))
            if g.p(.4):
                effect(g, t)
            if g.p(.4):
                arpeggio(g, t)
            if g.p(.4):
                g('set', t, 'VOLUME', g.ri(0, MAXV))
            if g.p(.4):
                g('set', t, 'PANNING', g.ri(-MAXV, MAXV))
            if g.p(.3):
                g('set', t, 'DUTY_CYCLE', g.ri(1, 15))
            if g.p(.3):
                g('set', t, 'PITCH', g.ri(-4 * U20, 4 * U20))
            if g.p(.2):
                g('set', t, 'SAMPLE_PITCH', g.ri(-4 * U20, 4 * U20))
            if g.p(.85):
                g('set', t, 'NOTE', g.pick([note(g), 60 * U20, -1]))
        for u in g.units:
            if g.dats and g.p(.4):
                g('ref', u, g.pick(['SAMPLE', 'WAVEFORM']), g.pick(g.dats))
                g('set', u, 'SAMPLE_REPEAT', g.ri(0, 2))
            if g.p(.3):
                g('set', u, 'PHASE_WRAP', g.ri(2, 20))
            if g.p(.3):
                g('set', u, 'DUTY_CYCLE', g.ri(1, 15))
            if g.p(.2):
                g('set', u, 'PHASE', g.ri(0, 10))

    def listen():
        for _ in range(g.ri(1, 5)):
            g.advance(c, 40)
            if g.trks and g.p(.6):
                g('tob', g.pick(g.trks))
        if g.p(.3):
            g('ctx.time', c)

    for _ in range(g.ri(2, 4)):
        settings()
        listen()
        q = g.r.random()
        if q < .6:
            g('ctx.rst', c)
            g.pend[c] = 0
            if g.p(.7):
                for t in g.trks:
                    g(g.pick(['trk.rst', 'trk.rst', 'trk.clr']), t)
        elif g.trks:
            t = g.pick(g.trks)
            away = g.p(.4)
            if away:
                g('trk.det', t)
                if g.p(.3):
                    g.advance(c, 20)
            g(g.pick(['trk.rst', 'trk.rst', 'trk.clr']), t)
            if away:
                g('trk.att', t, c)
            if g.p(.5):
                g('ctx.rst', c)
                g.pend[c] = 0
        else:
            g('ctx.rst', c)
            g.pend[c] = 0
        if g.p(.3):
            for k in g.clks:
                g('clk.rst', k)
        if g.p(.2) and g.divs:
            g('div.rst', g.pick(g.divs))
        for o in g.trks + g.units:
            if g.p(.7):
                g('obs', o)
            if o[0] == 't' and g.p(.3):
                g.pick([lambda: g('arp?', o), lambda: g('ref?', o, 'INSTRUMENT'), lambda: g('eff?', o, g.pick(EFFECTS), 3), lambda: g('ref?', o, 'SAMPLE')])()
    settings()
    listen()
    g.drain(c)
    return g.end()


# =============================================================== volume, pitch, rendering to a time, copies

def fam_mix(seed):
    """volume and panning of tracks from all their sources"""
    g = G(seed)
    c = g.ctx(nch=g.pick([1, 2, 2, 2, 3, 8]), ker='tap')
    g('ctx.per', c, 1, 0)
    t = g.track(c, g.pick(WAVES + ['TRIANGLE', 'TRIANGLE', 'SQUARE']))
    g('set', t, 'INSTRUMENT_DIVIDER', 1)
    g('set', t, 'EFFECT_DIVIDER', 1)
    if g.p(.7):
        g.ins(slots=g.pick([[0], [1], [0, 1], [0, 1]]))
        g('ref', t, 'INSTRUMENT', 'i1')
    if g.p(.2):
        g.data(nch=1, n=8)
        g('ref', t, g.pick(['SAMPLE', 'WAVEFORM']), 'x1')
    g('set', t, 'NOTE', g.pick([60, 96, 100]) * U20)
    def vol():
        return g.pick([MAXV, 0, 1, MAXV - 1, 16384, g.ri(0, MAXV), g.ri(0, MAXV), g.ri(0, 100)])
    if g.p(.8):
        g('set', t, 'MASTER_VOLUME', g.ri(1000, MAXV))
    for _ in range(g.ri(8, 22)):
        q = g.r.random()
        if q < .18:
            g('set', t, 'MASTER_VOLUME', vol())
        elif q < .38:
            g('set', t, 'VOLUME', vol())
        elif q < .58:
            g('set', t, 'PANNING', g.pick([0, 1, -1, MAXV, -MAXV, g.ri(-MAXV, MAXV), g.ri(-MAXV, MAXV)]))
        elif q < .68:
            g('eff', t, 'EFFECT_TREMOLO', 3, g.ri(0, 6), vol(), g.pick([0, 0, 3]))
        elif q < .76:
            g('eff', t, g.pick(['EFFECT_VOLUME_SLIDE', 'EFFECT_PANNING_SLIDE']), 1, g.ri(0, 9))
        elif q < .82:
            g('set', t, 'TRIANGLE_IGNORES_VOLUME', g.pick([0, 1, 1]))
        elif q < .88:
            g('set', t, 'WAVEFORM', g.pick(['TRIANGLE', 'SQUARE', 'SINE', 'NOISE']))
        elif q < .93 and g.inss:
            g.sequence('i1', g.pick([0, 1]))
        elif q < .96:
            g('trk.det', t)
            g('trk.att', t, c)
        else:
            g('set', t, 'NOTE', g.pick([60 * U20, -1, 97 * U20]))
        g('gen', c, g.pick([1, 1, 2, 5, 9]))
        g('obs', t) if g.p(.4) else g('tob', t)
    return g.end()


def fam_pitch(seed):
    """periods of notes, of tracks and in the tables"""
    g = G(seed)
    c = g.ctx(nch=1, ker='tap', rate=g.pick([16000, 22050, 44100, 48000, 88200, 96000, g.ri(16000, 96000), 8000, 200000]))
    g('ctx.per', c, 1, 0)
    rates = [16000, 44100, 48000, 96000, 22050, g.ri(16000, 96000), 0, 15999, 96001, 192000]
    def anynote():
        return g.pick([g.ri(0, 96) * U20, g.ri(0, 96 * U20), g.ri(0, 95) * U20 + g.pick([1, 15, 16, 17, U20 - 1, U20 - 16]), -1, -5 * U20, 96 * U20 + 1, 100 * U20, 2147483647, -2147483648])
    for _ in range(g.ri(5, 20)):
        if g.p(.6):
            g('tone', anynote(), g.pick(rates))
        else:
            g('log2', anynote())
    other = None
    if g.p(.4):   # another context with another rate to move to
        other = g.ctx(nch=1, ker='tap', rate=g.pick([16000, 22050, 44100, 48000, 96000, g.ri(16000, 96000)]))
        g('ctx.per', other, 1, 0)
    t = g.track(c, g.pick(WAVES), mvol=100)
    for a in ['ARPEGGIO_DIVIDER', 'EFFECT_DIVIDER', 'INSTRUMENT_DIVIDER']:
        g('set', t, a, 1)
    if g.p(.6):
        g.ins(slots=[2])
        g('ref', t, 'INSTRUMENT', 'i1')
    if g.p(.35):
        x = g.data(nch=1, n=g.pick([2, 5, 8, 33, 64, 80]))
        if g.p(.6):
            g('set', x, 'SAMPLE_PITCH', g.pick([0, g.ri(-48 * U20, 48 * U20), 12 * U20]))
        g('ref', t, g.pick(['SAMPLE', 'WAVEFORM', 'SAMPLE']), x)
    for _ in range(g.ri(8, 24)):
        q = g.r.random()
        if q < .4:
            g('set', t, 'NOTE', g.pick([note(g), anynote()]))
        elif q < .55:
            g('set', t, 'PITCH', g.pick([0, U20, -U20, g.ri(-48 * U20, 48 * U20), 60 * U20, -60 * U20]))
        elif q < .62:
            g('set', t, 'SAMPLE_PITCH', g.pick([0, g.ri(-48 * U20, 48 * U20), 12 * U20, -12 * U20]))
        elif q < .70:
            arpeggio(g, t)
        elif q < .78:
            g('eff', t, 'EFFECT_VIBRATO', 3, g.ri(0, 5), g.pick([U20, g.ri(0, 40 * U20)]), g.pick([0, 0, 4]))
        elif q < .84:
            g('eff', t, 'EFFECT_PORTAMENTO', 1, g.ri(0, 8))
        elif q < .90 and g.dats and g.p(.75):   # other frames or pitch while in use
            x = g.pick(g.dats)
            if g.p(.7):
                n = g.pick([2, 3, 5, 8, 16, 33, 64])
                g('dat.frm', x, g.ri(0, 1), 1, n, *[g.ri(-20000, 20000) for _ in range(n)])
            else:
                g('set', x, 'SAMPLE_PITCH', g.ri(-24 * U20, 24 * U20))
            if g.p(.3):
                g('tob', t)
        elif q < .90:
            g('set', t, 'WAVEFORM', g.pick(WAVES))
        elif other and q < .97:
            g('trk.det', t)
            if g.p(.3):
                g('set', t, g.pick(['NOTE', 'PITCH']), g.ri(0, 60 * U20))
            if g.p(.3):
                g('tob', t)
            c, other = other, c
            g('trk.att', t, c)
            g('tob', t)
        elif g.inss:
            g.sequence('i1', 2)
        g('gen', c, g.pick([1, 1, 2, 4]))
        g('tob', t)
    return g.end()


def fam_gtt(seed, steps=14):
    """rendering to points in time, by writers that may fail"""
    g = G(seed)
    c = g.ctx(nch=g.pick([1, 1, 2, 3]), ker=g.pick(['tap', 'tap', 'tap', 'slope', 'harm']))
    n = g.pick([1, 1, 2, 0])
    for v in volumes(g, n) if n else []:
        g.unit(c, g.pick(WAVES), vol=v, per=g.per(900000))
    for i in range(g.pick([0, 0, 1, 2])):
        k = g.name('k')
        g.clks.append(k)
        acts = []
        if g.units and g.p(.4):
            acts = [[g.ri(0, 2), ['set', g.units[0], 'MUTE', g.ri(0, 1)]]]
        g('clk.new', k, *g.period(), 1, 0, acts)
        g('clk.att', k, c, 'last')
    now = 0
    big = g.p(.2)
    for _ in range(steps):
        q = g.r.random()
        if q < .6:
            d = g.pick([0, 1, 5, g.ri(0, 60), g.ri(0, 60), -3, 1023, 1024, 1025, 1100] if big else [0, 1, 2, g.ri(0, 60), g.ri(0, 60), -3, 30])
            s, f = max(0, now + d), g.pick([0, 0, 1, 524288, U20 - 1])
            g('gtt', c, s, f, g.pick([0, 0, 0, 0, 1, 2]))
            now = max(now, s)
        elif q < .8:
            d = g.ri(0, 40)
            g('gen', c, d)
            now += d
        elif q < .85:
            g('ctx.time', c)
        elif q < .9:
            g('size', c)
        elif q < .95 and g.units:
            g('set', g.pick(g.units), 'PERIOD', g.per(600000))
        elif g.units:
            u = g.pick(g.units)
            g.pick([lambda: g('unit.det', u), lambda: g('unit.att', u, c)])()
    g('read', c, 1500)
    g('ctx.time', c)
    return g.end()


def fam_copy(seed, steps=22):
    """copies of data and instruments, changed and used beside their originals"""
    g = G(seed)
    c = g.ctx(nch=g.pick([1, 2]), ker='tap')
    g('ctx.per', c, g.ri(1, 3), 0)
    for _ in range(g.ri(1, 2)):
        x = g.data(nch=g.pick([1, g.nch[c]]), n=g.pick([2, 4, 9]), amp=20000)
        if g.p(.5):
            g('set', x, 'SAMPLE_PITCH', g.ri(-12, 12) * U20)
        if g.p(.5):
            g('rng', x, 'SAMPLE_SUSTAIN_RANGE', *srange(g, 4))
    for _ in range(g.ri(1, 2)):
        g.ins()
    for _ in range(g.ri(1, 2)):
        t = g.track(c, mvol=12000)
        g('set', t, 'INSTRUMENT_DIVIDER', 1)
        if g.p(.5):
            g('ref', t, g.pick(['SAMPLE', 'WAVEFORM']), g.pick(g.dats))
        if g.p(.7):
            g('ref', t, 'INSTRUMENT', g.pick(g.inss))
        g('set', t, 'NOTE', 60 * U20)
    for _ in range(g.ri(0, 1)):
        u = g.unit(c, vol=12000, per=U20)
        g('ref', u, g.pick(['SAMPLE', 'WAVEFORM']), g.pick(g.dats))
        g('set', u, 'SAMPLE_REPEAT', g.ri(0, 2))
    us = g.trks + g.units
    for _ in range(steps):
        q = g.r.random()
        u = g.pick(us)
        if q < .13:
            y = g.name('x')
            if g.dats:
                g('dat.copy', y, g.pick(g.dats))
                g.dats.append(y)
                g('dat?', y)
                g('rng?', y, 'SAMPLE_SUSTAIN_RANGE')
            else:
                g.data(nch=1, n=4, amp=20000)
        elif q < .26:
            y = g.name('i')
            if g.inss:
                g('ins.copy', y, g.pick(g.inss))
                g.inss.append(y)
                for s in range(4):
                    g('ins.has', y, s)
            else:
                g.ins()
        elif q < .36 and g.dats:
            x = g.pick(g.dats)
            g.pick([lambda: g.frames(x, g.pick([1, g.nch[c]]), g.pick([2, 3, 7]), amp=20000), lambda: g('dat.nrm', x), lambda: g('set', x, 'SAMPLE_PITCH', g.ri(-12, 12) * U20),
                    lambda: g('rng', x, 'SAMPLE_SUSTAIN_RANGE', *srange(g, 4)), lambda: g('dat.raw', x, 1, 5, *[g.ri(0, 255) for _ in range(6)]), lambda: g('dat.det', x)])()
        elif q < .46 and g.inss:
            i = g.pick(g.inss)
            g.pick([lambda: g.sequence(i), lambda: g.sequence(i), lambda: g('ins.seq', i, g.ri(0, 3), 0, 0, 0), lambda: g('ins.det', i)])()
        elif q < .54 and g.dats:
            g('ref', u, g.pick(['SAMPLE', 'WAVEFORM']), g.pick(g.dats))
        elif q < .64 and g.inss and g.trks:
            g('ref', g.pick(g.trks), 'INSTRUMENT', g.pick(g.inss))
        elif q < .72 and g.trks:
            g('set', g.pick(g.trks), 'NOTE', g.pick([60 * U20, 62 * U20, -1, -1, -2]))
        elif q < .82:
            l = g.pick([g.dats, g.inss])
            if l:
                x = g.pick(l)
                l.remove(x)
                g('disp', x)
        elif q < .9:
            for x in g.dats:
                g('dat?', x)
        g('gen', c, g.ri(1, 8))
        if g.trks and g.p(.5):
            g('tob', g.pick(g.trks))
    for x in g.dats:
        g('dat?', x)
    return g.end()


# =============================================================== WAVE files

def file_end(g):
    """writers and readers go before their files"""
    for o in g.wris + g.rdrs + g.dats:
        g('disp', o)
    for o in g.fils:
        g('disp', o)
    g('bal')
    return g.ops


def frame_values(g, n, amp=None):
    return [g.pick([32767, -32768, 0, -1, 1, 255, 256, -256, g.ri(-32768, 32767), g.ri(-32768, 32767)]) for _ in range(n)]


def fam_wavfile(seed):
    """files written in portions, from any position, read back in several ways"""
    g = G(seed)
    g.fils, g.wris, g.rdrs = [], [], []
    for _ in range(g.pick([1, 1, 2])):
        f = g.name('f')
        g.fils.append(f)
        mode = g.pick(['rw'] * 12 + ['w', 'w', 'r', 'pipe'])
        junk = [g.ri(0, 255) for _ in range(g.pick([0, 0, 0, 1, 7, 44, 100]))] if mode != 'pipe' else []
        g('fil.new', f, mode, *junk)
        if mode != 'pipe':
            g('fil.pos', f, -1)
        off = len(junk)
        for _ in range(g.pick([1, 1, 1, 2])):
            nch = g.pick([1, 1, 2, 2, 3, 5, 8])
            rate = g.pick([44100, 44100, 44100, 44100, 8000, 16000, 22050, 48000, 96000, 1, g.ri(1, 192000)])
            bits = g.pick([8, 16, 16, 8, 0, 16, 8, 24] if g.p(.3) else [8, 16])
            if g.p(.3):
                x = g.name('x')
                g.dats.append(x)
                g('dat.new', x, g.ri(0, 1))
                n = g.pick([2, 3, 10, 31, 200])
                if g.p(.03):
                    n = g.pick([20000, 33000, 66000]) // nch
                    g('dat.pat', x, g.ri(0, 1), nch, n, g.ri(1, 13000), g.ri(0, 60000))
                else:
                    g('dat.frm', x, 1, nch, n, *frame_values(g, n * nch))
                g('wav.put', f, x, rate, bits)
                total = n * nch
            else:
                w = g.name('w')
                g('wrt.new', w, f, nch, rate, bits)
                if mode in ('r', 'pipe') or bits == 24:
                    g('drop', w, *([1] if bits == 24 and mode in ('rw', 'w') else []))
                    break
                g.wris.append(w)
                total = 0
                for _ in range(g.pick([0, 1, 1, 2, 3, 6])):
                    n = g.pick([0, 1, 2, 3, 7, 40, g.ri(1, 120)]) * nch
                    if g.p(.06):
                        n = g.pick([1023, 1024, 1025, 1500, 2049])
                    g('wrt.add', w, *frame_values(g, n))
                    total += n
                    if g.p(.1):
                        g('wrt.end', w)
                    if g.p(.1):
                        g('fil?', f)
                if g.p(.5):
                    g('wrt.end', w)
                    if g.p(.3):
                        g('wrt.end', w)
                    if g.p(.3) and total < 500:
                        g('wrt.add', w, *frame_values(g, nch))
                        g('wrt.end', w)
                else:
                    g('disp', w)
                    g.wris.remove(w)
            g('fil?', f)
            if mode == 'rw':
                for _ in range(g.pick([1, 1, 2])):
                    g('fil.pos', f, off)
                    read_back(g, f)
                g('fil.pos', f, -1)
            elif mode == 'r':
                break
            break
        if mode in ('w', 'pipe') and g.p(.7):
            for q in [g.name('q') for _ in range(g.pick([0, 1]))]:
                g('rdr.new', q, f)
                g('drop', q)
            x = g.name('x')
            g.dats.append(x)
            g('dat.new', x, 0)
            g('dat.frm', x, g.ri(0, 1), 1, 3, 5, -5, 6)
            g('dat.wav', x, f)
            g('dat?', x)
            g('dat.own', x)
    return file_end(g)


def read_back(g, f):
    if g.p(.5):
        q = g.name('q')
        g.rdrs.append(q)
        g('rdr.new', q, f)
        g('rdr.hdr', q)
        if g.p(.2):
            g('rdr.hdr', q)
        g('rdr.read', q)
    else:
        if g.dats and g.p(.5):
            x = g.pick(g.dats)
        else:
            x = g.name('x')
            g.dats.append(x)
            g('dat.new', x, g.ri(0, 1))
            if g.p(.4):
                g('dat.frm', x, g.ri(0, 1), 1, 3, 5, -5, 6)
        g('dat.wav', x, f)
        g('dat?', x)


def le(n, v):
    return [(v >> (8 * i)) & 255 for i in range(n)]


def tag(s):
    return list(s.encode())


def foreign(g):
    """bytes of a WAVE file as other programs write them, sometimes damaged"""
    nch, rate, bits = g.pick([1, 1, 2, 2, 3, 8, 9, 100]), g.pick([8000, 44100, 48000, 1, 2147483647]), g.pick([8, 16, 16])
    n = g.pick([0, 1, 2, 3, 5, 20, 50])
    body = [g.ri(0, 255) for _ in range(n * nch * (bits // 8))] if nch < 9 else [g.ri(0, 255) for _ in range(g.ri(0, 60))]
    if g.p(.06) and nch < 9:
        body = [g.ri(0, 255) for _ in range(g.pick([1023, 1024, 1025, 1026, 2050]))]
    if g.p(.15):
        body = body[:-1]
    b = tag('RIFF') + le(4, g.pick([0, 36 + len(body), 0xffffffff])) + tag('WAVE')
    junk = lambda: tag(g.pick(['LIST', 'fact', 'bext', 'JUNK', 'dat ', 'DATA', 'fmt '])) + (lambda m: le(4, m) + [g.ri(0, 255) for _ in range(m + (m & 1))])(g.pick([0, 1, 2, 4, 5, 26]))
    if g.p(.04):
        b += junk()
    ext = g.pick([0, 0, 0, 2, 2, 22, 24, 1, 3])
    b += tag('fmt ') + le(4, 16 + ext) + le(2, 1) + le(2, nch) + le(4, rate) + le(4, rate * nch * bits // 8) + le(2, nch * bits // 8) + le(2, bits)
    b += [g.ri(0, 255) for _ in range(ext + (ext & 1))]
    while g.p(.35):
        b += junk()
    k = g.r.random()
    size = len(body) if k < .75 else 0 if k < .8 else len(body) + g.pick([1, 2, 7, 40]) if k < .92 else g.pick([0x7fffffff, 0x80000000, 0xffffffff, 1 << 30, 0xfffffffe])
    b += tag('data') + le(4, size) + body
    if g.p(.25):
        b += (tag('LIST') + le(4, 4) + [1, 2, 3, 4]) if g.p(.7) else [9]
    # damage
    k = g.r.random()
    if k < .15:
        b = b[:g.ri(0, len(b))]
    elif k < .3:
        for _ in range(g.pick([1, 1, 2, 5])):
            b[g.ri(0, min(len(b), 70) - 1)] = g.pick([0, 1, 255, 128, g.ri(0, 255)])
    elif k < .36:
        i = g.ri(0, min(len(b), 60))
        b = b[:i] + [g.ri(0, 255) for _ in range(g.ri(1, 4))] + b[i:] if g.p(.5) else b[:i] + b[i + g.ri(1, 4):]
    return b


def claims(b):
    """frames a damaged file may claim to have; too many to write down but not too many to load are left out"""
    p = len(b)
    best = 0
    for i in range(len(b) - 7):
        if b[i:i + 4] == tag('data'):
            v = sum(b[i + 4 + j] << (8 * j) for j in range(4))
            if 5000 < v < (1 << 29):
                return False
    return True


def fam_foreign(seed):
    """files of others and damaged ones"""
    g = G(seed)
    g.fils, g.wris, g.rdrs = [], [], []
    for _ in range(g.pick([1, 2])):
        b = foreign(g)
        while not claims(b) or len(b) > 3000:
            b = foreign(g)
        f = g.name('f')
        g.fils.append(f)
        g('fil.new', f, g.pick(['rw', 'r', 'r']), *b)
        big = any(b[i:i + 4] == tag('data') and sum(b[i + 4 + j] << (8 * j) for j in range(4)) > 5000 for i in range(len(b) - 7))
        for _ in range(g.pick([1, 2])):
            g('fil.pos', f, 0)
            if not big:
                read_back(g, f)
            elif g.p(.5):
                q = g.name('q')
                g.rdrs.append(q)
                g('rdr.new', q, f)
                g('rdr.hdr', q)
            else:
                x = g.name('x')
                g.dats.append(x)
                g('dat.new', x, 0)
                g('dat.frm', x, 0, 1, 3, 5, -5, 6)
                g('dat.wav', x, f)
                g('dat?', x)
                g('dat.own', x)
    return file_end(g)


# =============================================================== parts used directly

def steps_(g, hi=60):
    k = g.r.random()
    return g.pick([0, 1, 2, 3]) if k < .25 else g.ri(1, hi) if k < .9 else g.pick([0, -1, -1000, 255, 256, 257, 65536, 65537, g.ri(1, 1 << 22), 1 << 22])


def fam_pslide(seed):
    """slides by themselves"""
    g = G(seed)
    mx = g.pick([1, 2, 10, 100, MAXV, 65536, 12 * U20, 96 * U20, g.ri(1, 1 << g.ri(1, 27)), (1 << 30) - 1, 1 << 29, 0])
    lim = mx - 1 if mx & (mx - 1) == 0 and mx > 1 else mx
    if mx == 0:
        lim = 1000000000
    lo = 0 if mx == 1 else -lim
    v = lambda: g.pick([lim, lo, 0, g.ri(lo, lim), g.ri(lo, lim), max(lo, min(lim, g.ri(-20, 20)))])
    for s in ['l1', 'l2'][:g.ri(1, 2)]:
        g('sld.new', s, mx)
        for _ in range(g.ri(2, 12)):
            k = g.r.random()
            n = steps_(g)
            if k < .5:
                g('sld.set', s, v(), n)
            elif k < .7:
                g('sld.val', s, v())
            elif k < .85:
                g('sld.steps', s, n)
            elif k < .92:
                g('sld.halt', s, g.ri(0, 1))
            if g.p(.8):
                g('sld.step', s, g.pick([1, 2, 70, g.ri(1, 60), max(0, min(n, 200)) + 1]))
    for s in ['l1', 'l2']:
        if ['sld.new', s, mx] in g.ops:
            g('disp', s)
    g('bal')
    return g.ops


def fam_pinterval(seed):
    """intervals by themselves"""
    g = G(seed)
    mx = g.pick([1, 2, 10, 100, MAXV, 65536, 12 * U20, 96 * U20, g.ri(1, 1 << g.ri(1, 27)), (1 << 29) - 1])
    lim = mx
    v = lambda: g.pick([lim, -lim, 0, g.ri(-lim, lim), g.ri(-lim, lim), max(-lim, min(lim, g.ri(-20, 20)))])
    g('itv.new', 'v1', mx)
    cur = 0
    for _ in range(g.ri(2, 12)):
        k = g.r.random()
        n = steps_(g, g.pick([6, 25, 60]))
        if k < .5 or not cur:
            g('itv.set', 'v1', v(), n)
            cur = n
        elif k < .7:
            g('itv.delta', 'v1', v())
        elif k < .9:
            g('itv.steps', 'v1', n)
            cur = n
        g('itv.get', 'v1')
        if g.p(.85):
            m = max(1, min(cur, 60))
            g('itv.step', 'v1', g.pick([1, 2, 4 * m + 1, g.ri(1, 4 * m), g.ri(1, 2 * m)]))
    g('disp', 'v1')('bal')
    return g.ops


def fam_pseq(seed):
    """sequences and envelopes by themselves: several states share one, states move between them"""
    g = G(seed)
    big = g.pick([1, 15, 100, MAXV, 12 * U20, 100 * U20])
    seqs, states, at = [], [], {}
    n = 0

    def make():
        nonlocal n
        n += 1
        q = 'q%d' % n
        l = g.pick([1, 1, 2, 3, 4, 5, 8, 0])
        so, sl = g.pick([(l, 0), (0, l), (g.ri(0, l), g.ri(0, l)), (max(0, l - 1), 1), (g.pick([-1, l + 3, 0]), g.pick([-1, 0, 1, l + 3])), (0, 1)])
        val = lambda: g.pick([0, big, -big, g.ri(-big, big), g.ri(-big, big)])
        if g.p(.65):
            st = [g.pick([0, 0, 1, 1, 2, 3, 5, 8, g.ri(0, 40)]) for _ in range(l)]
            a = l if so < 0 else min(so, l)
            b = a + (l - a if sl < 0 else min(sl, l - a))
            ok = a == l or any(st[a:b])
            g('env.new', q, so, sl, l, *[x for s in st for x in (s, val())])
            if not ok:
                g('drop', q)
                return
        else:
            g('seq.new', q, so, sl, l, *[val() for _ in range(l)])
        seqs.append(q)

    def leave(s):
        if at.get(s):
            g('sst.ph', s, 0)
    for _ in range(g.ri(1, 3)):
        make()
    for i in range(g.ri(1, 3)):
        s = 's%d' % (i + 1)
        states.append(s)
        g('sst.new', s)
    for _ in range(g.ri(10, 40)):
        s = g.pick(states)
        k = g.r.random()
        if k < .16 and seqs:
            q = g.pick(seqs + ['-'])
            if at.get(s) != q:
                leave(s)
            g('sst.seq', s, q)
            at[s] = None if q == '-' else q
        elif k < .36:
            g('sst.ph', s, g.pick([1, 1, 1, 2, 2, 0, 3]))
        elif k < .42:
            g('sst.val', s, g.pick([0, g.ri(-15, 15)]) if big < 20 else g.pick([0, g.ri(-15, 15), 10]))
        elif k < .46:
            make()
        elif k < .5 and seqs:
            n += 1
            q = 'q%d' % n
            g('seq.copy', q, g.pick(seqs))
            seqs.append(q)
        elif k < .54 and seqs:
            q = g.pick(seqs)
            for x in states:
                if at.get(x) == q:
                    leave(x)
                    g('sst.seq', x, '-')
                    at[x] = None
            seqs.remove(q)
            g('disp', q)
        else:
            g('sst.step', s, g.pick([0, 1, 1]), g.pick([1, 1, 2, 3, g.ri(1, 40)]))
    for x in states:
        leave(x)
        g('sst.seq', x, '-')
        g('disp', x)
    for q in seqs:
        g('disp', q)
    g('bal')
    return g.ops


def fam_pbuffer(seed):
    """a buffer by itself: steps and frames anywhere, reading with any spacing"""
    g = G(seed)
    g('buf.new', 'b1')
    if g.p(.85):
        g('buf.ker', 'b1', g.pick(KERNELS + ['tap', 'slope']))
    lim = 30000
    pos = 0      # frames added behind the read position, upper bound
    for _ in range(g.ri(6, 18)):
        top = g.pick([30, 30, 100, 400])
        if pos + top > 3900:
            g('buf.read', 'b1', 4200, 1)
            pos = 0
            continue
        end = g.ri(0, top)
        ef = g.pick([0, 0, 1, 524288, U20 - 1, g.ri(0, U20 - 1)])
        level = 0
        for _ in range(g.pick([0, 1, 1, 2, 4])):
            if end == 0 and ef == 0:
                break
            at = g.ri(0, end) if ef else g.ri(0, max(0, end - 1))
            f = g.pick([0, 1, 32767, 32768, U20 - 1, g.ri(0, U20 - 1)])
            if at == end:
                f = min(f, max(0, ef - 1))
            d = g.pick([-level, g.ri(-lim, lim) - level, lim - level, -lim - level])
            level += d
            g('buf.add', 'b1', at, f, d)
        if g.p(.2):
            g('buf.frm', 'b1', g.ri(0, max(0, end - 1)), 0, g.ri(-8000, 8000))
        if level and g.p(.9):
            g('buf.add', 'b1', max(0, end - 1), g.ri(0, U20 - 1), -level)
        g('buf.end', 'b1', end, ef)
        if g.p(.85):
            g('buf.shift', 'b1', *g.pick([(end, ef), (end, ef), (end, ef), (end + g.ri(1, 50), 0), (g.ri(0, end), 0)]))
        pos += end + 2
        k = g.r.random()
        if k < .5:
            g('buf.read', 'b1', g.pick([0, 1, g.ri(1, 40), g.ri(1, 200), 4200]), g.pick([0, 1, 1, 2, 3, 8]))
        elif k < .6:
            g('buf.size', 'b1')
        elif k < .64:
            g('buf.clr', 'b1')
            pos = 0
    g('buf.read', 'b1', 4200, 1)
    g('disp', 'b1')('bal')
    return g.ops


ID = re.compile(r'^((?:m\.|d\.)?[bcdfiklqstuvwxp])(\d+)$')
SIDES = [('fam_track', {}), ('fam_clock', {}), ('fam_wave', {}), ('fam_noise', {}), ('fam_slide', {}), ('fam_interval', {}), ('fam_instr', {}), ('fam_sample', {}),
         ('fam_strack', {}), ('fam_data', {}), ('fam_raw', {}), ('fam_attr', {}), ('fam_object', {}), ('fam_attach', {}), ('fam_dispose', {}), ('fam_reset', {}),
         ('fam_mix', {}), ('fam_pitch', {}), ('fam_gtt', {}), ('fam_copy', {}), ('fam_wavfile', {}), ('fam_foreign', {}), ('fam_pslide', {}), ('fam_pinterval', {}),
         ('fam_pseq', {}), ('fam_pbuffer', {}), ('fam_long', {}), ('fam_buffer', {})]


FILES = [('fam_wavfile', {}), ('fam_wavfile', {}), ('fam_foreign', {})]


def renamed(x):
    if isinstance(x, list):
        return [renamed(e) for e in x]
    m = ID.match(x) if isinstance(x, str) else None
    return m[1] + str(int(m[2]) + 50) if m else x


def fam_two(seed):
    """two histories that share nothing, in turns"""
    r = random.Random(seed)
    a, b = [], []
    while not a or not b or len(a) + len(b) > 150:
        f, g = r.choice(SIDES), r.choice(SIDES)
        if r.random() < .35:
            g = f
        if r.random() < .08:
            f, g = r.choice(FILES), r.choice(FILES)
        a = globals()[f[0]](r.getrandbits(40), **f[1])
        b = globals()[g[0]](r.getrandbits(40), **g[1])
    # one of them may use the context as it comes
    a, b = [[o for o in s if o[0] != 'ctx.ker'] if r.random() < .3 else s for s in (a, b)]
    b = renamed(b)
    ends = a[-1][0] == 'bal' and b[-1][0] == 'bal'
    a, b = [[o for o in s if o[0] != 'bal'] for s in (a, b)]
    out = []
    while a or b:
        s = a if a and (not b or r.random() < len(a) / (len(a) + len(b))) else b
        k = r.choice([1, 1, 2, 3, 6])
        out += s[:k]
        del s[:k]
    return out + ([['bal']] if ends else [])
