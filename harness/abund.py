"""Drivers for abundance matching (spec/AbundMatch.tla)."""
import json
import math
import os
import random
import numpy as np

from core import quiet, cover_walks

INFTY = 1000000000
MODES = {'flat': 'flat', 'nan': 'nan', 'none': 'none', 'm7': -7.0, 'zero': 0, 'bad': 'linear'}


def part(cat=(), a=0, b=0, lo=0, hi=INFTY, ml=0, mh=0, exl='nan', exh='nan'):
    return {'cat': list(cat), 'a': a, 'b': b, 'lo': lo, 'hi': hi, 'ml': ml, 'mh': mh, 'exl': exl, 'exh': exh}


def match(p1, p2, rev=False):
    return {'p1': p1, 'p2': p2, 'rev': rev}


def good(m):
    def g(p):
        return 0 <= p['ml'] and 0 <= p['mh'] and p['ml'] + p['mh'] <= 8 and 'bad' not in (p['exl'], p['exh'])
    return g(m['p1']) and g(m['p2'])


def usable(m):
    return good(m) and all(p['ml'] + p['mh'] < 8 for p in (m['p1'], m['p2']))


class Runner:
    def __init__(self, hist, excused=True):
        self.hist = hist
        self.made = {}
        self.cats = []
        self.results = []
        self.excused = ['matched values at the edge, in arrays'] if excused else []

    def make(self, e):
        from scipy.stats import uniform
        from simim.galprops.galprops_am import am_dfcat, am_dfdf
        r = random.Random(json.dumps(e['m'], sort_keys=True))
        m = e['m']
        k = {}
        for i, p in ((1, m['p1']), (2, m['p2'])):
            if not p['cat'] and (p['lo'] != 0 or r.random() < .3):
                k['prop%d_min' % i] = p['lo'] / 4
            if not p['cat'] and p['hi'] != INFTY:
                k['prop%d_max' % i] = p['hi'] / 4
            for q, w in (('ml', 'low'), ('mh', 'high')):
                if p[q] or r.random() < .3:
                    k['missing_pmass_%s_p%d' % (w, i)] = p[q] / 8
            for q, w in (('exl', 'low'), ('exh', 'high')):
                if p[q] != 'nan' or r.random() < .3:
                    k['extrapolate_%s_p%d' % (w, i)] = MODES[p[q]]
        if m['rev'] or r.random() < .3:
            k['reverseorder'] = m['rev']

        def rv(p):
            return uniform(loc=p['a'] / 4, scale=(p['b'] - p['a']) / 4)
        if m['p1']['cat']:
            c = [x / 4 for x in m['p1']['cat']]
            r.shuffle(c)
            if r.random() < .7:
                c = np.array(c)
                self.cats.append(c)
            return am_dfcat(c, rv(m['p2']), **k)
        return am_dfdf(rv(m['p1']), rv(m['p2']), **k)

    def step(self, e):
        e = dict(e)
        obs = {'err': False, 'same': True, 'out': []}
        if e['op'] == 'make':
            try:
                with quiet():
                    f = self.make(e)
                self.made[e['name']] = (f, e['m'])
            except (ValueError, TypeError, IndexError) as x:
                obs['err'] = True
                e['error'] = repr(x)
        elif e['op'] == 'ask':
            f, m = self.made[e['name']]
            f = f[0] if e['side'] == 1 else f[1]
            x = np.array(e['x'], dtype=float) / 4
            if e['kind'] == 'f4':
                x = x.astype('f4')
            if e['kind'] == 'int':
                x = np.rint(x).astype(int)
            if e['scalar']:
                x = x[0] if e['kind'] == 'f4' else (int(x[0]) if e['kind'] == 'int' else float(x[0]))
            before = np.array(x)
            try:
                with quiet():
                    out = f(x)
                obs['same'] = bool(np.array_equal(before, x))
                arr = np.array(out, dtype=float)
                if e['scalar'] == (arr.ndim == 0):
                    for v in arr.ravel():
                        v = float(v)
                        if math.isnan(v):
                            obs['out'].append({'k': 'nan', 'v': 0})
                        elif math.isinf(v):
                            obs['out'].append({'k': 'inf' if v > 0 else '-inf', 'v': 0})
                        else:
                            obs['out'].append({'k': 'num', 'v': int(max(-2e9, min(2e9, math.floor(v * 4 * 4096 + 1e-6))))})
                self.results.append(out)
            except Exception as x:
                obs['err'] = True
                e['error'] = repr(x)
        else:
            # the caller goes on using what he passed in and got back
            for c in self.cats:
                c[...] = -5.
            for o in self.results:
                if isinstance(o, np.ndarray) and o.ndim and o.flags.writeable:
                    o[...] = -3.
        e['obs'] = obs
        return e

    def run(self):
        return {'ev': [self.step(e) for e in self.hist], 'excused': self.excused}


# ------------------------------------------------------------------ generation
def rand_part(r, cat):
    ml, mh = r.choice([(0, 0), (0, 0), (1, 0), (0, 2), (2, 1), (3, 3), (r.randrange(0, 8), 0), (0, r.randrange(0, 8))])
    ex = [r.choice(['nan', 'flat', 'none', 'm7', 'zero']) for _ in range(2)]
    if cat:
        n = r.choice([1, 2, 4, 8, 16])
        if r.random() < .03:
            n = r.choice([128, 1024, 2048])
        steps = r.choice([[1, 2, 4, 8], [0, 1, 4], [0, 0, 0, 2, 8]])
        x = r.randrange(0, 20)
        c = [x]
        for _ in range(n):
            x += r.choice(steps)
            c.append(x)
        if c[0] == c[-1]:
            c[-1] += 4
        return part(cat=c, ml=ml, mh=mh, exl=ex[0], exh=ex[1])
    a = r.choice([0, 0, 4, 8, -8])
    w = r.choice([16, 32, 64])
    b = a + w
    # limits that leave a binary fraction of the distribution between them
    f = w >> r.choice([0, 0, 1, 2])
    lo = a + r.choice([0, (w - f) // 2, w - f])
    hi = lo + f
    if lo == a and r.random() < .4:
        lo = a - r.choice([2, 8])
    if lo >= 0 and lo <= a and a >= 0 and r.random() < .3:
        lo = 0
    if hi == b and r.random() < .6:
        hi = r.choice([INFTY, b + 4])
    return part(a=a, b=b, lo=lo, hi=hi, ml=ml, mh=mh, exl=ex[0], exh=ex[1])


def rand_match(r):
    m = match(rand_part(r, r.random() < .5), rand_part(r, False), r.random() < .35)
    if r.random() < .12:
        p = r.choice([m['p1'], m['p2']])
        q = r.choice([('ml', -1), ('mh', -1), ('ml', 9), ('mh', 9), ('exl', 'bad'), ('exh', 'bad'), ('sum', 9), ('sum', 8)])
        if q[0] == 'sum':
            p['ml'] = r.randrange(1, 8)
            p['mh'] = q[1] - p['ml']
        else:
            p[q[0]] = q[1]
    return m


def rand_x(r, m, side, n):
    p = m['p1'] if side == 1 else m['p2']
    out = []
    ends = (p['cat'][0], p['cat'][-1]) if p['cat'] else (max(p['lo'], p['a']), min(p['hi'], p['b']))
    for _ in range(n):
        u = r.random()
        if u < .25:
            out.append(r.choice(ends))
        elif u < .35:
            out.append(r.choice([ends[0] - r.choice([1, 5, 40]), ends[1] + r.choice([1, 5, 40])]))
        elif u < .45 and p['cat']:
            out.append(r.choice(p['cat']))
        else:
            out.append(r.randrange(ends[0], ends[1] + 1))
    return out


def rand_ask(r, name, m):
    side = r.choice([1, 2])
    n = r.choice([0, 1, 2, 5, 9, 9, 16]) if r.random() < .97 else 300
    scalar = r.random() < .4
    x = rand_x(r, m, side, 1 if scalar else n)
    kind = r.choice(['f8', 'f8', 'f4', 'int'])
    if kind == 'int' and any(v % 4 for v in x):
        kind = 'f8'
    return {'op': 'ask', 'name': name, 'side': side, 'x': x, 'scalar': scalar, 'kind': kind}


def rand_hist(r, n):
    alive, hist = {}, []
    while len(hist) < n:
        u = r.random()
        if u < .3 or not alive:
            m = rand_match(r)
            name = r.choice('ABC')
            hist.append({'op': 'make', 'name': name, 'm': m})
            if good(m):
                alive[name] = m
        elif u < .37:
            hist.append({'op': 'disturb'})
        else:
            name = r.choice(list(alive))
            if usable(alive[name]):
                hist.append(rand_ask(r, name, alive[name]))
            else:
                del alive[name]
    return hist


def menu():
    c = [0, 8, 16, 24, 32]
    m = []
    for p1 in (part(cat=c), part(cat=[4, 8, 16, 20, 36], ml=2), part(cat=[0, 8, 8, 8, 32]), part(a=0, b=32, lo=0, hi=32), part(a=0, b=32, lo=8, hi=24, mh=2, exh='flat'),
               part(a=0, b=32, mh=1, ml=1, exl='zero')):
        for p2 in (part(a=0, b=32, lo=0, hi=32), part(a=4, b=36, lo=4, hi=20, ml=2, exl='flat', exh='m7'),
                   part(a=0, b=16, mh=4, exh='none')):
            for rev in (False, True):
                m.append(match(p1, p2, rev))
    m += [match(part(cat=c, ml=9), part(a=0, b=32)), match(part(cat=c), part(a=0, b=32, mh=-1)),
          match(part(a=0, b=32, ml=5, mh=4), part(a=0, b=32)), match(part(a=0, b=32), part(a=0, b=32, exl='bad'))]
    return m


def run(ck, prop):
    ck.setup_code()
    m = menu()
    mf = os.path.join(ck.scratch, 'menu.json')
    json.dump(m, open(mf, 'w'))
    cfg = 'INIT Init\nNEXT Next\nVIEW View\nINVARIANT Inv\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
    edges, i0 = ck.model_check('MCAbundMatch', cfg, env={'MENU': mf}, dump=True)
    walks, cov, tot = cover_walks(edges, i0, 60, ck.rng, limit=None if ck.thorough else 60)
    ck.extra['model_transitions_taken_on_code'] = [cov, tot]
    grid = [-4, 0, 4, 6, 8, 16, 20, 24, 32, 36]

    def replay(w):
        hist = []
        for k, op in enumerate(w):
            name = ' AB'[op % 10 if op < 10000 else op // 10 % 10]
            if op < 10000:
                hist.append({'op': 'make', 'name': name, 'm': m[op // 10 - 1]})
            elif op < 20000:
                for xs, sc in ((grid, False), ([grid[k % len(grid)]], True)):
                    hist.append({'op': 'ask', 'name': name, 'side': op % 10, 'x': xs, 'scalar': sc, 'kind': 'f8'})
            else:
                hist.append({'op': 'disturb'})
        return Runner(hist).run()
    ck.validate('TraceAbundMatch', ck.parallel(replay, walks), '', 'walk:', chunk=12)

    def hist(seed):
        r = random.Random(seed)
        return Runner(rand_hist(r, 40)).run()
    n = 2500 if ck.thorough else 250
    ck.validate('TraceAbundMatch', ck.parallel(hist, ['P03-%d-%d' % (ck.seed, k) for k in range(n)]), '', 'history:', chunk=40)

    # the known finding: the outermost objects of an array
    known = []
    for name, mm, side in (('cat', match(part(cat=[0, 8, 16]), part(a=4, b=36)), 1), ('df', match(part(a=0, b=32), part(a=4, b=36)), 1),
                           ('back', match(part(a=4, b=36), part(a=0, b=32)), 2)):
        x = [mm['p1']['cat'][0], mm['p1']['cat'][-1]] if mm['p1']['cat'] else [0, 32]
        t = Runner([{'op': 'make', 'name': 'A', 'm': mm},
                    {'op': 'ask', 'name': 'A', 'side': side, 'x': x, 'scalar': False, 'kind': 'f8'}], excused=False).run()
        t['finding'] = {'key': 'edge-' + name, 'clauses': ['matched values at the edge, in arrays']}
        known.append(t)
    ck.validate('TraceAbundMatch', known, '', 'finding:', chunk=3)
    ck.assumptions += ['uniform distributions between binary limits, so that every fraction is exact in floating point']
