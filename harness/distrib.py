"""Drivers for mass and luminosity functions (spec/Distrib.tla)."""
import json
import math
import os
import random
import numpy as np

from core import quiet, cover_walks
from galprop import Recorder

U = 100000
NONE = -999999999
FNS = ['lum', 'pdf', 'int', 'cdf', 'ppf', 'rvs', 'sf', 'isf']


def dist(f, x0, mn, p1, a1, p2=NONE, a2=0):
    return {'f': f, 'x0': x0, 'min': mn, 'p1': p1, 'a1': a1, 'p2': p2, 'a2': a2, 'q': 100}


def family(f):
    from simim.galprops import galprops_am as g
    return {'schechter': g.schechter_gen, 'double': g.double_schechter_gen, 'modified': g.modified_schechter_gen,
            'power': g.double_power_law_gen}[f]()


def pars(d):
    ten = lambda v: 0. if v == NONE else 10 ** (v / U)
    k = {'x0': ten(d['x0']), 'xmin': ten(d['min'])}
    a1, a2 = d['a1'] / 100, d['a2'] / 100
    if d['f'] == 'schechter':
        k.update(alpha=a1, phi0=ten(d['p1']))
    elif d['f'] == 'double':
        k.update(alpha1=a1, phi1=ten(d['p1']), alpha2=a2, phi2=ten(d['p2']))
    elif d['f'] == 'modified':
        k.update(alpha=a1, sigma=a2, phi0=ten(d['p1']))
    else:
        k.update(alpha=a1, beta=a2, phi0=ten(d['p1']))
    return k


class Runner:
    def __init__(self, hist):
        self.hist = hist
        self.fam = {}
        self.frozen = {}

    def step(self, e):
        e = dict(e)
        obs = {'err': False, 'same': True, 'out': []}
        try:
            if e['op'] == 'freeze':
                d = e['d']
                if d['f'] not in self.fam:
                    self.fam[d['f']] = family(d['f'])
                with quiet():
                    self.frozen[e['name']] = (self.fam[d['f']], self.fam[d['f']](**pars(d)), pars(d), d)
            else:
                self.ask(e, obs)
        except Exception as x:
            if isinstance(x, MemoryError):
                raise
            obs['err'] = True
            e['error'] = repr(x)
        e['obs'] = obs
        return e

    def ask(self, e, obs):
        fam, fz, k, d = self.frozen[e['name']]
        fn = e['fn']
        if fn == 'rvs':
            rng = Recorder(e['seed'])
            n = len(e['x'])
            with quiet():
                out = fz.rvs(size=n, random_state=rng) if e['frozen'] else fam.rvs(size=n, random_state=rng, **k)
            u = np.concatenate([v.ravel() for v in rng.f]) if rng.f else np.zeros(0)
            e['x'] = [int(v * 1000000) for v in u]
            x = before = None
        else:
            if fn in ('ppf', 'isf'):
                x = np.array([v / 1000000 if v >= 0 else 1 - 10 ** (v / U) for v in e['x']])
                if fn == 'isf':
                    x = np.array([1 - v / 1000000 if v >= 0 else 10 ** (v / U) for v in e['x']])
            else:
                x = np.array([10 ** (v / U) for v in e['x']])
            if e['scalar']:
                x = float(x[0])
            before = np.array(x)
            with quiet():
                if fn == 'lum':
                    out = fam.lum_function(x, **k)
                elif fn == 'int':
                    out = fam.lum_function_int(x, **k)
                elif e['frozen']:
                    out = getattr(fz, fn)(x)
                else:
                    out = getattr(fam, fn)(x, **k)
            obs['same'] = bool(np.array_equal(before, x))
        arr = np.array(out, dtype=float)
        if e['scalar'] and arr.ndim:
            return
        for v in arr.ravel():
            v = float(v)
            o = {'k': 'other', 'v': 0, 'p': -1, 't': NONE}
            if v == 0:
                o = {'k': 'zero', 'v': 0, 'p': 0, 't': 0}
            elif v > 0 and math.isfinite(v):
                o = {'k': 'pos', 'v': round(math.log10(v) * U), 'p': round(min(v, 2) * 1000000),
                     't': round(math.log10(1 - v) * U) if v < 1 else NONE}
            obs['out'].append(o)

    def run(self):
        return {'ev': [self.step(e) for e in self.hist]}


# ------------------------------------------------------------------ generation
def rand_dist(r):
    f = r.choice(['schechter', 'double', 'modified', 'power'])
    x0 = r.randrange(0, 12 * U)
    mn = x0 - r.choice([r.randrange(0, 3 * U), r.randrange(-30000, 3 * U), 2 * U, r.randrange(-105000, 0)])
    if f in ('modified', 'power'):
        mn = min(mn, x0)
    p1, p2 = r.randrange(-5 * U, U), r.randrange(-5 * U, U)
    sl = lambda: r.choice([-100, -200, 0, -150, r.randrange(-250, 100), r.randrange(-200, -100)])
    if f == 'schechter':
        return dist(f, x0, mn, p1, sl())
    if f == 'double':
        if r.random() < .2:
            p2 = NONE
        else:
            p2 = p1 + r.randrange(-2 * U, 2 * U)
        return dist(f, x0, mn, p1, sl(), p2, sl())
    if f == 'modified':
        return dist(f, x0, max(mn, x0 - 2 * U), p1, r.choice([120, 100, r.randrange(60, 180)]), NONE, r.choice([50, r.randrange(30, 70)]))
    return dist(f, x0, max(mn, x0 - 2 * U), p1, r.randrange(0, 90), NONE, r.randrange(160, 320))


def rand_x(r, d, fn, n):
    if fn in ('ppf', 'isf'):
        deep = {'schechter': 8, 'double': 8, 'modified': 6, 'power': 4}[d['f']] * U
        return [r.choice([0, 1000, 500000, r.randrange(0, 990000), -r.randrange(2 * U, deep)]) for _ in range(n)]
    if fn == 'rvs':
        return [0] * n
    top = d['x0'] + (130000 if d['f'] in ('schechter', 'double') else 250000)
    top = max(top, d['min'] + 20000) if fn in ('lum', 'pdf') else max(top, d['min'] + 5000)
    return [r.choice([d['min'], r.randrange(d['min'] - 50000, d['min'] + 20000), r.randrange(d['min'], top), r.randrange(d['min'], top), top])
            for _ in range(n)]


def ask(r, name, d, fn, scalar, frozen):
    n = 1 if scalar else r.choice([1, 2, 5]) if r.random() < .98 else 150
    if fn == 'rvs':
        scalar = False
    return {'op': 'ask', 'name': name, 'fn': fn, 'x': rand_x(r, d, fn, n), 'scalar': scalar, 'frozen': frozen, 'seed': r.randrange(10**6)}


def menu():
    return [dist('schechter', 1000000, 850000, -300000, -130), dist('schechter', 0, -200000, 0, -100), dist('schechter', 500000, 450000, 20000, 50),
            dist('schechter', 0, -250000, 0, -200), dist('schechter', 1000000, 800000, -200000, -160),
            dist('double', 1064000, 900000, -238000, -43, -313000, -150), dist('double', 1083000, 800000, -263000, -95, -401000, -182),
            dist('double', 1049000, 800000, -416000, -155), dist('double', 0, -200000, 0, -200, -20000, -100),
            dist('modified', 995000, 850000, -225000, 120, NONE, 50), dist('modified', 0, -100000, 0, 100, NONE, 40),
            dist('power', 995000, 850000, -225000, 30, NONE, 220), dist('power', 0, -100000, 0, 60, NONE, 300)]


def run(ck, prop):
    ck.setup_code()
    m = menu()
    mf = os.path.join(ck.scratch, 'menu.json')
    json.dump(m, open(mf, 'w'))
    cfg = 'INIT Init\nNEXT Next\nVIEW View\nINVARIANT Inv\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
    edges, i0 = ck.model_check('MCDistrib', cfg, env={'MENU': mf}, dump=True)
    walks, cov, tot = cover_walks(edges, i0, 40, ck.rng, limit=400 if ck.thorough else 30)
    ck.extra['model_transitions_taken_on_code'] = [cov, tot]

    def replay(wk):
        w, seed = wk
        r = random.Random(seed)
        hist, alive = [], {}
        for op in w:
            name = ' AB'[op % 10]
            if op < 10000:
                alive[name] = m[op // 10 - 1]
                hist.append({'op': 'freeze', 'name': name, 'd': alive[name]})
                other = r.choice(list(alive))
                hist.append(ask(r, other, alive[other], r.choice(FNS), r.random() < .4, r.random() < .6))
            else:
                hist.append(ask(r, name, alive[name], FNS[(op - 10000) // 10 - 1], r.random() < .4, r.random() < .6))
        return Runner(hist).run()
    ck.validate('TraceDistrib', ck.parallel(replay, [(w, '%d-%d' % (ck.seed, k)) for k, w in enumerate(walks)]), '', 'walk:', chunk=8)

    def hist(seed):
        r = random.Random(seed)
        h, alive = [], {}
        for _ in range(25):
            if not alive or r.random() < .25:
                n = r.choice('ABC')
                alive[n] = rand_dist(r)
                h.append({'op': 'freeze', 'name': n, 'd': alive[n]})
            else:
                n = r.choice(list(alive))
                h.append(ask(r, n, alive[n], r.choice(FNS), r.random() < .35, r.random() < .6))
        return Runner(h).run()
    k = 800 if ck.thorough else 120
    ck.validate('TraceDistrib', ck.parallel(hist, ['P04-%d-%d' % (ck.seed, i) for i in range(k)]), '', 'history:', chunk=20)
    ck.assumptions += ['slopes, widths and limits of the ranges fitted to galaxies; values down to one object in 10^4 to 10^8']
