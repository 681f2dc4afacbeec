"""Drivers for abundance-matched models (spec/AbundModel.tla)."""
import json
import math
import os
import random
import numpy as np

from core import quiet, cover_walks
import simhandler as sh
from handler import H

U = 100000
NONE = -999999999
ZV = [.0425, .35, .65, .95, 1.3, 1.75, 2.25, 2.75, 3.25, 4., 5., 6., 7.]
COSMO = {}


def geometry(om):
    """Luminosity distances and volume elements over those of the observations."""
    if om not in COSMO:
        from astropy.cosmology import FlatLambdaCDM
        a, b = FlatLambdaCDM(H0=100 * H, Om0=om), FlatLambdaCDM(H0=70, Om0=.3)
        COSMO[om] = {'dl': [round(U * math.log10(a.luminosity_distance(z).value / b.luminosity_distance(z).value)) for z in ZV],
                     'vol': [round(U * math.log10(a.differential_comoving_volume(z).value / b.differential_comoving_volume(z).value)) for z in ZV]}
    return COSMO[om]


def catalogue(snaps, box, om, vmax, first=0, shift=0):
    """snaps: [(z in 1/1000, [log mass], [v])]; the rest is how it is written."""
    return {'snaps': [{'z': z, 'm': m, 'v': v} for z, m, v in snaps], 'vol': round(3 * U * math.log10(box / H)),
            'geo': geometry(om), 'vmax': vmax, 'box': box, 'om': om, 'first': first}


def tla(cat):
    return {k: cat[k] for k in ('snaps', 'vol', 'geo', 'vmax')}


def write(path, cat):
    import h5py
    nat, snaps = [], []
    for i, s in enumerate(cat['snaps']):
        order = sorted(range(len(s['m'])), key=lambda k: -s['m'][k])
        cols = [{'n': 'mass', 'dt': 'f8', 'hd': -1, 'raw': [10 ** (s['m'][k] / U) * H for k in order]}]
        if cat['vmax']:
            cols.append({'n': 'vmax', 'dt': 'f8', 'hd': 0, 'raw': [s['v'][k] / 10 for k in order]})
        nat.append(cols)
        snaps.append((cat['first'] + i, s['z'] / 1000, len(order)))
    f = sh.write_sim(path, snaps, nat, box=cat['box'])
    with h5py.File(f, 'a') as fh:
        fh.attrs['cosmo_omega_matter'] = cat['om']
        fh.attrs['cosmo_omega_lambda'] = 1 - cat['om']


def pair(v):
    v = float(v)
    if math.isnan(v):
        return {'k': 'nan', 'v': 0}
    if v == 0:
        return {'k': 'zero', 'v': 0}
    if v > 0 and math.isfinite(v):
        return {'k': 'pos', 'v': round(U * math.log10(v))}
    return {'k': 'other', 'v': 0}


G13 = {'alpha': ('lf_alpha0', lambda v: v / 100), 'sigma': ('lf_sigma0', lambda v: v / 100), 'lstar': ('lf_lstar0', lambda v: 10 ** (v / U)),
       'phistar': ('lf_phistar0', lambda v: 10 ** (v / U)), 'lmin': ('lirmin', lambda v: 10 ** (v / U)), 'tosfr': ('lir_to_sfr', lambda v: 10 ** (v / U))}


class Runner:
    def __init__(self, ck, cat, hist):
        from simim._paths import _SimIMPaths
        self.name, self.path = sh.my_slot(ck)
        self.cat, self.hist = cat, hist
        self.objs = {}
        for p in ('g13_', 'b17_'):
            d = _SimIMPaths().props[p + self.name]
            for f in os.listdir(d):
                os.remove(os.path.join(d, f))
        write(self.path, cat)

    def construct(self, e):
        from simim.galprops.sfr_ir import g13irlf_base
        from simim.galprops.sfr_bethermin17 import bethermin17_base
        sm = '' if e['model'] == 'g13' else 'sm_'
        k = {}
        for a in ('comp', 'remake'):
            if e[a] or e['loud']:
                k[sm + a] = e[a]
        if e['hp'] != 'auto' or e['loud']:
            k[sm + 'haloprop'] = e['hp']
        if e['hmin'] != 10 * U or e['loud']:
            k[sm + 'halomassmin'] = 10 ** (e['hmin'] / U)
        for p in e['par']:
            if p['n'] in G13:
                n, f = G13[p['n']]
                k[n] = f(p['v'])
        return (g13irlf_base if e['model'] == 'g13' else bethermin17_base)(self.name, **k)

    def step(self, e):
        e = dict(e)
        obs = {'err': False, 'out': [], 'x0': {'k': 'nan', 'v': 0}, 'p1': {'k': 'nan', 'v': 0}, 'p2': {'k': 'nan', 'v': 0}, 'a1': 0, 'a2': 0}
        if e['op'] == 'recat':
            self.cat = e['cat']
            write(self.path, self.cat)
            e['cat'] = tla(e['cat'])
        else:
            try:
                with quiet():
                    getattr(self, e['op'] if e['op'] == 'construct' else 'do_' + e['op'])(e, obs) if e['op'] != 'construct' \
                        else self.objs.__setitem__(e['name'], self.construct(e))
            except Exception as x:
                if isinstance(x, MemoryError):
                    raise
                obs['err'] = True
                e['error'] = repr(x)
        e['obs'] = obs
        return e

    def do_query(self, e, obs):
        o = self.objs[e['name']]
        x = np.array([v / 10 if e['by'] == 'vmax' else 10 ** (v / U) for v in e['x']])
        z = e['z'] / 1000
        if e['form'] == 'scalar':
            x = float(x[0])
        if e['form'] == 'both':
            z = np.full(len(x), z)
        if e['what'] == 'sfr' and e['shift'] != NONE:
            out = o.sfr(x, z, lir_to_sfr=10 ** (e['shift'] / U))
        else:
            out = getattr(o, e['what'])(x, z)
        obs['out'] = [pair(v) for v in np.ravel(out)]

    def do_function(self, e, obs):
        o = self.objs[e['name']]
        z = e['z'] / 1000
        if e['model'] == 'g13':
            k = {}
            for p in e['over']:
                k[G13[p][0][3:]] = G13[p][1]([q['v'] for q in e['par'] if q['n'] == p][0])
            if e['form'] == 'array':
                phi, ls, al, si = [np.asarray(v)[1] for v in o.get_irlf_pars(np.array([0., z, 3.]), **k)]
            else:
                phi, ls, al, si = o.get_irlf_pars(e['z'] // 1000 if e['z'] % 1000 == 0 else z, **k)
            obs.update(x0=pair(ls), p1=pair(phi), a1=round(float(al) * 1e4), a2=round(float(si) * 1e4))
        else:
            from astropy.cosmology import FlatLambdaCDM
            ms, a1, p1, a2, p2 = o.b17_smfpars(z, FlatLambdaCDM(H0=100 * H, Om0=e['om']))
            obs.update(x0=pair(ms), p1=pair(p1), p2=pair(p2), a1=round(float(a1) * 1e4), a2=round(float(a2) * 1e4))

    def run(self):
        cat = tla(self.cat)
        return {'cat': cat, 'ev': [self.step(e) for e in self.hist]}


# ------------------------------------------------------------------ generation
def spaced(r, n, lo, hi, gap):
    out = []
    while len(out) < n:
        x = r.randrange(lo, hi)
        if all(abs(x - y) >= gap for y in out):
            out.append(x)
    return out


def rand_cat(r):
    k = r.choice([1, 2, 2, 3])
    zs = sorted(r.sample([0, 250, 500, 875, 1000, 1125, 1500, 2000, 2250, 3000, 4500, 6500, 8000], k), reverse=True)
    if k == 1:
        zs = [zs[0] + 500, zs[0]]
    snaps = []
    for z in zs:
        n = r.choice([0, 3, 5, 8, 12]) if r.random() < .3 else r.choice([6, 10, 14])
        lo = 970000 if r.random() < .5 else 1002000
        snaps.append((z, spaced(r, n, lo, 1350000, 2500), spaced(r, n, 100, 6000, 80)))
    return catalogue(snaps, r.choice([.5, 1, 2, 4, 8, 16]), r.choice([.3, .25, .5]), r.random() < .5, r.choice([0, 0, 3]))


def rand_par(r):
    par = []
    if r.random() < .5:
        for n, v in (('alpha', [100, 130, 150]), ('sigma', [30, 60]), ('lstar', [970000, 1030000]), ('phistar', [-300000, -150000]),
                     ('lmin', [800000, 900000]), ('tosfr', [-980000, -1050000])):
            if r.random() < .4:
                par.append({'n': n, 'v': r.choice(v)})
    return par


def rand_construct(r, name):
    m = r.choice(['g13', 'g13', 'b17'])
    return {'op': 'construct', 'name': name, 'model': m, 'comp': r.random() < .6, 'remake': r.random() < .35,
            'hp': r.choice(['auto', 'auto', 'mass', 'mass', 'vmax', 'halo'] if r.random() < .5 else ['auto', 'mass']),
            'hmin': r.choice([10 * U, 10 * U, 1050000, 990000]), 'par': rand_par(r) if m == 'g13' else [], 'loud': r.random() < .4}


class Shadow:
    """Only what is needed to ask sensible questions."""
    def __init__(self, cat):
        self.cat, self.disk, self.objs = cat, {}, {}

    def construct(self, e):
        make = e['remake'] or (e['comp'] and e['model'] not in self.disk)
        if make and (e['hp'] not in ('auto', 'mass', 'vmax') or (e['hp'] == 'vmax' and not self.cat['vmax'])):
            return
        if make:
            hp = ('vmax' if self.cat['vmax'] else 'mass') if e['hp'] == 'auto' else e['hp']
            self.disk[e['model']] = (self.cat, hp, e['hmin'])
        self.objs[e['name']] = (e['model'], self.disk.get(e['model']), e['par'])


def rand_query(r, sd, name, n):
    model, rel, _ = sd.objs[name]
    what = 'stellarmass' if model == 'b17' else r.choice(['lir', 'sfr'])
    cat, hp, hmin = rel or (sd.cat, 'mass', 10 * U)
    zs = [s['z'] for s in cat['snaps']]
    i = r.randrange(len(zs) - 1)
    z = zs[i + 1] + (zs[i] - zs[i + 1]) * r.choice([0, 1, 2, 4, 7, 8]) // 8
    if r.random() < .1:
        z = r.choice([zs[0] + 125, max(zs[-1] - 125, 0)])
    x = []
    vals = sorted([v for s in cat['snaps'][i:i + 2] for v in s['v' if hp == 'vmax' else 'm']])
    for _ in range(n):
        if r.random() < .15 or not vals:
            x.append(r.choice([hmin - 500, hmin + 1000, hmin + 10 * U + 500]) if hp == 'mass' else r.choice([0, 50010, 20000]))
        else:
            k = r.randrange(len(vals))
            x.append(vals[k] + r.choice([0, 600, -600, 5000, 15000] if hp == 'mass' else [0, 17, -17, 50]))
    return {'op': 'query', 'name': name, 'what': what, 'by': hp, 'x': x, 'z': z, 'shift': r.choice([NONE, NONE, -990000]) if what == 'sfr' else NONE,
            'form': 'scalar' if n == 1 and r.random() < .5 else r.choice(['array', 'both'])}


def rand_function(r, sd, name):
    model, _, par = sd.objs[name]
    z = r.choice([0, 500, 1000, 1090, 1100, 1500, 1990, 2000, 2500, 4000, 7500, r.randrange(0, 9000)])
    over = []
    if model == 'g13':
        par = [dict(p) for p in par]
        for n, v in (('alpha', 145), ('sigma', 55), ('lstar', 1010000), ('phistar', -280000)):
            if r.random() < .25:
                par = [p for p in par if p['n'] != n] + [{'n': n, 'v': v}]
                over.append(n)
    om = r.choice([.3, .25, .5])
    return {'op': 'function', 'name': name, 'model': model, 'par': par, 'over': over, 'om': om, 'geo': geometry(om), 'z': z,
            'form': r.choice(['scalar', 'array'])}


def rand_hist(r, n):
    cat = rand_cat(r)
    sd, hist = Shadow(cat), []
    while len(hist) < n:
        u = r.random()
        if u < .3 or not sd.objs:
            e = rand_construct(r, r.choice('AB'))
            if not hist:
                e['comp'] = True
            sd.construct(e)
        elif u < .37:
            e = {'op': 'recat', 'cat': rand_cat(r)}
            sd.cat = e['cat']
        elif u < .5:
            e = rand_function(r, sd, r.choice(sorted(sd.objs)))
        else:
            e = rand_query(r, sd, r.choice(sorted(sd.objs)), r.choice([1, 1, 3, 6]))
        hist.append(e)
    return cat, hist


def menu():
    r = random.Random('P05 menu')
    m = [1005000 + 30000 * k for k in range(8)]
    v = [300, 450, 420, 700, 650, 1100, 1500, 1900]
    cats = [catalogue([(2000, m, v), (1000, [x + 4000 for x in m], v), (0, m[1:], v[1:])], 4, .3, True, 3),
            catalogue([(2500, m, v), (500, [x + 9000 for x in m], v)], 8, .25, False)]
    con = lambda name, model, **k: dict({'op': 'construct', 'name': name, 'model': model, 'comp': True, 'remake': False, 'hp': 'auto',
                                         'hmin': 10 * U, 'par': [], 'loud': False}, **k)
    out = [{'op': 'recat', 'i': 1}, {'op': 'recat', 'i': 2}]
    for model in ('g13', 'b17'):
        out += [con('A' if model == 'g13' else 'B', model), con('C', model, comp=False),
                con('C', model, remake=True, hp='mass', hmin=1020000), con('C', model, remake=True, hp='vmax')]
    out += [con('A', 'g13', remake=True, par=[{'n': 'lstar', 'v': 1020000}, {'n': 'tosfr', 'v': -950000}]), con('A', 'g13', remake=True, hp='halo')]
    out += [{'op': 'query', 'name': n} for n in 'ABC']
    return cats, out


def first_use(ck, cat):
    """The first object of each simulation and model makes itself a place on disk."""
    from simim._paths import _SimIMPaths
    from simim.galprops.sfr_ir import g13irlf_base
    from simim.galprops.sfr_bethermin17 import bethermin17_base
    ev = []
    for n in sh.slot_names():
        for model, cls in (('g13', g13irlf_base), ('b17', bethermin17_base)):
            e = {'op': 'construct', 'name': n + model, 'model': model, 'comp': False, 'remake': False, 'hp': 'auto', 'hmin': 10 * U,
                 'par': [], 'obs': {'err': False}}
            try:
                with quiet():
                    cls(n)
            except Exception as x:
                e['obs']['err'], e['error'] = True, repr(x)
            p = _SimIMPaths()
            if model + '_' + n not in p.props:
                p._newproppath(model + '_' + n)
            ev.append(e)
    ck.validate('TraceAbundModel', [{'cat': tla(cat), 'ev': ev}], '', 'first use:')


def run(ck, prop):
    ck.setup_code()
    sh.register_slots(ck)
    cats, m = menu()
    first_use(ck, cats[0])
    mf = os.path.join(ck.scratch, 'menu.json')
    json.dump({'cats': [tla(c) for c in cats], 'menu': m, 'depth': 5 if ck.thorough else 4}, open(mf, 'w'))
    cfg = 'INIT Init\nNEXT Next\nVIEW View\nCONSTRAINT Depth\nPROPERTY StepProp\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
    edges, i0 = ck.model_check('MCAbundModel', cfg, env={'MENU': mf}, dump=True)
    walks, cov, tot = cover_walks(edges, i0, 25, ck.rng, limit=None if ck.thorough else 40)
    ck.extra['model_transitions_taken_on_code'] = [cov, tot]

    def replay(w):
        r = random.Random(str(w))
        sd, hist = Shadow(cats[0]), []
        for op in w:
            e = dict(m[op - 1])
            if e['op'] == 'recat':
                e['cat'] = cats[e.pop('i') - 1]
                sd.cat = e['cat']
            elif e['op'] == 'construct':
                sd.construct(e)
            else:
                e = rand_query(r, sd, e['name'], 4)
            hist.append(e)
        return Runner(ck, cats[0], hist).run()
    ck.validate('TraceAbundModel', ck.parallel(replay, walks), '', 'walk:', chunk=5)

    def hist(seed):
        r = random.Random(seed)
        return Runner(ck, *rand_hist(r, 22)).run()
    n = 900 if ck.thorough else 90
    ck.validate('TraceAbundModel', ck.parallel(hist, ['P05-%d-%d' % (ck.seed, k) for k in range(n)]), '', 'history:', chunk=8)
    ck.assumptions += ['snapshots of up to 14 halos in order of falling redshift; halos next to the outermost ranks are not decided',
                       'the geometry of the catalogue\'s cosmology over that of the observations comes from astropy']
