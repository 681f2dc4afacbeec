"""Driver for handlers and iterators of light cones (spec/LCView.tla)."""
import json
import os
import random
import numpy as np
import h5py

from core import quiet, cover_walks
import handler as hd
import simhandler as sh
from handler import F, mk, rg, fx, fxs, SC, INF, H
from lightcone import remember_distances

SHAPES = ['box', 'circle', 'sphere', 'hemisphere', 'quarter', 'eighth']


def natives(r, n, zmin, zmax):
    def vals(k):
        return [r.randrange(1, k) for _ in range(n)]
    zs = sorted(r.choice([zmin, zmax, r.randrange(zmin, zmax + 1)]) for _ in range(n))
    return [
        {'n': 'mass', 'dt': 'f4', 'hd': -1, 'raw': vals(40)},
        {'n': 'a', 'dt': 'f8', 'hd': 0, 'raw': [v / 2 for v in vals(40)]},
        {'n': 'p', 'dt': 'f4', 'hd': 1, 'raw': vals(20)},
        {'n': 'w', 'dt': 'f8', 'hd': 2, 'raw': [4 * v for v in vals(8)]},
        {'n': 'c', 'dt': 'i4', 'hd': 0, 'raw': vals(20)},
        {'n': 'redshift', 'dt': 'f8', 'hd': 0, 'raw': [z / SC for z in zs]},
        {'n': 'oid', 'dt': 'i8', 'hd': 0, 'raw': list(range(1, n + 1))},
    ]


class LCs:
    """Light cones on disk, and an iterator over some of them."""

    def __init__(self, ck, geos, nats, numbers, its, dfl, tile=1):
        self.tile = tile
        from simim._paths import _SimIMPaths
        self.sim, path = sh.my_slot(ck)
        self.dir = os.path.join(os.path.dirname(path), 'lcv_' + os.path.basename(path))
        d = os.path.join(self.dir, 'set')
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        p = _SimIMPaths()
        if p.lcs.get(self.sim) != self.dir:
            p._newlcpath(self.sim, new_path=self.dir, checkoverwrite=False)
        self.numbers = numbers
        self.paths = []
        self.geos = geos
        self.init = {'its': [], 'geo': geos, 'lc': []}
        for num, g, nat in zip(numbers, geos, nats):
            q = os.path.join(d, 'lc_%04d.hdf5' % num)
            attrs = {'cosmo_omega_matter': .3, 'cosmo_omega_baryon': .05, 'shape': g['shape'], 'box_edge': 100.,
                     'minimum redshift': g['zmin'] / SC, 'maximum redshift': g['zmax'] / SC}
            if g['shape'] in ('box', 'circle'):
                attrs['open angle'] = g['a'] / 1024
                attrs['aspect ratio'] = g['asp'] / 16
            n = len(nat[0]['raw'])
            hd.write_catalog(q, 'Lightcone Full', nat, n, attrs, tile)
            with h5py.File(q, 'a') as f:
                del f['Lightcone Full']['mass_cuts']
            self.paths.append(q)
            self.init['lc'].append({'n': n, 'dfl': dfl, 'ext': [{'n': 'h', 'x': fx(H)}],
                                    'disk': [{'n': c['n'], 'hd': c['hd'], 'u': False, 'v': fxs(c['raw'])} for c in nat]})
        self.it = None
        self.open([numbers[k - 1] for k in its], False, dfl)
        self.init['its'] = self.its()

    def open(self, numbers, req, dfl):
        from simim.lightcone import LCIterator
        self.it = LCIterator(self.sim, 'set', numbers, in_h_units=dfl, require_consistent=req)

    def its(self):
        return [self.numbers.index(int(n)) + 1 for n in self.it.lc_numbers]

    def one(self, k):
        t = _T()
        t.tile = self.tile
        t.path, t.group = self.paths[k - 1], 'Lightcone Full'
        t.h = self.it.lc_handlers[str(self.numbers[k - 1])]
        return t


class _T:
    pass


class Fan:
    """The iterator, as the handler-level driver wants it: what each light cone gave is kept aside."""

    def __init__(self, it):
        self._it, self._got = it, None

    def __getattr__(self, name):
        f = getattr(self._it, name)

        def call(*a, **k):
            self._got = f(*a, **k)
            if name in ('return_property', 'eval_stat'):
                return np.concatenate([np.atleast_1d(v) for v in self._got.values()]) if self._got else np.zeros(0)
            return None
        return call


FLAG = {'t': True, 'f': False, 'd': None}


def volumes(h, inh):
    """The shell's comoving volume per steradian, and its unit."""
    def shell(a, b):
        v = h.cosmo.comoving_volume(b).value - h.cosmo.comoving_volume(a).value
        return v / (4 * np.pi) * (h.h**3 if inh else 1)
    return shell


def evo(target, e, handlers):
    """eval_stat_evo; returns what the function was given and whether its other arguments were right."""
    nb = [0]
    ok = [True]
    other = {'k': e['k']} if e['k'] else {}
    before = dict(other)
    bins = [x / SC for x in e['bins']]
    arg = np.array(bins) if e.get('array') else list(bins)
    count = len(bins) - 1
    remap = {'x': e['x'], 'y': e['y']}

    def stat(x, y, k=0, zmin=None, zmax=None, volume=None):
        nb[0] += 1
        if e['fail'] and (nb[0] - 1) % max(count, 1) == e['fail'] - 1:
            raise RuntimeError('planned failure')
        v = np.asarray(x) + e['b'] * np.asarray(y) + k
        ok[0] &= (zmin is not None) == e['kzmin'] and (zmax is not None) == e['kzmax'] and (volume is not None) == e['kvol']
        if volume is not None:
            vols.append(float(volume))
        hd.scribble(x, y)
        return np.concatenate([v] + ([[zmin]] if e['kzmin'] else []) + ([[zmax]] if e['kzmax'] else []))
    vols = []
    try:
        r = target.eval_stat_evo(arg, stat, ['x', 'y'], kw_remap=remap, other_kws=other, zmin_kw=e['kzmin'], zmax_kw=e['kzmax'],
                                 volume_kw=e['kvol'], give_args_in_h_units=FLAG[e['inh']])
        err = False
    except Exception:
        r, err = None, True
    same = other == before and list(arg) == bins and remap == {'x': e['x'], 'y': e['y']}
    if not err and e['kvol']:
        want = []
        b = sorted(bins)
        for h in handlers:
            inh = h.default_in_h_units if FLAG[e['inh']] is None else FLAG[e['inh']]
            area = float(h.volume(in_h_units=inh)) / volumes(h, inh)(h.minimum_redshift, h.maximum_redshift)
            want += [volumes(h, inh)(b[j], b[j + 1]) * area for j in range(len(b) - 1)]
        ok[0] &= len(want) == len(vols) and np.allclose(want, vols, rtol=1e-6)
    return err, r, ok[0] or err, same


def out_evo(r, e, tile):
    b, v = r
    extra = e['kzmin'] + e['kzmax']
    return [fxs(b)] + [hd.fold(x[:len(x) - extra], tile) + fxs(x[len(x) - extra:]) for x in v]


def perform(t, e):
    res = {'err': False, 'outs': [], 'volok': True, 'argsame': True, 'area': 0}
    op = e['op']
    if op in ('each', 'one'):
        c = e['call']
        e['gives'] = c['op'] in ('ret', 'stat', 'evo')
        if c['op'] == 'evo':
            hs = [t.one(k).h for k in t.its()] if op == 'each' else [t.one(e['k']).h]
            err, r, res['volok'], res['argsame'] = evo(t.it if op == 'each' else hs[0], c, hs)
            res['err'] = err
            if not err:
                res['outs'] = [out_evo(r[str(n)], c, t.tile) for n in t.it.lc_numbers] if op == 'each' else [out_evo(r, c, t.tile)]
                if op == 'each' and len(r) != len(t.it.lc_numbers):
                    res['outs'] = []
        elif op == 'one':
            err, out = hd.perform(t.one(e['k']), c)
            res['err'], res['outs'] = err, [out]
        else:
            f = _T()
            f.h, f.tile = Fan(t.it), 1
            err, _ = hd.perform(f, c)
            res['err'] = err
            if not err and e['gives']:
                got = f.h._got
                res['outs'] = [hd.fold(got[str(n)], t.tile) for n in t.it.lc_numbers] if len(got) == len(t.it.lc_numbers) else []
                hd.scribble(*got.values())
    elif op == 'iter':
        want = e.pop('_numbers')
        e['missing'] = want is not None and not set(np.atleast_1d(want).tolist()) <= set(t.numbers)
        full = list(range(1, len(t.numbers) + 1))
        e['its'] = full if want is None else [t.numbers.index(n) + 1 for n in np.atleast_1d(want).tolist() if n in t.numbers]
        try:
            t.open(want, e['req'], e['dfl'])
            if want is None and sorted(t.its()) == full:
                e['its'] = t.its()      # in any order
        except Exception:
            res['err'] = True
    else:
        g = {}
        for k, (key, sc) in {'redshift_min': ('lo', SC), 'redshift_max': ('hi', SC), 'open_angle': ('a', 1024), 'aspect_ratio': ('asp', 16)}.items():
            if e[key] >= 0:
                g[k] = e[key] / sc
        if e['shape']:
            g['shape'] = e['shape']
        g['in_h_units'] = FLAG[e['inh']]
        try:
            num = t.numbers[e['number'] - 1] if e['number'] else None
            its = t.its()
            if e['direct'] and (e['number'] or 0) in its:
                v = t.one(e['number']).h.volume(**g)
            else:
                v = t.it.volume(number=num, **g)
            k = e['number'] or its[0]
            h = t.one(k).h
            inh = h.default_in_h_units if g['in_h_units'] is None else g['in_h_units']
            geo = t.geos[k - 1]
            lo = (geo['zmin'] if e['lo'] < 0 else e['lo']) / SC
            hi = (geo['zmax'] if e['hi'] < 0 else e['hi']) / SC
            res['area'] = int(round(float(v) / volumes(h, inh)(lo, hi) * 1e6))
        except Exception:
            res['err'] = True
    return res


def run_trace(t, ops):
    ev = []
    for e in ops:
        e = json.loads(json.dumps(e))
        obs = perform(t, e)
        obs['its'] = t.its()
        obs['consistent'] = bool(t.it.is_consistent)
        obs['lc'] = []
        for k in obs['its']:
            o = hd.observe(t.one(k))
            o['disk'] = [d for d in o['disk'] if d['n'] != 'LOST mass_cuts']
            obs['lc'].append(o)
        e['obs'] = obs
        ev.append(e)
    return {'init': t.init, 'ev': ev}


# ---------------------------------------------------------------- histories
class Gen(hd.Gen):
    NAT = ['mass', 'a', 'p', 'w', 'c', 'redshift']


def evo_call(r, g, zmin, zmax):
    nb = r.choice([0, 1, 2, 2, 3, 4])
    bins = [r.choice([zmin, zmax, r.randrange(max(0, zmin - 3), zmax + 4)]) for _ in range(nb + 1)]
    if r.random() < .7:
        bins = sorted(set(bins))
    vol = r.random() < .35 and len(set(bins)) == len(bins)
    return {'op': 'evo', 'bins': bins, 'x': r.choice(g.NAT + g.USR), 'y': r.choice(['mass', 'a', 'p', 'w', 'h']), 'b': r.choice([0, 1, 3]),
            'k': r.choice([0, 0, 1]), 'inh': r.choice('tfd'), 'all': False, 'kzmin': r.random() < .4, 'kzmax': r.random() < .4, 'kvol': vol,
            'fail': r.choice([0, 0, 0, 0, 1, 2]), 'array': r.random() < .5}


def call(r, g, zr):
    if r.random() < .35:
        return evo_call(r, g, *zr)
    while True:
        c = g.one()
        if c['op'] == 'make' and c['f']['x'] == 'lev1':
            continue
        for k in ('y', 'x'):
            if c.get(k) in ('redshift', 'box_edge', 'box_edge_h', 'box_edge_no_h', 'cosmo'):
                c[k] = 'h' if k == 'y' else 'a'
        if c['op'] == 'make':
            for k in ('y', 'x'):
                if c['f'].get(k) in ('redshift', 'box_edge', 'box_edge_h', 'box_edge_no_h'):
                    c['f'][k] = 'h' if k == 'y' else 'a'
            c['write'] = False if r.random() < .5 else c['write']
        return c


def geometry(r):
    zmin = r.choice([0, 0, 8, 32])
    return {'shape': r.choice(SHAPES[:2] * 4 + SHAPES[2:]), 'a': r.choice([16, 40, 64, 100]), 'asp': r.choice([16, 16, 8, 4]),
            'zmin': zmin, 'zmax': zmin + r.choice([16, 32, 64, 128])}


def history(r, length, numbers, geos):
    g = Gen(r, dict(range=3, make=3, ret=2, stat=2, write=1, delete=1, units=1))
    g2 = Gen(r, dict(range=3, make=2, ret=2, stat=2, write=1, delete=.5, load=1, unload=1))
    n = len(numbers)
    ops = []
    for _ in range(length):
        op = r.choices(['each', 'one', 'volume', 'iter'], [6, 3, 4, 1.5])[0]
        if op == 'each':
            ops.append({'op': 'each', 'call': call(r, g, (geos[0]['zmin'], geos[0]['zmax']))})
        elif op == 'one':
            k = r.randrange(1, n + 1)
            ops.append({'op': 'one', 'k': k, 'call': call(r, g2, (geos[k - 1]['zmin'], geos[k - 1]['zmax']))})
        elif op == 'volume':
            ge = r.choice(geos)
            k = r.choice([0] + list(range(1, n + 1)))
            if k:
                ge = geos[k - 1]
            opt = r.random()
            e = {'op': 'volume', 'number': k, 'direct': r.random() < .5, 'shape': '', 'a': -1, 'asp': -1, 'lo': -1, 'hi': -1, 'inh': r.choice('tfd')}
            if r.random() < .6:
                e['shape'] = r.choice(SHAPES[:2] * 3 + ['sphere', ge['shape'], 'cube'])
            if r.random() < .6:
                e['a'] = max(1, ge['a'] + r.choice([-20, -8, -1, 0, 0, 1]))
                if r.random() < .5:
                    e['a'] = max(1, ge['a'] * r.choice([3, 6, 8]) // 8 + r.choice([-1, 0, 1]))
            if r.random() < .4:
                e['asp'] = r.choice([16, 12, 8, 4, 2])
            lo, hi = ge['zmin'], ge['zmax']
            if r.random() < .4:
                e['lo'] = max(0, lo + r.choice([-1, 0, 1, 5]))
            if r.random() < .4:
                e['hi'] = hi + r.choice([0, -1, -5, 1])
            ops.append(e)
        else:
            w = r.choice([None, None, 'some', 'some', 'one', 'bad'])
            nums = None if w is None else r.choice(numbers) if w == 'one' else r.sample(numbers, r.randrange(1, n + 1)) + ([77] if w == 'bad' else [])
            ops.append({'op': 'iter', '_numbers': nums, 'req': r.random() < .5, 'dfl': r.random() < .5})
    return ops


def fix_one(ops, its_of):
    return ops


def run(ck, prop):
    ck.setup_code()
    sh.register_slots(ck)
    remember_distances()
    geo = [{'shape': 'box', 'a': 64, 'asp': 8, 'zmin': 0, 'zmax': 64}, {'shape': 'circle', 'a': 64, 'asp': 8, 'zmin': 0, 'zmax': 64}]
    nat = [[{'n': 'mass', 'dt': 'f4', 'hd': -1, 'raw': m}, {'n': 'redshift', 'dt': 'f8', 'hd': 0, 'raw': z},
            {'n': 'oid', 'dt': 'i8', 'hd': 0, 'raw': list(range(1, len(m) + 1))}] for m, z in (([8, 2, 4], [.25, .5, .75]), ([4], [.5]))]
    base = {'op': 'evo', 'bins': [0, 32, 64], 'x': 'mass', 'y': 'mass', 'b': 0, 'k': 0, 'inh': 'd', 'all': False, 'kzmin': True, 'kzmax': False, 'kvol': False, 'fail': 0}
    vol = {'op': 'volume', 'number': 1, 'direct': False, 'shape': '', 'a': -1, 'asp': -1, 'lo': -1, 'hi': -1, 'inh': 'd'}
    menu = [{'op': 'each', 'call': base}, {'op': 'each', 'call': dict(base, bins=[64, 16, 32], inh='t')}, {'op': 'each', 'call': dict(base, fail=2)},
            {'op': 'each', 'call': dict(base, x='none')}, {'op': 'one', 'k': 1, 'call': dict(base, kvol=True)},
            {'op': 'each', 'call': rg('mass', 4 * SC, INF, True, 't')}, {'op': 'each', 'call': rg()}, {'op': 'one', 'k': 1, 'call': rg('redshift', 0, 32, False)},
            {'op': 'each', 'call': mk(F([('b', 1, 0, 0)], 'mass', 'mass'), ow=True)},
            {'op': 'each', 'call': mk(F([('b', 2, 0, -1)], 'mass', 'mass'), ow=False, all=True)},
            {'op': 'each', 'call': {'op': 'write', 'ns': ['b'], 'ow': True}}, {'op': 'each', 'call': {'op': 'delete', 'ns': ['b']}},
            {'op': 'one', 'k': 1, 'call': {'op': 'delete', 'ns': ['b']}}, {'op': 'each', 'call': {'op': 'units', 'v': True}},
            {'op': 'each', 'call': {'op': 'ret', 'n': 'b', 'all': False, 'inh': 'd'}},
            vol, dict(vol, number=0), dict(vol, shape='circle', a=32), dict(vol, shape='circle', a=33), dict(vol, number=2, shape='box', a=45, asp=16), dict(vol, number=2, shape='box', a=46, asp=16),
            {'op': 'iter', 'its': [1], 'missing': False, 'req': True, 'dfl': False, '_numbers': [0]},
            {'op': 'iter', 'its': [1, 2], 'missing': False, 'req': False, 'dfl': False, '_numbers': [0, 3]},
            {'op': 'iter', 'its': [1, 2], 'missing': False, 'req': True, 'dfl': False, '_numbers': [0, 3]}]
    t0 = {'its': [1, 2], 'geo': geo, 'lc': [{'n': len(n[0]['raw']), 'dfl': False, 'ext': [{'n': 'h', 'x': fx(H)}],
          'disk': [{'n': c['n'], 'hd': c['hd'], 'u': False, 'v': fxs(c['raw'])} for c in n]} for n in nat]}
    mf = os.path.join(ck.scratch, 'menu.json')
    json.dump({'init': t0, 'ops': menu}, open(mf, 'w'))
    cfg = 'CONSTANT SC = %d\nINIT Init\nNEXT Next\nVIEW VView\nINVARIANT Inv\nPROPERTY StepProp\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n' % SC
    edges, i0 = ck.model_check('MCLCView', cfg, env={'MENU': mf}, dump=True)
    walks, cov, tot = cover_walks(edges, i0, 20, ck.rng, limit=None if ck.thorough else 60)
    ck.extra['model_transitions_taken_on_code'] = [cov, tot]

    def replay(w):
        with quiet():
            t = LCs(ck, geo, nat, [0, 3], [1, 2], False)
            return run_trace(t, [menu[o - 1] for o in w])
    traces = ck.parallel(replay, walks)
    ck.validate('TraceLCView', traces, 'CONSTANT SC = %d\n' % SC, 'walk:', chunk=60)

    def hist(seed):
        r = random.Random(seed)
        n = r.choice([1, 2, 3])
        g0 = geometry(r)
        geos = [dict(g0) if r.random() < .75 else geometry(r) for _ in range(n)]
        numbers = r.sample([0, 1, 2, 3, 7, 12], n)
        nats = [natives(r, r.choice([0, 1, 3, 6]), g['zmin'], g['zmax']) for g in geos]
        ops = history(r, r.choice([8, 14]), numbers, geos)
        with quiet():
            t = LCs(ck, geos, nats, numbers, list(range(1, n + 1)), r.random() < .5, r.choice([1] * 9 + [30, 700]))
            ev = []
            for e in ops:
                # a single light cone is looked at through the iterator that has it
                if e['op'] == 'one' and e['k'] not in t.its():
                    e['k'] = t.its()[0]
                tr = run_trace(t, [e])
                ev += tr['ev']
            return {'init': t.init, 'ev': ev}
    traces = ck.parallel(hist, ['L06-%d-%d' % (ck.seed, k) for k in range(1200 if ck.thorough else 150)])
    ck.validate('TraceLCView', traces, 'CONSTANT SC = %d\n' % SC, 'history:', chunk=60)
    ck.assumptions += ['up to 3 light cones of up to 6 halos, or of up to 4200 that are copies of them, h = 1/2, exactly representable values', 'solid angles compared to a third of a percent']
