"""Driver for gridding catalogues (spec/HandGrid.tla)."""
import json
import os
import random
import numpy as np

from core import quiet, cover_walks
import handler as hd
import simhandler as sh
import lcview
from handler import F, mk, rg, fx, fxs, SC, INF, BOX, H

U, OS = 6400, 16384
# 64 + m is a prime: frequencies of these redshifts fall on no edge
ZS = [p - 64 for p in (67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191)]


def others(r, n):
    def vals(k):
        return [r.randrange(1, k) for _ in range(n)]
    return [
        {'n': 'mass', 'dt': 'f4', 'hd': -1, 'raw': vals(20)},
        {'n': 'a', 'dt': 'f8', 'hd': 0, 'raw': [v / 2 for v in vals(40)]},
        {'n': 'p', 'dt': 'f4', 'hd': 1, 'raw': vals(20)},
        {'n': 'c', 'dt': 'i4', 'hd': 0, 'raw': vals(20)},
        {'n': 'oid', 'dt': 'i8', 'hd': 0, 'raw': list(range(1, n + 1))},
    ]


def clustered(r, n, spread):
    """Coordinates with repeats."""
    pool = [spread() for _ in range(max(1, n // 2))]
    return [r.choice(pool + [spread()]) for _ in range(n)]


def snap_natives(r, n):
    box = lambda: r.randrange(0, int(BOX) * 4) / 4 + .125
    spots = clustered(r, n, lambda: (box(), box(), box()))
    return others(r, n) + [{'n': 'pos_' + x, 'dt': r.choice(['f4', 'f8']), 'hd': -1, 'raw': [s[k] for s in spots]} for k, x in enumerate('xyz')]


def cone_natives(r, n, geo):
    w, v = geo['w'] / SC, geo['w'] * geo['asp'] / 16 / SC
    zs = [m for m in ZS if geo['zmin'] <= m <= geo['zmax']]
    at = lambda t: (r.randrange(-int(t * 4) // 2 - 2, int(t * 4) // 2 + 2) + .5) / 4
    spots = clustered(r, n, lambda: (at(w), at(v), r.choice(zs) / SC))
    return others(r, n) + [{'n': x, 'dt': 'f8', 'hd': 0, 'raw': [s[k] for s in spots]} for k, x in enumerate(('ra', 'dec', 'redshift'))]


class Cone:
    """One light cone, as the handler-level driver wants it."""

    tile = 1

    def __init__(self, ck, natives, n, dfl, geo):
        g = {'shape': geo['shape'], 'a': geo['w'] * 1024 // SC, 'asp': geo['asp'], 'zmin': geo['zmin'], 'zmax': geo['zmax']}
        self.lcs = lcview.LCs(ck, [g], [natives], [0], [1], dfl)
        self.init = self.lcs.init['lc'][0]
        self.open(dfl)

    def open(self, dfl):
        from simim.lightcone import LCHandler
        self.h = LCHandler(self.lcs.sim, 'set', 0, in_h_units=dfl)
        self.path, self.group = self.lcs.paths[0], 'Lightcone Full'


def look(g):
    """A grid: its axes, and what is in its cells."""
    axes = []
    for a in g.axes:
        a = np.asarray(a, dtype=float) * U
        px = (a[-1] - a[0]) / (len(a) - 1)
        uniform = np.allclose(a, a[0] + px * np.arange(len(a)), atol=1e-4)
        whole = lambda x: int(round(x)) if abs(x - round(x)) < 1e-3 and uniform else -999999
        axes.append({'lo': whole(a[0]), 'px': whole(px), 'n': len(a) - 1})
    cells = []
    v = np.asarray(g.grid)
    if v.shape != tuple(a['n'] for a in axes) + (g.n_properties,):
        cells.append([-1, -1, -1, -1, 0])
    for ix in np.argwhere((v != 0) | np.isnan(v))[:400]:
        x = float(np.real(v[tuple(ix)]))
        if x != x:
            y = hd.NAN
        else:
            y = round(x * OS)
            y = int(y) if abs(x * OS - y) < 1e-4 and abs(y) < 2**30 else hd.INEXACT
        cells.append([int(i) for i in ix] + [y])
    return {'axes': axes, 'np': int(g.n_properties), 'nobj': int(g.n_objects), 'cells': cells}


def grid_call(t, e, cone):
    scale = lambda q: [x / U for x in q]
    kw = {}
    if e['inh'] != 'd' or e['spell']:
        kw['in_h_units'] = hd_flag(e['inh'])
    if e['all'] or e['spell']:
        kw['use_all_inds'] = e['all']
    if e['res']:
        q = scale(e['res'])
        kw['res'] = q[0] if len(q) == 1 and not e['spell'] else np.array(q) if e['array'] else q
    for name, q in zip(('ralim', 'declim', 'zlim') if cone else ('xlim', 'ylim', 'zlim'), e['lims']):
        if q:
            kw[name] = np.array(scale(q)) if e['array'] else tuple(scale(q)) if not e['spell'] else scale(q)
    if e['norm'] == 'vol':
        kw['norm'] = 'cell_volume'
    elif e['norm'] == 'by':
        kw['norm'] = e['num'] / e['den']
    elif e['norm'] == 'bad':
        kw['norm'] = 'cell'
    if e['rf']:
        kw['restfreq'] = float(e['rf'])
    kept = {k: np.copy(v) if isinstance(v, (list, tuple, np.ndarray)) else v for k, v in kw.items()}
    try:
        g = t.h.grid(*e['ps'], **kw)
        out = [look(g)]
        hd.scribble(g.grid, *[a for a in g.axes])
        err = False
    except Exception:
        out, err = [], True
    same = kept.keys() == kw.keys() and all(np.array_equal(kept[k], kw[k]) for k in kw)
    return err, out, same


def hd_flag(x):
    return {'t': True, 'f': False, 'd': None}[x]


def run_trace(t, ops, geo):
    ev = []
    for e in ops:
        e = json.loads(json.dumps(e))
        grid, same, out = [], True, []
        if e['op'] == 'grid':
            err, grid, same = grid_call(t, e, geo['kind'] == 'cone')
        else:
            err, out = hd.perform(t, e)
        obs = hd.observe(t)
        obs['disk'] = [d for d in obs['disk'] if d['n'] != 'LOST mass_cuts']
        obs.update(err=err, out=out, grid=grid, argsame=bool(same))
        e['obs'] = obs
        ev.append(e)
    return {'init': t.init, 'geo': geo, 'ev': ev}


def G(ps, inh='d', all=False, res=(), lims=((), (), ()), norm='none', num=1, den=1, rf=0, spell=False, array=False):
    return {'op': 'grid', 'ps': list(ps), 'inh': inh, 'all': all, 'res': [int(x) for x in res], 'lims': [list(q) for q in lims],
            'norm': norm, 'num': num, 'den': den, 'rf': rf, 'spell': spell, 'array': array}


SNAP = {'kind': 'snap', 'boxh': fx(BOX), 'box': fx(BOX / H)}


def random_grid(r, geo):
    cone = geo['kind'] == 'cone'
    ps = [r.choice(['mass', 'a', 'p', 'c', 'b1', 'b2', 'b1', 'oid'] + (['redshift'] if cone else ['pos_x'])) for _ in range(r.choice([1, 1, 2, 3]))]
    if r.random() < .05:
        ps.append('missing')
    sizes = [U // 2, U, 2 * U, 4 * U]
    rf = r.choice([0, 0, 64, 32]) if cone else 0
    lims = []
    for k in range(3):
        if r.random() < .5 and not (cone and k < 2 and geo['shape'] not in ('box', 'circle')):
            lims.append([])
            continue
        m = 4 if cone else 16
        lo = r.randrange(-2 if not cone else -m, m - 2) * U // 2
        hi = lo + r.choice([1, 2, 4, 7, 10, 20]) * U // 2
        if cone and k == 2:
            lo = r.choice([0, 1, 2, 4]) * U // 4
            hi = lo + r.choice([1, 2, 3, 8]) * U // 4
            if rf:
                lo = r.choice([8, 10, 16, 20]) * U
                hi = lo + r.choice([4, 8, 20, 40]) * U
        q = [lo, hi]
        if r.random() < .2:
            q = q[::-1]
        if r.random() < .03:
            q = q[:1]
        lims.append(q)
    norm, num, den = r.choice([('none', 1, 1), ('none', 1, 1), ('by', 3, 1), ('by', 1, 4), ('by', -5, 2), ('by', 0, 1), ('vol', 1, 1), ('vol', 1, 1), ('bad', 1, 1)])
    k = r.random()
    if k < .35:
        res = [r.choice(sizes)]
    elif k < .85:
        res = [r.choice(sizes) for _ in range(3)]
        if cone and rf == 0:
            res[2] = r.choice([U // 4, U // 2, U // 16, U])
    elif k < .89:
        res = [U, U]
    else:
        res = []
        if norm == 'vol':
            norm = 'none'       # not exact
        if cone:
            # a hundredth of these is a whole number of 1/U
            lims = [q if not q or k == 2 and not rf else [] for k, q in enumerate(lims)]
            if geo['shape'] not in ('box', 'circle'):
                lims[:2] = [[-U, U], [-2 * U, 2 * U]]
            if rf:
                lims[2] = [8 * U, 40 * U]
        else:
            # with a hundredth no edge falls on an odd eighth
            lims = [q and [0, 8 * U] for q in lims]
    if norm == 'vol' and res and len(set(res)) and any(x not in (U // 16, U // 4, U // 2, U, 2 * U, 4 * U) for x in res):
        norm = 'none'
    if len(res) == 1 and cone and not rf and not lims[2]:
        res = [res[0] if res[0] <= U else U]
    return G(ps, r.choice('tfd'), r.random() < .35, res, lims, norm, num, den, rf, r.random() < .5, r.random() < .3)


class Gen(hd.Gen):
    NAT = ['mass', 'a', 'p', 'c']
    USR = ['b1', 'b2', 'b3']


def history(r, length, geo):
    g = Gen(r, dict(range=3, make=2, write=.7, delete=.5, load=.7, unload=.7, units=1.2, reopen=.4))
    ops = []
    while len(ops) < length:
        if r.random() < .5:
            ops.append(random_grid(r, geo))
            continue
        c = g.one()
        if c['op'] == 'make':
            f, self_names = c['f'], Gen.USR
            if f['x'] == 'lev1':
                continue
            if f['y'] in ('w', 'redshift', 'box_edge', 'box_edge_h', 'box_edge_no_h'):
                f['y'] = 'h'
            if any(n not in self_names for n in c['names']):
                c['names'] = self_names[:len(c['names'])]
        if c['op'] == 'delete' and r.random() < .1:
            c['ns'] = [r.choice(['pos_y', 'dec', 'redshift'])]
        if c['op'] == 'range' and c['n'] and r.random() < .4:
            c['n'] = r.choice(['pos_x', 'pos_z']) if geo['kind'] == 'snap' else r.choice(['ra', 'redshift'])
            c['lo'] = r.choice([-INF, c['lo'] // 4])
            c['hi'] = r.choice([INF, c['hi'] // 4])
        ops.append(c)
    return ops


def geometry(r):
    zmin = r.choice([0, 0, 64])
    return {'kind': 'cone', 'shape': r.choice(['box', 'box', 'box', 'circle', 'sphere']), 'w': r.choice([2, 4, 8]) * SC, 'asp': r.choice([16, 8, 4]),
            'zmin': zmin, 'zmax': zmin + r.choice([64, 128]) if zmin == 0 else 192}


def whole_freq(geo):
    return all(64 * SC % (SC + geo[k]) == 0 for k in ('zmin', 'zmax'))


CFG = 'CONSTANT SC = %d\n' % SC


def run(ck, prop):
    ck.setup_code()
    sh.register_slots(ck)
    lcview.remember_distances()
    # every transition of a small model, on a snapshot and on a light cone
    mass = {'n': 'mass', 'dt': 'f4', 'hd': -1, 'raw': [8, 4, 2]}
    oid = {'n': 'oid', 'dt': 'i8', 'hd': 0, 'raw': [1, 2, 3]}
    pos = [{'n': 'pos_' + x, 'dt': 'f4', 'hd': -1, 'raw': v} for x, v in zip('xyz', ([.125, 7.875, .375], [3.375, 4.125, 3.625], [1.125, 2.875, 1.375]))]
    sky = [{'n': x, 'dt': 'f8', 'hd': 0, 'raw': v} for x, v in zip(('ra', 'dec', 'redshift'), ([-3.875, 3.625, -3.625], [.125, 1.875, .375], [ZS[2] / SC, ZS[-4] / SC, ZS[2] / SC]))]
    cone = {'kind': 'cone', 'shape': 'box', 'w': 8 * SC, 'asp': 8, 'zmin': 0, 'zmax': 192}
    base = [rg(), rg('mass', 3 * SC, INF, True, 't'), rg('mass', -INF, 6 * SC, False, 't'), rg('mass', 100 * SC, INF, False, 't'),
            mk(F([('b', 2, 0, -1)], 'mass', 'mass'), ow=True, all=True), mk(F([('b', 1, 0, 0)], 'mass', 'mass'), ow=True),
            {'op': 'delete', 'ns': ['b']}, {'op': 'units', 'v': True}, {'op': 'units', 'v': False}, {'op': 'reopen', 'v': True},
            {'op': 'write', 'ns': ['b'], 'ow': True}, {'op': 'unload', 'ns': ['b']}]
    for geo, nat in ((SNAP, [mass, oid] + pos), (cone, [mass, oid] + sky)):
        third = [2 * U, 2 * U, U] if geo['kind'] == 'cone' else [2 * U]
        menu = base + [
            G(['mass'], res=third), G(['mass'], 't', True, third), G(['b', 'mass'], 'f', False, third), G(['mass', 'b'], 't', False, third, norm='by', num=1, den=4),
            G(['mass'], res=third, norm='vol'), G(['mass'], 't', False, third, lims=((4 * U, 0), (), ())),
            G(['mass'], res=third, lims=((U,), (), ())), G(['oid', 'mass', 'oid'], 'd', True, third),
            G(['mass'], 't', True, [U, 2 * U, 16 * U] if geo['kind'] == 'cone' else [], rf=64 if geo['kind'] == 'cone' else 0)]
        init = {'n': 3, 'dfl': False, 'ext': hd.Snap.ext if geo is SNAP else [{'n': 'h', 'x': fx(H)}],
                'disk': [{'n': p['n'], 'hd': p['hd'], 'u': False, 'v': fxs(p['raw'])} for p in nat]}
        mf = os.path.join(ck.scratch, 'menu_%s.json' % geo['kind'])
        json.dump({'init': init, 'geo': geo, 'ops': menu}, open(mf, 'w'))
        cfg = CFG + 'INIT Init\nNEXT Next\nVIEW View\nINVARIANT Inv\nPROPERTY StepProp\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
        edges, i0 = ck.model_check('MCHandGrid', cfg, env={'MENU': mf}, dump=True)
        walks, cov, tot = cover_walks(edges, i0, 25, ck.rng, limit=None if ck.thorough else 60)
        ck.extra['model_transitions_taken_on_code_' + geo['kind']] = [cov, tot]

        def replay(w):
            with quiet():
                t = target(ck, geo, nat, 3, False)
                return run_trace(t, [menu[o - 1] for o in w], geo)
        traces = ck.parallel(replay, walks)
        ck.validate('TraceHandGrid', traces, CFG, 'walk:', chunk=40)

    def hist(seed):
        r = random.Random(seed)
        n = r.choice([0, 1, 3, 6, 9])
        geo = SNAP if r.random() < .5 else geometry(r)
        nat = snap_natives(r, n) if geo is SNAP else cone_natives(r, n, geo)
        ops = history(r, r.choice([8, 14]), geo)
        if not (geo is SNAP or whole_freq(geo)):
            for e in ops:
                if e['op'] == 'grid' and e['rf'] and not e['lims'][2]:
                    e['lims'][2] = [16 * U, 64 * U]
        with quiet():
            return run_trace(target(ck, geo, nat, n, r.random() < .5), ops, geo)
    traces = ck.parallel(hist, ['G07-%d-%d' % (ck.seed, k) for k in range(1600 if ck.thorough else 200)])
    ck.validate('TraceHandGrid', traces, CFG, 'history:', chunk=60)
    ck.assumptions += ['catalogues of up to 9 halos with h = 1/2, exactly representable values, positions inside cells',
                       'at least one property is asked for']


def target(ck, geo, nat, n, dfl):
    if geo['kind'] == 'snap':
        return hd.Snap(os.path.join(ck.scratch, 'grid_%d.hdf5' % os.getpid()), nat, n, dfl)
    return Cone(ck, nat, n, dfl, geo)
