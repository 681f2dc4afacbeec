"""Drivers for the simulation handler (spec/SimHandler.tla)."""
import json
import multiprocessing
import os
import random
import numpy as np

from core import quiet, cover_walks
import handler as hd
from handler import F, mk, rg, fx, fxs, SC, INF, H, BOX

META_DTYPE = [('index', 'i'), ('redshift', 'f'), ('redshift_min', 'f'), ('redshift_max', 'f'),
              ('time_start', 'f'), ('time_end', 'f'), ('distance_min', 'f'), ('distance_max', 'f'),
              ('transverse_distance_min', 'f'), ('transverse_distance_max', 'f')]


def slot_names():
    from simim.siminterface._sims import _acceptedsims
    return list(_acceptedsims)


def register_slots(ck):
    """One registered simulation name per worker process, prepared up front."""
    from simim._paths import _SimIMPaths
    d = os.path.join(ck.scratch, 'sims')
    os.makedirs(d, exist_ok=True)
    p = _SimIMPaths()
    for i, n in enumerate(slot_names()):
        q = os.path.join(d, 's%02d' % i)
        os.makedirs(q, exist_ok=True)
        p._newsimpath(n, new_path=q, checkoverwrite=False)


def my_slot(ck):
    ident = multiprocessing.current_process()._identity
    k = (ident[0] if ident else 0) % len(slot_names())
    n = slot_names()[k]
    return n, os.path.join(ck.scratch, 'sims', 's%02d' % k)


def write_sim(path, snaps, natives, metas=None, box=BOX, cuts=None, tile=1, h=H):
    """snaps: [(index, redshift, n)], natives: per snapshot list of columns."""
    import h5py
    f = os.path.join(path, 'data.hdf5')
    if os.path.exists(f):
        os.remove(f)
    if metas is None:
        metas = np.zeros(len(snaps), dtype=META_DTYPE)
        zs = [s[1] for s in snaps]
        for i, s in enumerate(snaps):
            below = [q for q in zs if q < s[1]]
            above = [q for q in zs if q > s[1]]
            metas[i]['index'] = s[0]
            metas[i]['redshift'] = s[1]
            metas[i]['redshift_min'] = (max(below) + s[1]) / 2 if below else 0
            metas[i]['redshift_max'] = (min(above) + s[1]) / 2 if above else s[1]
    with h5py.File(f, 'w') as fh:
        fh.attrs['cosmo_h'] = h
        fh.attrs['cosmo_omega_matter'] = 0.3
        fh.attrs['cosmo_omega_lambda'] = 0.7
        fh.attrs['cosmo_omega_baryon'] = 0.05
        fh.attrs['box_edge'] = box
        fh.attrs['number_snaps'] = len(snaps)
        fh.attrs['name'] = 'scratch'
        fh.attrs['snapshots'] = metas
    for s, nat in zip(snaps, natives):
        hd.write_catalog(f, 'Snapshot %d' % s[0], nat, s[2], tile=tile)
    if cuts is not None:
        with h5py.File(f, 'a') as fh:
            fh.attrs['cosmo_h'] = h         # write_catalog set its own
            for s, c in zip(snaps, cuts):
                g = fh['Snapshot %d' % s[0]]
                del g['mass_cuts']
                mc = np.zeros(len(c), dtype=[('min_mass', 'f'), ('index', 'i')])
                mc['min_mass'] = [x[0] for x in c]
                mc['index'] = [x[1] for x in c]
                g.create_dataset('mass_cuts', data=mc)
    return f


class Sim:
    def __init__(self, name, path, snaps, natives, pers, dfl, tile=1):
        self.name, self.path, self.tile = name, path, tile
        self.snaps = snaps
        self.file = write_sim(path, snaps, natives, tile=tile)
        self.init = {'pers': pers, 'dfl': dfl, 'sn': []}
        for s, nat in zip(snaps, natives):
            ext = [{'n': 'h', 'x': fx(H)}, {'n': 'redshift', 'x': fx(s[1])},
                   {'n': 'box_edge_h', 'x': fx(BOX)}, {'n': 'box_edge_no_h', 'x': fx(BOX / H)}]
            self.init['sn'].append({'n': s[2], 'dfl': dfl, 'ext': ext,
                                    'disk': [{'n': p['n'], 'hd': p['hd'], 'u': False, 'v': fxs(p['raw'])} for p in nat]})
        self.open(pers, dfl)

    def open(self, pers, dfl):
        from simim.siminterface import SimHandler
        self.h = SimHandler(self.name, init_snaps=pers, in_h_units=dfl)


class Facade:
    """One snapshot, as the handler-level driver wants it."""
    def __init__(self, sim, k):
        self.path, self.tile = sim.file, sim.tile
        self.group = 'Snapshot %d' % sim.snaps[k][0]
        self.h = sim.h.get_snap(sim.snaps[k][0])


def perform(t, e):
    del hd.KEPT[:]
    h = t.h
    flag = {'t': True, 'f': False, 'd': None}
    res = {'err': False, 'outs': [], 'zs': []}
    try:
        op = e['op']
        if op == 'make':
            f = e['f']
            zfail = t.snaps[e['fail'] - 1][1] if e['fail'] else None
            prop = hd.make_prop(f)
            inner = prop.prop_function
            if e['fail']:
                prop.kwargs = ['x', 'y', 'zz']

                def fun(x, y, zz, k=0):
                    if abs(zz - zfail) < 1e-6:
                        raise RuntimeError('planned failure')
                    return inner(x, y, k=k)
                prop.prop_function = fun
            defaults = [o['n'] for o in f['outs']]
            rename = None if e['names'] == defaults else list(e['names'])
            if rename is not None and len(rename) == 1 and e.get('strname'):
                rename = rename[0]
            h.make_property(prop, rename=rename, kw_remap={'x': f['x'], 'y': f['y'], 'zz': 'redshift'},
                            other_kws={'k': e['k']} if e['k'] else {}, overwrite=e['ow'], use_all_inds=e['all'],
                            write=e['write'])
        elif op == 'delete':
            h.delete_property(*e['ns'])
        elif op == 'range':
            kw = {'reset': e['reset'], 'in_h_units': flag[e['inh']]}
            if e['n']:
                kw['property_name'] = e['n']
            if e['lo'] > -INF:
                kw['pmin'] = e['lo'] / SC
            if e['hi'] < INF:
                kw['pmax'] = e['hi'] / SC
            h.set_property_range(**kw)
        elif op == 'stat':
            b = e['b']
            vals, zs = h.snap_stat(lambda x, y, k=0: np.asarray(x) + b * np.asarray(y) + k, ['x', 'y'],
                                   kw_remap={'x': e['x'], 'y': e['y']}, other_kws={'k': e['k']} if e['k'] else {},
                                   use_all_inds=e['all'], give_args_in_h_units=flag[e['inh']])
            res['outs'] = [hd.fold(v, t.tile) for v in vals]
            hd.scribble(*vals)
            res['zs'] = fxs(zs)
        elif op == 'units':
            h.set_in_h_units(e['v'])
        elif op == 'init':
            h.initialize_all_snaps(remake=e['remake'])
        elif op == 'one':
            err, out = hd.perform(Facade(t, e['k'] - 1), e['call'])
            res['err'], res['outs'] = err, [out]
        elif op == 'reopen':
            t.open(e['pers'], e['v'])
    except Exception:
        res['err'] = True
    hd.scribble(*hd.KEPT)
    return res


def run_trace(t, ops):
    ev = []
    for e in ops:
        e = dict(e)
        obs = perform(t, e)
        obs['sn'] = [hd.observe(Facade(t, k)) for k in range(len(t.snaps))]
        e['obs'] = obs
        ev.append(e)
    return {'init': t.init, 'ev': ev}


def zmk(f, fail=0, **kw):
    return dict(mk(f, **kw), fail=fail)


def one(k, call):
    return {'op': 'one', 'k': k, 'call': call}


MENU = [
    zmk(F([('b', 2, 0, 0)], 'mass', 'mass'), all=True, write=True),
    zmk(F([('b', 1, 1, -1)], 'mass', 'redshift'), all=True, write=True, ow=True),
    zmk(F([('b', 3, 0, 0)], 'mass', 'mass'), all=True, write=True, ow=True, fail=2),
    zmk(F([('a', 3, 0, 0)], 'mass', 'mass'), all=True, write=True, ow=True),
    zmk(F([('d', 1, 0, 0), ('a', 3, 0, 0)], 'mass', 'mass'), all=True, write=True, ow=True),
    zmk(F([('b', 1, 0, 0)], 'a', 'a'), write=False, ow=True),
    {'op': 'delete', 'ns': ['b']}, {'op': 'delete', 'ns': ['a']}, {'op': 'delete', 'ns': ['b', 'a']},
    rg('mass', 4 * SC, INF, True, 'd'), rg(),
    {'op': 'stat', 'x': 'mass', 'y': 'a', 'b': 1, 'k': 0, 'all': False, 'inh': 'd'},
    {'op': 'stat', 'x': 'b', 'y': 'redshift', 'b': 1, 'k': 0, 'all': True, 'inh': 't'},
    {'op': 'units', 'v': True}, {'op': 'init', 'remake': False},
    one(2, {'op': 'ret', 'n': 'mass', 'all': True, 'inh': 'd'}),
    {'op': 'reopen', 'pers': False, 'v': False},
]


def history(rng, length, nsnaps):
    g = hd.Gen(rng, dict(range=1, make=3))
    g2 = hd.Gen(rng, dict(load=1, unload=1, ret=2, range=1, stat=1, write=1, make=1))
    ops = []
    for _ in range(length):
        op = rng.choices(['make', 'delete', 'range', 'stat', 'units', 'init', 'one', 'reopen'],
                         [6, 3, 2, 2, 1, 1.5, 3, 1])[0]
        if op == 'make':
            while True:
                e = g.one()
                if e['op'] == 'make' and e['f']['x'] != 'lev1':
                    break
            e = dict(e, fail=rng.choice([0, 0, 0, 1, nsnaps]), write=rng.random() < .7)
            if rng.random() < .1:
                e['names'] = rng.sample(['a', 'w'] + g.USR, len(e['names']))
                e['ow'] = True
            e['strname'] = rng.random() < .5
            ops.append(e)
        elif op == 'delete':
            ops.append({'op': op, 'ns': [rng.choice(g.USR + ['a'] * (rng.random() < .3)) for _ in range(rng.choice([1, 1, 2]))]})
        elif op == 'range':
            while True:
                e = g.one()
                if e['op'] == 'range':
                    break
            ops.append(e)
        elif op == 'stat':
            y = rng.choice(g.NAT[:4] + ['h', 'redshift', 'box_edge', 'missing'])
            ops.append({'op': op, 'x': g.props()[0], 'y': y, 'b': rng.choice([0, 1, 3]), 'k': rng.choice([0, 1]),
                        'all': rng.random() < .4, 'inh': rng.choice('tfd')})
        elif op == 'units':
            ops.append({'op': op, 'v': rng.random() < .5})
        elif op == 'init':
            ops.append({'op': op, 'remake': rng.random() < .5})
        elif op == 'one':
            while True:
                c = g2.one()
                if c['op'] != 'make' or c['f']['x'] != 'lev1':
                    break
            ops.append(one(rng.randrange(1, nsnaps + 1), c))
        else:
            ops.append({'op': op, 'pers': rng.random() < .5, 'v': rng.random() < .5})
    return ops


def run(ck, prop):
    ck.setup_code()
    register_slots(ck)
    rng = ck.rng
    snaps = [(3, 1.0, 2), (7, 0.5, 1), (9, 0.0, 2)]
    nats = [[{'n': 'mass', 'dt': 'f4', 'hd': -1, 'raw': m}, {'n': 'a', 'dt': 'f8', 'hd': 0, 'raw': a},
             {'n': 'oid', 'dt': 'i8', 'hd': 0, 'raw': list(range(1, len(m) + 1))}]
            for m, a in (([8, 2], [1.5, 3]), ([4], [2]), ([2, 1], [5, 6]))]
    sn = 2 if not ck.thorough else 3
    snaps, nats = snaps[:sn], nats[:sn]
    init = {'pers': False, 'dfl': False, 'sn': []}
    for s, nat in zip(snaps, nats):
        ext = [{'n': 'h', 'x': fx(H)}, {'n': 'redshift', 'x': fx(s[1])},
               {'n': 'box_edge_h', 'x': fx(BOX)}, {'n': 'box_edge_no_h', 'x': fx(BOX / H)}]
        init['sn'].append({'n': s[2], 'dfl': False, 'ext': ext,
                           'disk': [{'n': p['n'], 'hd': p['hd'], 'u': False, 'v': fxs(p['raw'])} for p in nat]})
    mf = os.path.join(ck.scratch, 'menu.json')
    json.dump({'init': init, 'ops': MENU}, open(mf, 'w'))
    cfg = 'CONSTANT SC = %d\nINIT Init\nNEXT Next\nVIEW VView\nINVARIANT Inv\nPROPERTY StepProp\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n' % SC
    edges, i0 = ck.model_check('MCSimHandler', cfg, env={'MENU': mf}, dump=True)
    walks, cov, tot = cover_walks(edges, i0, 20, rng, limit=None if ck.thorough else 110)
    ck.extra['model_transitions_taken_on_code'] = [cov, tot]

    def replay(w):
        name, path = my_slot(ck)
        with quiet():
            t = Sim(name, path, snaps, nats, False, False)
            return run_trace(t, [MENU[o - 1] for o in w])
    traces = ck.parallel(replay, walks)
    ck.validate('TraceSimHandler', traces, 'CONSTANT SC = %d\n' % SC, 'walk:', chunk=60)

    def hist(job):
        seed, ns, pers, dfl, length = job
        r = random.Random(seed)
        name, path = my_slot(ck)
        idx = r.sample(range(r.choice([ns, ns + 1, 20])), ns)
        zs = r.sample([0, .25, .5, 1, 1.5, 2], ns)
        sn = [(idx[i], zs[i], r.choice([1, 2, 4])) for i in range(ns)]
        na = [hd.natives_for(r, s[2]) for s in sn]
        with quiet():
            t = Sim(name, path, sn, na, pers, dfl, r.choice([1] * 9 + [30, 700]))
            return run_trace(t, history(r, length, ns))
    jobs = [('S01-%d-%d' % (ck.seed, k), rng.choice([1, 2, 3]), rng.random() < .5, rng.random() < .5, rng.choice([8, 14]))
            for k in range(900 if ck.thorough else 110)]
    traces = ck.parallel(hist, jobs)
    ck.validate('TraceSimHandler', traces, 'CONSTANT SC = %d\n' % SC, 'history:', chunk=60)
    ck.assumptions += ['simulations of up to 3 snapshots with up to 4 halos (or up to 2800 that are copies of them), h = 1/2, exactly representable values',
                       'planned failures are property functions that raise on one snapshot']
