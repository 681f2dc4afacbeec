"""Drivers for the catalogue handler (spec/Handler.tla)."""
import os
import itertools
import json
import random
import numpy as np

from core import quiet

SC = 64
NAN = 1999999999
INEXACT = -77777
INF = 10**9
H = 0.5


def fx(v):
    """float -> fixed point"""
    v = float(v)
    if v != v:
        return NAN
    x = v * SC
    r = round(x) if abs(x) < 1e15 else 10**15
    if abs(x - r) > 1e-6 or abs(r) > 2**30:
        return INEXACT
    return int(r)


def fxs(a):
    return [fx(v) for v in np.asarray(a).ravel()]


def fold(a, tile):
    """Of a catalogue that is `tile' copies of a small one: what every copy has, or a marker where they differ."""
    a = np.asarray(a).ravel()
    if tile == 1 or (a.size == 1 and np.ndim(a) == 0):
        return fxs(a)
    if a.size % tile:
        return [INEXACT] * 3
    b = a.reshape(tile, -1)
    f = np.asarray(b, dtype=float)
    if not np.array_equal(f, np.broadcast_to(f[:1], f.shape), equal_nan=True):
        return [INEXACT] * 3
    return fxs(b[0])


def cosmo():
    from astropy.cosmology import FlatLambdaCDM
    return FlatLambdaCDM(H0=50, Om0=0.3, Ob0=0.05, Tcmb0=2.7255)


BOX = 8.0
REDSHIFT = 1.0


def write_catalog(path, group, natives, n, extra_attrs=None, tile=1):
    import h5py
    with h5py.File(path, 'a') as f:
        f.attrs['cosmo_h'] = H
        for k, v in (extra_attrs or {}).items():
            f.attrs[k] = v
        g = f.create_group(group)
        mc = np.zeros(3, dtype=[('min_mass', 'f'), ('index', 'i')])
        mc['min_mass'] = [1e20, 1e10, 1e6]
        g.create_dataset('mass_cuts', data=mc)
        for p in natives:
            g.create_dataset(p['n'], data=np.tile(np.array(p['raw'], dtype=p['dt']), tile))
            g[p['n']].attrs['units'] = 'u_' + p['n']
            g[p['n']].attrs['h dependence'] = p['hd']


def natives_for(rng, n):
    """Native content: float and integer columns with several h dependences."""
    def vals(k):
        return [rng.randrange(1, k) for _ in range(n)]
    return [
        {'n': 'mass', 'dt': 'f4', 'hd': -1, 'raw': sorted(vals(40), reverse=True)},
        {'n': 'a', 'dt': 'f8', 'hd': 0, 'raw': [v / 2 for v in vals(40)]},
        {'n': 'p', 'dt': 'f4', 'hd': 1, 'raw': vals(20)},
        {'n': 'w', 'dt': 'f8', 'hd': 2, 'raw': [4 * v for v in vals(8)]},
        {'n': 'c', 'dt': 'i4', 'hd': 0, 'raw': vals(20)},
        {'n': 'oid', 'dt': 'i8', 'hd': 0, 'raw': list(range(1, n + 1))},
    ]


KEPT = []


def scribble(*arrays):
    """What the user does with arrays once the code has handed them out is no business of the catalogue's."""
    for a in arrays:
        if isinstance(a, np.ndarray) and a.size and a.flags.writeable:
            a[...] = -7


class Snap:
    """A real snapshot handler on a scratch catalogue."""
    ext = [{'n': 'h', 'x': fx(H)}, {'n': 'redshift', 'x': fx(REDSHIFT)},
           {'n': 'box_edge_h', 'x': fx(BOX)}, {'n': 'box_edge_no_h', 'x': fx(BOX / H)}]
    group = 'Snapshot 0'

    def __init__(self, path, natives, n, dfl, tile=1):
        self.path, self.tile = path, tile
        if os.path.exists(path):
            os.remove(path)
        write_catalog(path, self.group, natives, n, tile=tile)
        self.cosmo = cosmo()
        self.natives, self.n = natives, n
        self.init = {'n': n, 'dfl': dfl, 'ext': self.ext,
                     'disk': [{'n': p['n'], 'hd': p['hd'], 'u': False, 'v': fxs(p['raw'])} for p in natives]}
        self.open(dfl)

    def open(self, dfl):
        from simim.siminterface.simhandler import SnapHandler
        self.h = SnapHandler(self.path, 0, REDSHIFT, self.cosmo, BOX, in_h_units=dfl)


def make_fun(f, k):
    """The real function behind a descriptor."""
    def fun(x, y, k=0):
        outs = []
        for o in f['outs']:
            if o['a'] == 1 and o['b'] == 0 and k == 0:
                v = np.asarray(x)      # the argument itself
            else:
                v = o['a'] * np.asarray(x) + o['b'] * np.asarray(y) + k
            outs.append(v)
        KEPT.extend([x, y] + outs)     # the function still has its arrays later on
        if len(outs) == 1 and not f.get('listret'):
            return outs[0]
        return outs
    return fun


def make_prop(f):
    from simim.galprops import Prop, MultiProp
    fun = make_fun(f, 0)
    hds = [o['hd'] for o in f['outs']]
    names = [o['n'] for o in f['outs']]
    if f.get('cls') == 'prop':
        return Prop(names[0], fun, ['x', 'y'], give_args_in_h_units=f['giveh'],
                    function_return_in_h_units=f['reth'], units='U', h_dependence=hds[0])
    if f.get('shared'):
        hds = hds[:1]
    return MultiProp(names, fun, ['x', 'y'], give_args_in_h_units=f['giveh'],
                     function_return_in_h_units=f['reth'],
                     units=['U'] if f.get('shared') else ['U%d' % i for i in range(len(names))],
                     h_dependence=hds, wrap=not f.get('listret'))


def perform(t, e):
    """One public call. Returns (failed, output)."""
    h = t.h
    flag = {'t': True, 'f': False, 'd': None}
    try:
        op = e['op']
        out = []
        if op == 'load':
            h.load_property(*e['ns'])
        elif op == 'unload':
            h.unload_property(*e['ns'])
        elif op == 'write':
            h.write_property(*e['ns'], overwrite=e['ow'], dtype=e.get('dtype'))
        elif op == 'delete':
            h.delete_property(*e['ns'])
        elif op == 'ret':
            r = h.return_property(e['n'], use_all_inds=e['all'], in_h_units=flag[e['inh']])
            out = fold(r, t.tile)
            scribble(r)
        elif op == 'make':
            f = e['f']
            defaults = [o['n'] for o in f['outs']]
            rename = None if e['names'] == defaults and not e.get('forcerename') else list(e['names'])
            if rename is not None and len(rename) == 1 and e.get('strname'):
                rename = rename[0]
            h.make_property(make_prop(f), rename=rename, kw_remap={'x': f['x'], 'y': f['y']},
                            other_kws={'k': e['k']} if e['k'] else {}, overwrite=e['ow'], use_all_inds=e['all'],
                            write_to_disk=e['write'], overwrite_to_disk=e['owd'],
                            dtype_to_disk=e.get('dtype'), unload_to_disk=e['unl'])
        elif op == 'range':
            kw = {'reset': e['reset'], 'in_h_units': flag[e['inh']]}
            if e['n']:
                kw['property_name'] = e['n']
            if e['lo'] > -INF:
                kw['pmin'] = e['lo'] / SC
            if e['hi'] < INF:
                kw['pmax'] = e['hi'] / SC
            h.set_property_range(**kw)
        elif op == 'stat':
            b, one = e['b'], 1
            def stat(x, y, k=0):
                v = one * np.asarray(x) + b * np.asarray(y) + k
                scribble(x, y)
                return v
            r = h.eval_stat(stat, ['x', 'y'],
                            kw_remap={'x': e['x'], 'y': e['y']}, other_kws={'k': e['k']} if e['k'] else {},
                            use_all_inds=e['all'], give_args_in_h_units=flag[e['inh']])
            out = fold(r, t.tile)
        elif op in ('plot', 'hist'):
            out = picture(t, e)
        elif op == 'units':
            h.set_in_h_units(e['v'])
        elif op == 'reopen':
            t.open(e['v'])
        else:
            raise RuntimeError(op)
        return False, out
    except Exception as ex:
        return True, []
    finally:
        scribble(*KEPT)
        del KEPT[:]


class Pictures:
    """What is drawn in the meantime"""
    def __enter__(self):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        from matplotlib.backends.backend_agg import FigureCanvasAgg as F
        plt.close('all')
        self.plt, self.F, self.old = plt, F, F.draw
        F.draw = lambda c, *a, **k: setattr(c, 'renderer', c.get_renderer())        # nobody looks at the pixels
        return self

    def figures(self):
        return [self.plt.figure(k) for k in self.plt.get_fignums()]

    def __exit__(self, *a):
        self.plt.close('all')
        self.F.draw = self.old


def picture(t, e):
    """A plot or a histogram: what the artists on the axes hold"""
    h = t.h
    rng = random.Random(repr(sorted((k, v) for k, v in e.items() if k != 'obs')))
    pkw, akw = {}, {}
    kw = {'use_all_inds': {'all': True, 'act': False, 'cmp': 'compare'}[e['all']],
          'in_h_units': {'t': True, 'f': False, 'd': None}[e['inh']]}
    if rng.random() < .4:
        kw = {k: v for k, v in kw.items() if v is not None and (k, v) != ('use_all_inds', False)}
    if rng.random() < .5:
        akw = {'xlabel': 'some label', 'xlim': (0, 100)}
    if e['op'] == 'plot':
        pkw = rng.choice([{}, {'ms': 3}, {'ls': '-'}, {'linestyle': '--', 'marker': 'x'}, {'alpha': .5, 'marker': 's'}])
    else:
        ed = [(x + .5) / SC for x in e['edges']] if e['log'] else [x / SC for x in e['edges']]
        pkw = {'bins': np.log10(ed) if e['log'] else ed}
        pkw.update(rng.choice([{}, {'alpha': .5}, {'histtype': 'bar', 'lw': 2}]))
        if e['log'] or rng.random() < .3:
            kw['logtransform'] = e['log']
    if pkw or rng.random() < .3:
        kw['plotkws'] = dict(pkw)
    if akw or rng.random() < .3:
        kw['axkws'] = dict(akw)
    if rng.random() < .1:
        kw['save'] = t.path + '.png'
    given = {k: (kw[k], dict(kw[k])) for k in ('plotkws', 'axkws') if k in kw}
    same = lambda: all(a.keys() == b.keys() and all(a[k] is b[k] for k in a) for a, b in given.values())
    with Pictures() as P:
        try:
            if e['op'] == 'plot':
                h.plot(e['x'], *e['ns'], **kw)
            else:
                h.hist(*e['ns'], **kw)
        except Exception:
            e['pic'] = same()
            raise
        figs = [f for f in P.figures()]
        ok = len(figs) == 1 and len(figs[0].axes) == 1 and same()
        if 'save' in kw:
            ok = ok and os.path.exists(kw['save']) and os.path.getsize(kw['save']) > 0
            os.remove(kw['save'])
        out = []
        if ok:
            ax = figs[0].axes[0]
            if akw:
                ok = ax.get_xlabel() == akw['xlabel'] and tuple(ax.get_xlim()) == akw['xlim']
            name = lambda x: '' if str(x).startswith('_') else str(x)
            if e['op'] == 'plot':
                for l in ax.get_lines():
                    out.append({'lab': name(l.get_label()), 'x': fold(l.get_xdata(), t.tile), 'y': fold(l.get_ydata(), t.tile)})
                    for a, b in pkw.items():
                        a = {'ms': 'markersize', 'ls': 'linestyle'}.get(a, a)
                        ok = ok and getattr(l, 'get_' + a)() == b
                    if not {'ls', 'linestyle'} & set(pkw):      # a scatter plot
                        ok = ok and l.get_linestyle() in ('None', '', ' ', 'none')
                    ok = ok and l.get_marker() not in ('None', '', None)
            else:
                for c in ax.containers:
                    n = [int(r.get_height()) for r in c.patches]
                    ok = ok and all(x % t.tile == 0 for x in n) and all(r.get_height() == int(r.get_height()) for r in c.patches)
                    left = [r.get_x() for r in c.patches] + [c.patches[-1].get_x() + c.patches[-1].get_width()]
                    ok = ok and np.allclose(left, pkw['bins'])
                    out.append({'lab': name(c.get_label()) or name(c.patches[0].get_label()), 'n': [x // t.tile for x in n]})
            leg = ax.get_legend()
            if len(e['ns']) > 1:
                ok = ok and leg is not None and [x.get_text() for x in leg.get_texts()] == list(e['ns'])
        e['pic'] = ok
    return out


def observe(t):
    import h5py
    h = t.h
    o = {}
    for key, kind in (('any', 'any'), ('saved', 'saved'), ('loaded', 'loaded'), ('gen', 'generated')):
        o[key] = sorted(str(x) for x in h.extract_keys(kind))
    o['nact'] = int(h.nhalos_active) // t.tile if h.nhalos_active % t.tile == 0 else -1
    try:
        o['act'] = [x // SC for x in fold(h.return_property('oid', in_h_units=True), t.tile)]
    except Exception:
        o['act'] = [-1]
    o['vals'] = []
    for n in sorted(set(o['any'])):
        d = {'n': n}
        for k, kw in (('vh', {'use_all_inds': True, 'in_h_units': True}),
                      ('vn', {'use_all_inds': True, 'in_h_units': False}), ('va', {})):
            try:
                r = h.return_property(n, **kw)
                d[k] = [INEXACT] if r is None else fold(r, t.tile)
                scribble(r)
            except Exception:
                d[k] = [INEXACT, INEXACT]
        o['vals'].append(d)
    o['disk'] = []
    with h5py.File(t.path, 'r') as f:
        g = f[t.group]
        for n in g.keys():
            if n == 'mass_cuts':
                continue
            o['disk'].append({'n': n, 'v': fold(g[n][:], t.tile), 'hd': int(g[n].attrs.get('h dependence', 99)),
                              'u': bool(g[n].attrs.get('userdefined', False))})
        if 'mass_cuts' not in g:
            o['disk'].append({'n': 'LOST mass_cuts', 'v': [], 'hd': 0, 'u': False})
    return o


def run_trace(t, ops):
    ev = []
    for e in ops:
        e = dict(e)
        err, out = perform(t, e)
        obs = observe(t)
        obs['err'], obs['out'], obs['pic'] = err, out, e.pop('pic', True)
        e['obs'] = obs
        ev.append(e)
    return {'init': t.init, 'ev': ev}


# ---------------------------------------------------------------- generators
def F(outs, x, y='a', giveh=False, reth=False, **kw):
    return dict({'outs': [{'n': n, 'a': a, 'b': b, 'hd': hd} for n, a, b, hd in outs],
                 'x': x, 'y': y, 'giveh': giveh, 'reth': reth}, **kw)


def mk(f, names=None, k=0, ow=False, all=False, write=False, owd=False, unl=False, **kw):
    return dict({'op': 'make', 'f': f, 'names': names or [o['n'] for o in f['outs']], 'k': k, 'ow': ow,
                 'all': all, 'write': write, 'owd': owd, 'unl': unl}, **kw)


def rg(n='', lo=-INF, hi=INF, reset=True, inh='d'):
    return {'op': 'range', 'n': n, 'lo': lo, 'hi': hi, 'reset': reset, 'inh': inh}


class Gen:
    """Seeded random histories. Names have a level, so that values stay exact."""
    NAT = ['mass', 'a', 'p', 'w', 'c']
    USR = ['b1', 'b2', 'b3', 'b4']

    def __init__(self, rng, weights):
        self.rng, self.weights = rng, weights

    def props(self, k=1):
        rng = self.rng
        return [rng.choice(self.NAT + self.USR) for _ in range(k)]

    def fun(self, units):
        rng = self.rng
        m = rng.choice([1, 1, 1, 2, 3])
        outs = []
        names = rng.sample(self.USR, m)
        for n in names:
            outs.append((n, rng.choice([1, 1, 2]), rng.choice([0, 1]), rng.choice([-1, 0, 0, 1]) if units else 0))
        kw = {}
        if m == 1:
            kw['cls'] = rng.choice(['prop', 'multi'])
            if kw['cls'] == 'multi' and rng.random() < .3:
                kw['listret'] = True
        elif rng.random() < .25:
            hd0 = outs[0][3]
            outs = [(a, b, c, hd0) for a, b, c, _ in outs]
            kw['shared'] = True
        y = rng.choice(self.NAT[:4] + (['h', 'redshift', 'box_edge', 'box_edge_h'] if units else []))
        x = rng.choice(self.NAT + ['missing'] * (rng.random() < .3))
        if rng.random() < .25:
            x = rng.choice(['lev1'])       # a user property made from natives (level 1)
        return F(outs, x, y, giveh=rng.random() < .4 if units else True, reth=rng.random() < .4 if units else True, **kw)

    def one(self):
        rng = self.rng
        op = rng.choices(list(self.weights), list(self.weights.values()))[0]
        units = self.weights.get('units', 0) > 0
        if op in ('load', 'unload'):
            return {'op': op, 'ns': self.props(rng.choice([1, 1, 2]))}
        if op == 'write':
            return {'op': op, 'ns': self.props(rng.choice([1, 1, 2])), 'ow': rng.random() < .5}
        if op == 'delete':
            return {'op': op, 'ns': [rng.choice(self.USR + ['c', 'p'] * (rng.random() < .3)) for _ in range(rng.choice([1, 1, 2]))]}
        if op == 'ret':
            return {'op': op, 'n': self.props()[0], 'all': rng.random() < .5, 'inh': rng.choice('tfd')}
        if op == 'make':
            f = self.fun(units)
            names = [o['n'] for o in f['outs']]
            ren = rng.random()
            if ren < .3:
                names = rng.sample(self.USR, len(names))
            elif ren < .36:
                names = names + ['b9']
            elif ren < .42:
                names = rng.sample(['p', 'c'] + self.USR, len(names))
            wr = rng.random() < .3
            return mk(f, names, k=rng.choice([0, 0, 2]), ow=rng.random() < .4, all=rng.random() < .6, write=wr,
                      owd=wr and rng.random() < .6, unl=wr and rng.random() < .5, strname=rng.random() < .5,
                      forcerename=rng.random() < .2)
        if op == 'range':
            if rng.random() < .12:
                return rg()
            n = self.props()[0]
            lo = rng.choice([-INF, rng.randrange(0, 40) * SC // 2])
            hi = rng.choice([INF, rng.randrange(0, 80) * SC // 2])
            return rg(n, lo, hi, rng.random() < .5, rng.choice('tfd'))
        if op == 'stat':
            y = rng.choice(self.NAT[:4] + ['h', 'redshift', 'box_edge', 'box_edge_no_h', 'missing'])
            return {'op': op, 'x': self.props()[0], 'y': y, 'b': rng.choice([0, 1, 3]), 'k': rng.choice([0, 1]),
                    'all': rng.random() < .4, 'inh': rng.choice('tfd')}
        if op == 'units' or op == 'reopen':
            return {'op': op, 'v': rng.random() < .5}
        if op == 'plot':
            names = self.NAT * 3 + self.USR + ['missing'] * (rng.random() < .3)
            return {'op': op, 'x': rng.choice(names), 'ns': [rng.choice(names) for _ in range(rng.choice([1, 1, 1, 2, 3, 0]))],
                    'all': rng.choice(['all', 'act', 'cmp']), 'inh': rng.choice('tfd')}
        if op == 'hist':
            names = self.NAT * 3 + self.USR + ['missing'] * (rng.random() < .3)
            k = rng.choice([1, 2, 3, 6, 12])
            if rng.random() < .4:
                edges = sorted(rng.sample(range(0, 80 * SC, SC // 2), k + 1))
            else:
                w = rng.choice([1, 2, 5, 10]) * SC // 2
                edges = [i * w for i in range(k + 1)]
            log = rng.random() < .35
            return {'op': op, 'ns': [rng.choice(names) for _ in range(rng.choice([1, 1, 1, 2, 3, 0]))], 'log': log, 'edges': edges,
                    'all': rng.choice(['all', 'act']), 'inh': rng.choice('tfd')}
        raise RuntimeError(op)

    def history(self, length):
        ops = []
        lev1 = []
        for _ in range(length):
            e = self.one()
            if e['op'] == 'make':
                f = e['f']
                if f['x'] == 'lev1':
                    f['x'] = self.rng.choice(lev1) if lev1 and not set(e['names']) & set(lev1) else 'mass'
                    # products of level-1 names go to names of their own
                    if f['x'] != 'mass':
                        e['names'] = ['c%d' % i for i in range(len(e['names']))]
                        e['ow'] = True
                else:
                    lev1 += [n for n in e['names'] if n in self.USR]
            ops.append(e)
        return ops


class History:
    """A job: rebuild the catalogue and perform the calls."""
    def __init__(self, scratch):
        self.scratch = scratch

    def __call__(self, job):
        k, seed, n, dfl, ops, tile = job
        rng = random.Random(seed)
        path = os.path.join(self.scratch, 'cat_%d.hdf5' % os.getpid())
        with quiet():
            t = Snap(path, natives_for(rng, n), n, dfl, tile)
            tr = run_trace(t, ops)
        os.remove(path)
        return tr


MENU_H01 = [
    {'op': 'load', 'ns': ['a']}, {'op': 'load', 'ns': ['b']}, {'op': 'load', 'ns': ['a', 'b']},
    {'op': 'unload', 'ns': ['a']}, {'op': 'unload', 'ns': ['b']},
    {'op': 'write', 'ns': ['b'], 'ow': False}, {'op': 'write', 'ns': ['b'], 'ow': True},
    {'op': 'write', 'ns': ['a'], 'ow': True}, {'op': 'write', 'ns': ['d', 'b'], 'ow': False},
    {'op': 'delete', 'ns': ['b']}, {'op': 'delete', 'ns': ['a']}, {'op': 'delete', 'ns': ['b', 'd']},
    mk(F([('b', 2, 0, 0)], 'mass', 'mass')), mk(F([('b', 1, 1, -1)], 'mass', 'mass'), ow=True, all=True),
    mk(F([('a', 1, 0, -1)], 'mass', 'mass'), ow=True, all=True),
    mk(F([('b', 1, 0, 1), ('d', 2, 0, 0)], 'mass', 'mass'), ow=False, all=True),
    mk(F([('b', 3, 0, 0)], 'mass', 'mass'), ow=True, all=True, write=True, owd=True, unl=True),
    mk(F([('d', 1, 0, 0)], 'mass', 'mass'), ow=False, all=True, write=True, owd=False),
    {'op': 'ret', 'n': 'b', 'all': True, 'inh': 'f'},
    {'op': 'reopen', 'v': False},
]
MENU_H02 = [
    rg(), rg('mass', 4 * SC, INF, True, 't'), rg('mass', 4 * SC, INF, False, 'f'),
    rg('a', -INF, 3 * SC, False), rg('a', 2 * SC, 3 * SC, True), rg('a', 3 * SC, 2 * SC, True),
    rg('b', 2 * SC, INF, False, 't'), rg('b', -INF, INF, True), rg('none', 0, 1),
    mk(F([('b', 1, 0, 0)], 'a', 'a'), ow=True), mk(F([('b', 2, 0, 0)], 'a', 'a'), ow=True, all=True),
    mk(F([('b', 2, 0, 0)], 'a', 'a'), ow=True, write=True, owd=True),
    {'op': 'ret', 'n': 'a', 'all': False, 'inh': 'd'}, {'op': 'ret', 'n': 'a', 'all': True, 'inh': 'd'},
    {'op': 'stat', 'x': 'a', 'y': 'mass', 'b': 1, 'k': 0, 'all': False, 'inh': 't'},
    {'op': 'unload', 'ns': ['b']}, {'op': 'reopen', 'v': True},
]
MENU_H03 = [
    {'op': 'units', 'v': True}, {'op': 'units', 'v': False},
    mk(F([('b', 1, 1, -1)], 'mass', 'p', giveh=False, reth=False), ow=True, all=True),
    mk(F([('b', 1, 1, 1)], 'mass', 'p', giveh=True, reth=False), ow=True, all=True),
    mk(F([('b', 1, 1, -1)], 'mass', 'box_edge', giveh=False, reth=True), ow=True, all=True),
    mk(F([('b', 1, 0, -1), ('d', 1, 0, 1)], 'mass', 'h', giveh=False, reth=False), ow=True, all=True),
    {'op': 'ret', 'n': 'b', 'all': True, 'inh': 'd'}, {'op': 'ret', 'n': 'mass', 'all': True, 'inh': 'f'},
    {'op': 'stat', 'x': 'mass', 'y': 'p', 'b': 1, 'k': 0, 'all': True, 'inh': 'd'},
    {'op': 'stat', 'x': 'mass', 'y': 'box_edge', 'b': 1, 'k': 0, 'all': True, 'inh': 'f'},
    rg('mass', 4 * SC, INF, True, 'd'), rg('p', 2 * SC, 6 * SC, True, 'f'),
    {'op': 'write', 'ns': ['b'], 'ow': True}, {'op': 'unload', 'ns': ['b']}, {'op': 'load', 'ns': ['b']},
    {'op': 'reopen', 'v': False},
]
MENU_H04 = [
    {'op': 'plot', 'x': 'mass', 'ns': ['a'], 'all': 'act', 'inh': 'd'}, {'op': 'plot', 'x': 'b', 'ns': ['a', 'mass'], 'all': 'all', 'inh': 't'},
    {'op': 'plot', 'x': 'a', 'ns': ['b', 'mass'], 'all': 'cmp', 'inh': 'f'}, {'op': 'plot', 'x': 'none', 'ns': [], 'all': 'act', 'inh': 'f'},
    {'op': 'hist', 'ns': ['a', 'mass'], 'log': False, 'edges': [0, 2 * SC, 3 * SC, 2000 * SC], 'all': 'act', 'inh': 'd'},
    {'op': 'hist', 'ns': ['b'], 'log': False, 'edges': [0, 4 * SC], 'all': 'all', 'inh': 'd'},
    {'op': 'hist', 'ns': ['mass'], 'log': True, 'edges': [0, 3 * SC, 8 * SC], 'all': 'act', 'inh': 'f'},
    rg(), rg('mass', 4 * SC, INF, True, 't'), rg('a', 2 * SC, 3 * SC, False),
    mk(F([('b', 2, 0, -1)], 'mass', 'a')), mk(F([('b', 1, 1, 0)], 'a', 'a'), ow=True, all=True),
    {'op': 'load', 'ns': ['a']}, {'op': 'unload', 'ns': ['b']}, {'op': 'units', 'v': True}, {'op': 'reopen', 'v': False},
]
WEIGHTS = {
    'H04': dict(plot=6, hist=6, make=4, range=3, units=1, load=1, unload=1, write=1, delete=.5, reopen=.3),
    'H01': dict(load=3, unload=3, write=4, delete=3, make=6, ret=1, reopen=1),
    'H02': dict(range=6, make=3, ret=1, stat=1, unload=1, write=.5, reopen=.3),
    'H03': dict(units=2, make=4, ret=1, stat=2, range=2, write=1, unload=1, load=1, reopen=.5),
}
MENUS = {'H04': MENU_H04, 'H01': MENU_H01, 'H02': MENU_H02, 'H03': MENU_H03}


def run(ck, prop):
    ck.setup_code(root=False)
    rng = ck.rng
    # a small catalogue for the exhaustive exploration
    nat = [{'n': 'mass', 'dt': 'f4', 'hd': -1, 'raw': [8, 4, 2]},
           {'n': 'a', 'dt': 'f8', 'hd': 0, 'raw': [1.5, 3, 2.5]},
           {'n': 'oid', 'dt': 'i8', 'hd': 0, 'raw': [1, 2, 3]}]
    if prop == 'H03':
        nat.insert(2, {'n': 'p', 'dt': 'f4', 'hd': 1, 'raw': [4, 12, 8]})
    init = {'n': 3, 'dfl': False, 'ext': Snap.ext,
            'disk': [{'n': p['n'], 'hd': p['hd'], 'u': False, 'v': fxs(p['raw'])} for p in nat]}
    menu = MENUS[prop]
    mf = os.path.join(ck.scratch, 'menu.json')
    json.dump({'init': init, 'ops': menu}, open(mf, 'w'))
    cfg = 'CONSTANT SC = %d\nINIT Init\nNEXT Next\nVIEW View\nINVARIANT Inv\nPROPERTY StepProp\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n' % SC
    edges, i0 = ck.model_check('MCHandler', cfg, env={'MENU': mf}, dump=True)
    from core import cover_walks
    walks, cov, tot = cover_walks(edges, i0, 30, rng, limit=None if ck.thorough else 150)
    ck.extra['model_transitions_taken_on_code'] = [cov, tot]

    def replay(w):
        path = os.path.join(ck.scratch, 'mc_%d.hdf5' % os.getpid())
        with quiet():
            t = Snap(path, nat, 3, False)
            tr = run_trace(t, [menu[o - 1] for o in w])
        os.remove(path)
        return tr
    traces = ck.parallel(replay, walks)
    ck.validate('TraceHandler', traces, 'CONSTANT SC = %d\n' % SC, 'walk:')
    # seeded histories over richer catalogues
    nh = 1500 if ck.thorough else 160
    jobs = []
    for k in range(nh):
        g = Gen(random.Random('%s-%d-%d' % (prop, ck.seed, k)), WEIGHTS[prop])
        jobs.append((k, '%s-%d' % (ck.seed, k), rng.choice([1, 2, 4, 6]), rng.random() < .5, g.history(rng.choice([8, 16, 24])), rng.choice([1] * 9 + [30, 700, 2500])))
    traces = ck.parallel(History(ck.scratch), jobs)
    ck.validate('TraceHandler', traces, 'CONSTANT SC = %d\n' % SC, 'history:')
    ck.assumptions += ['catalogues of up to 6 objects, or up to 15000 that are copies of them, with h = 1/2 and exactly representable values',
                       'a failing call may raise any exception class']
