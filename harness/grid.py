"""Grids (simim.map): the drivers of G01-G06.

Lengths are integers in 1/64 of a unit of length `lam`, values integers in
1/VS, so everything TLC computes is exact; histories are generated so that the
numbers stay representable (`room`), from the state before each call."""
import json
import math
import os
import random

import core

NAN = 999999937
XS = 64
RES = 64
S = 'abcd'


def load(ck):
    global np, G
    import numpy as np
    from simim.map import gridder as G


def near(x, tol=1e-6):
    """The integer x is, or NAN if it is none"""
    if not np.isfinite(x):
        return NAN
    r = round(float(x))
    return int(r) if abs(x - r) <= tol * max(1., abs(x)) and abs(r) < 2**31 - 10 else NAN


def nears(a, tol=1e-6):
    return [near(x, tol) for x in np.asarray(a, dtype=float).ravel()]


def rnd(x):
    return int(round(float(x))) if np.isfinite(x) and abs(x) < 2**30 else NAN


class Bench:
    """Named grids and files; `do` makes one call and looks at everything"""

    def __init__(self, ck, lam=1., vs=256, rng=None):
        self.lam, self.vs = lam, vs
        self.g, self.seen, self.files = {}, {}, {}
        self.rng = rng or random.Random(0)
        self.dir = os.path.join(ck.scratch, 'grids_%d_%d' % (os.getpid(), random.randrange(10**9)))
        os.makedirs(self.dir)

    # ------------------------------------------------------------ conversions
    def L(self, x):
        return x / XS * self.lam

    def V(self, x):
        return x / self.vs

    def lens(self, q, alt=True):
        """Lengths, as whatever can be given"""
        f = [self.L(x) for x in q]
        if self.lam == 1 and all(x % XS == 0 for x in q) and self.rng.random() < .4:
            f = [x // XS for x in q]
        k = self.rng.random()
        if len(f) == 1 and alt and k < .5:
            return f[0]
        return tuple(f) if k < .7 else f if k < .85 else np.array(f)

    def poss(self, pos, dims):
        if not pos:
            return self.rng.choice([[], np.zeros((0, dims))])
        f = [[self.L(x) for x in p] for p in pos]
        if self.lam == 1 and all(x % XS == 0 for p in pos for x in p) and self.rng.random() < .5:
            f = [[x // XS for x in p] for p in pos]
        try:
            a = np.array(f)
        except ValueError:
            return f
        return a if self.rng.random() < .7 else f

    def vals(self, v, one=False):
        f = [[self.V(x) for x in p] for p in v]
        if all(x % self.vs == 0 for p in v for x in p) and self.rng.random() < .4:
            f = [[x // self.vs for x in p] for p in v]
        if one and self.rng.random() < .5:
            f = [p[0] for p in f]
        return np.array(f) if self.rng.random() < .7 else f

    def units(self, u):
        if not u:
            return None
        u = [x or None for x in u]
        return u[0] if len(u) == 1 and self.rng.random() < .6 else self.rng.choice([tuple, list])(u)

    def ints(self, q, none=False):
        if none:
            return None
        if len(q) == 1 and self.rng.random() < .5:
            return q[0]
        return self.rng.choice([tuple, list, np.array])(q)

    # ------------------------------------------------------------------- look
    def look(self, name):
        g = self.g[name]
        return dict(self.look_at(g), name=name)

    def look_at(self, g):
        d = g.n_dimensions
        X = XS / self.lam
        un = lambda q: [str(u) if isinstance(u, str) else '' if u is None else repr(u) for u in q]
        npx = [int(x) for x in np.ravel(g.n_pixels)]
        o = {'d': int(d), 'n': npx, 'np': int(g.n_properties), 'nobj': int(g.n_objects),
             'edges': [nears(np.asarray(a) * X) for a in g.axes], 'mids': [nears(np.asarray(a) * X) for a in g.axes_centers],
             'c': nears(np.asarray(g.center_point) * X), 'side': nears(np.asarray(g.side_length) * X), 'px': nears(np.asarray(g.pixel_size) * X),
             'fc': [nears(np.asarray(a) * n * p) for a, n, p in zip(g.fourier_axes_centers, npx, g.pixel_size)],
             'fe': [nears(np.asarray(a) * n * p * 2) for a, n, p in zip(g.fourier_axes, npx, g.pixel_size)],
             'au': un(g.axunits), 'fau': un(g.fourier_axunits), 'gu': un(g.gridunits),
             'four': [bool(x) for x in g.fourier_space], 'ps': bool(g.is_power_spectrum), 'act': bool(g.grid_active),
             'shape': [], 'v': [], 'w': [], 'same': False}
        if g.grid_active:
            a = np.asarray(g.grid)
            o['shape'] = list(a.shape)
            o['v'] = nears(a.real * self.vs)
            if np.iscomplexobj(a):
                w = nears(a.imag * self.vs)
                if any(w):
                    o['w'] = w
        return o

    def look_all(self):
        res = []
        for k in sorted(self.g):
            o = self.look(k)
            if self.seen.get(k) == o:
                res.append({'name': k, 'same': True})
            else:
                self.seen[k] = o
                res.append(o)
        for k in list(self.seen):
            if k not in self.g:
                del self.seen[k]
        return res

    # ------------------------------------------------------------------- call
    def do(self, e):
        self.keep = []
        o = {'err': False, 'argsame': True, 'retok': True, 'out': []}
        try:
            getattr(self, 'op_' + e['op'])(e, o)
        except Exception:
            o['err'] = True
        for a, b in self.keep:
            if not alike(a, b):
                o['argsame'] = False
        o['g'] = self.look_all()
        o['files'] = sorted(self.files)
        return dict({k: v for k, v in e.items() if k[0] != '_'}, obs=o)

    def arg(self, a):
        if isinstance(a, np.ndarray):
            self.keep.append((a, a.copy()))
        elif isinstance(a, list):
            self.keep.append((a, json.loads(json.dumps([x.tolist() if isinstance(x, np.ndarray) else x for x in a]))))
        return a

    def put(self, name, g):
        self.g[name] = g
        self.seen.pop(name, None)

    def ret(self, o, e, g, r):
        """A grid came back: this one if in place, another if not"""
        if e['inplace']:
            o['retok'] = r is g
        else:
            o['retok'] = isinstance(r, G.Grid) and r is not g
            if o['retok']:
                self.put(e['to'], r)

    # -------------------------------------------------------------------- ops
    def op_new(self, e, o):
        g = G.Grid(e['np'], self.arg(self.lens(e['c'])), self.arg(self.lens(e['side'])), self.arg(self.lens(e['px'])),
                   axunits=self.units(e['au']), gridunits=self.units(e['gu']))
        if e['init']:
            g.init_grid()
        self.put(e['to'], g)

    def axes(self, e):
        return [self.arg(np.array([self.L(x) for x in a]) if self.rng.random() < .6 else [self.L(x) for x in a]) for a in e['axes']]

    def op_axes(self, e, o):
        g = G.GridFromAxes(*self.axes(e), n_properties=e['np'], axunits=self.units(e['au']), gridunits=self.units(e['gu']))
        if e['init']:
            g.init_grid()
        self.put(e['to'], g)

    def op_func(self, e, o):
        def f(*x, shift=0):
            res = shift
            for a, y in zip(e['a'], np.meshgrid(*x, indexing='ij')):
                res = res + a * y / self.lam
            return res
        g = G.GridFromAxesAndFunction(f, *self.axes(e), function_kwargs={'shift': e['b']}, n_properties=e['np'],
                                      axunits=self.units(e['au']), gridunits=self.units(e['gu']))
        self.put(e['to'], g)

    def op_gridder(self, e, o):
        pos = self.poss(e['pos'], len(e['c']))
        if isinstance(pos, np.ndarray) and pos.ndim == 2 and pos.shape[1] == 1 and self.rng.random() < .5:
            pos = pos[:, 0]
        kw = {}
        if not e['pos']:
            kw['setndims'] = len(e['c'])
        vals = None if e['count'] else self.vals(e['vals'], e['cols'] == 1) if e['vals'] else np.zeros((0, e['cols']))
        g = G.Gridder(self.arg(pos), self.arg(vals), None if e['autoc'] else self.arg(self.lens(e['c'], False)),
                      None if e['autos'] else self.arg(self.lens(e['side'])), self.arg(self.lens(e['px'])),
                      axunits=self.units(e['au']), gridunits=self.units(e['gu']), **kw)
        self.put(e['to'], g)

    def op_init(self, e, o):
        self.g[e['g']].init_grid()

    def op_poke(self, e, o):
        a = self.g[e['g']].grid
        a[np.unravel_index(e['i'] - 1, a.shape)] += self.V(e['x'])

    def op_cat(self, e, o):
        g = self.g[e['g']]
        vals = None if e['count'] else self.vals(e['vals'], e['cols'] == 1) if e['vals'] else np.zeros((0, e['cols']))
        kw = {'new_props': True} if e['new'] else {}
        g.add_from_cat(self.arg(self.poss(e['pos'], g.n_dimensions)), self.arg(vals), properties=self.ints(e['props'], e['all']), **kw)

    def op_arr(self, e, o):
        g = self.g[e['g']]
        kw = {'ax': e['ax']} if e['ax'] != -1 or self.rng.random() < .5 else {}
        g.add_from_pos_plus_array(self.arg(self.poss(e['pos'], g.n_dimensions - 1)), self.arg(self.vals(e['vals'])),
                                  new_prop=e['new'], properties=self.ints(e['props'], e['all']), **kw)

    def op_spec(self, e, o):
        g = self.g[e['g']]

        def spec(nu, p):
            nu = np.asarray(nu).reshape(1, -1)
            a, b = p[:, 0:1], p[:, 1:2]
            r = b * (nu >= a) if e['cum'] else b + a * nu / self.lam
            return r[:, 1:] if e['short'] else r
        par = [[self.L(a) if e['cum'] else a, self.V(b)] for a, b in e['par']]
        par = np.array(par) if self.rng.random() < .7 else par
        kw = {'spec_ax': e['ax']} if e['ax'] != -1 or self.rng.random() < .5 else {}
        g.add_from_spec_func(self.arg(self.poss(e['pos'], g.n_dimensions - 1)), spec, self.arg(par), is_cumulative=e['cum'],
                             eval_as_loop=self.rng.random() < .4, careful_with_memory=self.rng.random() < .6,
                             new_prop=e['new'], properties=self.ints(e['props'], e['all']), **kw)

    def op_newprop(self, e, o):
        g = self.g[e['g']]
        if e['given']:
            g.add_new_prop(self.arg(np.array([self.V(x) for x in e['vals']]).reshape(e['shape'])))
        else:
            g.add_new_prop()

    def op_sum(self, e, o):
        g = self.g[e['g']]
        self.ret(o, e, g, g.sum_properties(self.ints(e['props'], e['all']), in_place=e['inplace']))

    def op_sample(self, e, o):
        g = self.g[e['g']]
        r = g.sample(self.arg(np.zeros((0, g.n_dimensions)) if not e['pos'] else self.poss(e['pos'], g.n_dimensions)), self.ints(e['props'], e['all']))
        o['out'] = [nears(np.real(x) * self.vs) for x in r]

    def op_pad(self, e, o):
        self.g[e['g']].pad(self.ints(e['ax']), self.ints(e['pad']), **({'val': self.V(e['val'])} if e['val'] or self.rng.random() < .5 else {}))

    def op_crop(self, e, o):
        self.g[e['g']].crop(e['ax'], *[None if x == NAN else self.L(x) for x in (e['min'], e['max'])])

    def op_scale(self, e, o):
        f = [a / b for a, b in e['f']]
        if all(b == 1 for a, b in e['f']) and self.rng.random() < .5:
            f = [a for a, b in e['f']]
        f = f[0] if len(f) == 1 and self.rng.random() < .5 else f
        u = 'same' if e['same'] else self.units(e['au'])
        kw = {} if e['same'] and self.rng.random() < .5 else {'axunits': u}
        self.g[e['g']].scale_axis(self.ints(e['ax']), self.arg(f), scalecenter=e['center'], **kw)

    def op_down(self, e, o):
        kw = {'mode': e['mode']} if e['mode'] != 'average' or self.rng.random() < .5 else {}
        self.g[e['g']].down_sample(self.ints(e['ax']), self.ints(e['f']), **kw)

    def op_collapse(self, e, o):
        g = self.g[e['g']]
        ws = []
        for w in e['wt']:
            a = np.array(w['x']).reshape(w['shape'])
            ws.append(a if self.rng.random() < .5 else a.astype(float))
            self.arg(ws[-1])
        w = None if not ws else ws[0] if len(e['ax']) == 1 and len(ws) == 1 else ws
        self.ret(o, e, g, g.collapse_dimension(self.ints(e['ax']), in_place=e['inplace'], weights=w, mode=e['mode']))

    def op_copy(self, e, o):
        self.put(e['to'], self.g[e['g']].copy(**({} if e['all'] else {'properties': self.ints(e['props'])})))

    def op_copyaxes(self, e, o):
        self.put(e['to'], self.g[e['g']].copy_axes(e['np']))

    def op_save(self, e, o):
        p = os.path.join(self.dir, e['file'])
        self.g[e['g']].save(p + self.rng.choice(['', '.npz']), compress=self.rng.random() < .5, overwrite=e['ow'])
        self.files[e['file']] = True

    def op_load(self, e, o):
        self.put(e['to'], G.LoadGrid(os.path.join(self.dir, e['file'] + '.npz')))

    def op_ft(self, e, o):
        self.g[e['g']].fourier_transform(self.ints(e['ax'], e['all']), normalize=e['norm'])

    def op_twice(self, e, o):
        g = self.g[e['g']]
        g.fourier_transform(self.ints(e['ax'], e['all']), normalize=e['norm'])
        g.fourier_transform(self.ints(e['ax'], e['all']), normalize=e['norm'])

    def op_dc(self, e, o):
        g = self.g[e['g']]
        h = g.copy()
        h.fourier_transform(e['ax'], normalize=e['norm'])
        fc = h.fourier_axes_centers[e['ax']]
        a = np.take(h.grid, [int(np.argmin(np.abs(fc)))], axis=e['ax'])
        o['out'] = [nears(a.real * self.vs), nears(a.imag * self.vs)]

    def op_power(self, e, o):
        g = self.g[e['g']]
        h = None if e['h'] == e['g'] and self.rng.random() < .6 else self.g[e['h']]
        self.ret(o, e, g, g.power_spectrum(h, self.ints(e['ax'], e['all']), in_place=e['inplace'], normalize=e['norm']))

    def op_conv(self, e, o):
        g = self.g[e['g']]
        pad = None if not e['pad'] else e['pad'][0] if len(e['pad']) == 1 else self.rng.choice([tuple, list])(e['pad'])
        self.ret(o, e, g, g.convolve(self.g[e['h']], ax=self.ints(e['ax'], e['all']), in_place=e['inplace'], pad=pad))

    def op_psf(self, e, o):
        kw = {'norm': 'area' if e['area'] else 'peak', 'axunits': self.units(e['au'])}
        side = [self.L(x) for x in e['side']]
        if len(set(e['side'])) == 1 and self.rng.random() < .3:
            side = side[0]
        px = [self.L(x) for x in e['px']]
        if len(set(e['px'])) == 1 and self.rng.random() < .3:
            px = px[0]
        fw = [2 * self.L(x) for x in e['px']]
        if not e['x']:
            g = G.PSF(fw if len(fw) > 1 or self.rng.random() < .5 else fw[0], px, side, **kw)
        else:
            ch = [self.L(e['lo'] + i * e['step'] + e['step'] // 2) for i in range(len(e['x']))]
            if self.rng.random() < .3:
                ch = ch[::-1] if self.rng.random() < .5 else np.array(ch)
            g = G.SpectralPSF(ch, self.L(e['_spec0']), fw, px, side, exp=e['_exp'], **kw)
        if not e['area']:
            self.put(e['to'], g)
        else:
            o['grid'] = dict(self.look_at(g), act=False)
            o['chans'] = max(1, len(e['x']))
            o['pv'] = [rnd(x) for x in np.real(g.grid).ravel() * 10000]
            if not (g.grid_active and g.grid.shape == tuple(o['grid']['n']) + (1,)):
                o['pv'] = []

    # --------------------------------------------------------------- pictures
    def ruler(self, g, k, q):
        """Coordinates along axis k"""
        q = np.asarray(q, dtype=float)
        return nears(q * (g.n_pixels[k] * g.pixel_size[k] * 2 if g.fourier_space[k] else XS / self.lam))

    def mesh(self, g, m, a, b):
        """Edges across and up, and the values, row by row from below"""
        c = np.asarray(m.get_coordinates())
        v = np.ma.filled(np.ma.asarray(m.get_array(), dtype=float), np.nan).reshape(c.shape[0] - 1, c.shape[1] - 1)
        x, y = c[0, :, 0], c[:, 0, 1]
        if not (np.allclose(c[:, :, 0], x[None, :]) and np.allclose(c[:, :, 1], y[:, None])):
            return [NAN], [NAN], []
        x, y = self.ruler(g, a, x), self.ruler(g, b, y)
        return x, y, v

    def rows(self, v, log=False):
        if log:
            # what is not positive is shown far below the greatest value; values are whole multiples of 1/vs
            v = np.where(np.isfinite(v), 10. ** np.where(np.isfinite(v), v, 0), 0)
            v = np.where(v * self.vs < .25, 0, v)
        return [nears(r * self.vs, 1e-5 if log else 1e-6) for r in v]

    def op_view(self, e, o):
        from handler import Pictures
        g = self.g[e['g']]
        r = self.rng
        kw = {}
        if e['ax'] != [0, 1] or r.random() < .6:
            kw['ax'] = self.arg(r.choice([list, tuple])(e['ax']))
        if not e['sum'] or r.random() < .4:
            kw['slice_indices'] = 'sum' if e['sum'] else self.arg(r.choice([list, tuple])(e['idx']))
        if e['prop'] or r.random() < .5:
            kw['property'] = e['prop']
        title = {'title': 'A', 'xlabel': 'some label'} if r.random() < .3 else {}
        if title or r.random() < .2:
            kw['axkws'] = dict(title)
        look = r.choice([{}, {'cmap': 'Greys'}, {'vmin': -1., 'vmax': 5.}])
        if look:
            kw['plotkws'] = dict(look)
        with Pictures() as P:
            g.visualize(**kw)
            figs = P.figures()
            ax = figs[0].axes[0]
            m = ax.collections[0]
            a, b = e['ax']
            x, y, v = self.mesh(g, m, a, b)
            o['out'] = {'x': x, 'y': y, 'img': self.rows(v)}
            unit = lambda k: str((g.fourier_axunits if g.fourier_space[k] else g.axunits)[k])
            says = lambda t, k: str(k) in t and unit(k) in t
            ok = len(figs) == 1 and says(ax.get_ylabel(), b) and kw.get('axkws', {}) == title and kw.get('plotkws', {}) == look
            ok = ok and (ax.get_xlabel() == 'some label' if title else says(ax.get_xlabel(), a)) and ax.get_title() == title.get('title', '')
            ok = ok and m.get_cmap().name == look.get('cmap', m.get_cmap().name) and all(getattr(m.norm, k) == t for k, t in look.items() if k != 'cmap')
            o['lab'] = bool(ok)

    def op_film(self, e, o):
        from handler import Pictures
        from matplotlib.animation import AbstractMovieWriter
        g = self.g[e['g']]
        r = self.rng
        kw = {k: e[f] for k, f, d in (('slide_dim', 'slide', 2), ('prop_ind', 'prop', 0), ('i0', 'i0', 0), ('still', 'still', False), ('logscale', 'log', False))
              if e[f] != d or r.random() < .4}
        if e['face'] != [0, 1] or r.random() < .6:
            kw['face_dims'] = self.arg(r.choice([list, tuple])(e['face']))
        o['lab'] = True
        path = os.path.join(self.dir, 'still.png')
        if e['still'] and r.random() < .2:
            kw['save'] = path
        with Pictures() as P:
            res = g.animate(**kw)
            if 'save' in kw:
                o['lab'] = os.path.exists(path) and os.path.getsize(path) > 0
                os.remove(path)
            figs = P.figures()
            edge, face = figs[0].axes[:2]
            s, (f1, f2) = e['slide'], e['face']
            x, y, v = self.mesh(g, edge.collections[0], s, f2)
            out = {'x': x, 'y': y, 'img': self.rows(v, e['log']), 'fx': [], 'fy': [], 'frames': []}

            def shown():
                out['fx'], out['fy'], v = self.mesh(g, face.collections[0], f1, f2)
                line = edge.get_lines()[0]
                b = self.ruler(g, s, line.get_xdata())
                h = self.ruler(g, f2, line.get_ydata())
                if min(h) != min(y) or max(h) != max(y):
                    o['lab'] = False
                out['frames'].append({'box': [min(b), max(b)], 'img': self.rows(v, e['log'])})
            shown()
            if not e['still']:
                class Writer(AbstractMovieWriter):
                    def setup(self, fig, outfile, dpi=None):
                        self.fig = fig

                    def grab_frame(self, **k):
                        shown()

                    def finish(self):
                        pass
                res.save('film', writer=Writer())
            o['out'] = out

    def op_avg(self, e, o):
        g = self.g[e['g']]
        kw = {}
        if e['c']:
            kw['center'] = self.lens(e['c'], False)
        if e['wt']['x']:
            w = np.array(e['wt']['x']).reshape(e['wt']['shape'])
            s = list(e['wt']['shape'])
            kw['weights'] = self.arg(w if self.rng.random() < .5 else w.astype(float))
        ax = self.ints(e['ax'], e['all'])
        B = self.base(e)
        if e['shells']:
            if e['log']:
                kw['binmode'] = 'log'
            sh = None if e['k'] == 10 and self.rng.random() < .5 else e['k']
            axs, avg, n = g.spherical_average(ax, shells=sh, return_n=True, **kw)
            kw.pop('binmode', None)
            a2, avg2, n2 = g.spherical_average(ax, shells=axs[0], return_n=True, **kw)
            o['edges'] = [rnd(x) for x in np.asarray(axs[0]) / B * 128]
            o['total'] = int(np.sum(n))
            o['intsame'] = bool(np.array_equal(n, n2) and np.allclose(avg, avg2, equal_nan=True))
            return
        edges = [x / 128 * B for x in e['edges']]
        sh = self.arg(np.array(edges) if self.rng.random() < .6 else edges)
        axs, avg, n = g.spherical_average(ax, shells=sh, return_n=True, **kw)
        a0 = g.spherical_average(ax, shells=sh, **kw)
        o['n'] = [int(x) for x in n.ravel()]
        o['kept'] = []
        fs = bool(g.fourier_space[([0] if e['all'] else e['ax'])[0]])
        gone = range(g.n_dimensions) if e['all'] else e['ax']
        kept = [k for k in range(g.n_dimensions) if k not in gone]
        for k, a in zip(kept, axs[1:-1]):
            o['kept'].append(nears(np.asarray(a) * (g.n_pixels[k] * g.pixel_size[k] if fs else XS / self.lam)))
        if len(axs) != len(kept) + 2 or not np.allclose(axs[0], edges):
            o['kept'] = [[NAN]]
        if not np.array_equal(a0[1], avg, equal_nan=True):
            o['kept'] = [[NAN, 1]]
        o['avg'] = [rnd(x * 4 * RES) for x in np.real(avg).ravel()]
        o['avi'] = [rnd(x * 4 * RES) for x in np.imag(avg).ravel()]
        o['var'] = []
        if e['std']:
            axs, avg, std = g.spherical_average(ax, shells=sh, return_std=True, biased_std=e['biased'], **kw)
            o['var'] = [rnd(x**2 * 16 * 4) for x in np.real(std).ravel()]

    def base(self, e):
        return 64 * 64 / (e['_K'] * self.lam) if e['_K'] else self.lam


def alike(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    return [x.tolist() if isinstance(x, np.ndarray) else x for x in a] == b


# ------------------------------------------------------------------ histories
class Maker:
    """Random calls which suit the state the grids are in"""

    def __init__(self, bench, rng, vs, small=24):
        self.b, self.r, self.vs, self.small = bench, rng, vs, small
        self.dy = bench.lam in (1., .5, 4.)
        self.near = ()      # grids to deal with next
        self.ft = True      # lengths of axes which can be transformed exactly

    def st(self, k):
        return self.b.seen[k]

    def live(self, f=lambda o: True):
        q = [k for k in sorted(self.b.g) if k in self.b.seen and self.ok(self.st(k)) and f(self.st(k))]
        near = [k for k in q if k in self.near]
        return self.r.choice(near) if near and self.r.random() < .8 else self.r.choice(q) if q else None

    def ok(self, o):
        d = o['d']
        return (NAN not in o['v'] + o['w'] + o['c'] + o['px'] + o['side'] and all(len(o[k]) == d for k in ('n', 'c', 'px', 'side', 'edges', 'four'))
                and all(a > 0 and b > 0 and c == a * b for a, b, c in zip(o['n'], o['px'], o['side']))
                and all(len(q) == a + 1 and q[0] == c - s // 2 for q, a, c, s in zip(o['edges'], o['n'], o['c'], o['side']))
                and (not o['act'] or o['shape'] == o['n'] + [o['np']]))

    def slot(self):
        return self.r.choice(S)

    # ---------------------------------------------------------------- exactness
    def room(self, o, halvings=0, growth=1):
        m = 0
        for q in (o['v'], o['w']):
            for x in q:
                m = max(m, abs(x))
                if x % (1 << halvings):
                    return False
        return m * growth < 2**29

    def val(self, small=False):
        r = self.r
        if r.random() < .15:
            return 0
        return r.choice([1, 1, 2, 3, -1, -2] if small else [1, 2, 3, 5, 7, -1, -4]) * self.vs // r.choice([1, 1, 1, 2, 4])

    def pos1(self, lo, px, n):
        r = self.r
        hi = lo + n * px
        k = r.random()
        if k < .25:
            x = lo + r.randrange(-1, n + 2) * px + r.choice([0, 0, 0, -1, 1])
        elif k < .35:
            x = (r.randrange(lo - px, hi + px) // XS) * XS
        elif k < .85:
            x = r.randrange(lo, hi)
        else:
            x = r.randrange(lo - 2 * px, hi + 2 * px)
        if not self.dy and (x - lo) % px == 0:
            x += 1
        return x

    def los(self, o):
        return [c - s // 2 for c, s in zip(o['c'], o['side'])]

    def pos(self, o, skip=None):
        lo = self.los(o)
        return [self.pos1(lo[k], o['px'][k], o['n'][k]) for k in range(o['d']) if k != skip]

    def npos(self):
        return self.r.choice([0, 1, 1, 2, 3, 5, 8])

    def props(self, o, bad=True):
        r = self.r
        if r.random() < .35:
            return True, []
        q = r.sample(range(o['np']), r.randrange(1, o['np'] + 1))
        if bad and r.random() < .08:
            q[r.randrange(len(q))] = r.choice([o['np'], -1])
        return False, q

    def someaxes(self, o, bad=.05):
        r = self.r
        q = r.sample(range(o['d']), r.randrange(1, o['d'] + 1))
        if r.random() < bad:
            q[r.randrange(len(q))] = r.choice([o['d'], -1])
        return q

    def unit(self, k, n):
        r = self.r
        names = ['Mpc', 'GHz', 'arcmin'] if k == 'a' else ['K', 'Jy', 'Lsun']
        m = r.choice([0, 0, 1, n, n]) if r.random() > .04 else n + 1
        return [r.choice(names + ['']) for i in range(m)]

    # ------------------------------------------------------------- new grids
    def geom(self, dims=None):
        r = self.r
        d = dims or r.choice(self.dims)
        np_ = r.choice([1, 1, 2, 3])
        while True:
            n = [r.choice(self.sizes) for i in range(d)]
            np_ = r.choice([1, 1, 2, 3])
            d = min(d, 2) if dims is None and r.random() < .1 else d
            n = n[:d]
            if math.prod(n) * np_ <= self.small:
                break
        px = [r.choice([64, 64, 32, 128, 16, 96] if not self.pow2 else [64, 64, 32, 128]) for i in range(d)]
        c = [r.choice([0, 0, 64, 32, -128, 640, 17, 96, 6400]) for i in range(d)]
        return d, np_, n, px, c

    sizes = [1, 2, 3, 4, 4, 5, 6]
    dims = [1, 2, 2, 3]
    pow2 = False

    def m_new(self):
        r = self.r
        d, np_, n, px, c = self.geom()
        side = [a * b for a, b in zip(n, px)]
        if r.random() < .2:
            # not a whole number of cells
            k = r.randrange(d)
            side[k] += r.choice([-1, 1, -px[k] // 4, px[k] // 2, px[k] // 4])
            if 20 * (side[k] % px[k]) in range(px[k] - 3, px[k] + 4) or side[k] < px[k]:
                side[k] = n[k] * px[k]
        if r.random() < .25:
            px = [px[0]]
            side = [n[0] * px[0]] if r.random() < .5 else [a * px[0] for a in n]
            if len(side) == 1 and (n[0] ** d) * np_ > self.small:
                side = [px[0]]
        e = {'op': 'new', 'to': self.slot(), 'c': c, 'side': side, 'px': px, 'au': self.unit('a', d), 'gu': self.unit('g', np_), 'np': np_, 'init': r.random() < .85}
        if r.random() < .03 and d > 1:
            e['px'] = e['px'] + [64]
        return e

    def m_axes(self):
        r = self.r
        d, np_, n, px, c = self.geom()
        lo = [2 * (x // 2) for x in c]
        e = {'op': 'axes', 'to': self.slot(), 'axes': [[lo[k] + px[k] * j for j in range(n[k] + 1)] for k in range(d)], 'au': self.unit('a', d),
             'gu': self.unit('g', np_), 'np': np_, 'init': r.random() < .8}
        if r.random() < .05:
            k = r.randrange(d)
            if n[k] > 1:
                e['axes'][k][-1] += px[k] // 2
        return e

    def m_func(self):
        e = self.m_axes()
        r = self.r
        e.update(op='func', a=[r.choice([0, 1, 1, 2, -1]) for _ in e['axes']], b=r.choice([0, 1, 3, -2]), np=1, init=True)
        if len(e['gu']) > 1:
            e['gu'] = e['gu'][:1]
        return e

    def m_gridder(self):
        r = self.r
        d, np_, n, px, c = self.geom()
        lo = [c[k] - n[k] * px[k] // 2 for k in range(d)]
        e = {'op': 'gridder', 'to': self.slot(), 'c': c, 'side': [a * b for a, b in zip(n, px)], 'px': px, 'au': self.unit('a', d)}
        m = self.npos()
        pos = [[self.pos1(lo[k], px[k], n[k]) for k in range(d)] for i in range(m)]
        e['count'] = r.random() < .4
        e['cols'] = 1 if e['count'] else np_
        e['vals'] = [] if e['count'] else [[self.val() for _ in range(np_)] for i in range(m)]
        e['autoc'], e['autos'] = (r.random() < .4, r.random() < .4) if self.dy else (False, False)
        if e['autoc'] or e['autos']:
            pos = [[x // 2 * 2 for x in p] for p in pos]
            if len(pos) and math.prod((max(p[k] for p in pos) - min(p[k] for p in pos)) // px[k] + 1 for k in range(d)) * e['cols'] > 2 * self.small:
                pos = pos[:1]
                e['vals'] = e['vals'][:1]
            # an odd distance has its middle between two units
            for k in range(d):
                if pos and (max(p[k] for p in pos) - min(p[k] for p in pos)) % 4 and e['autoc']:
                    for p in pos:
                        p[k] = p[k] // 4 * 4
        e['pos'] = pos
        e['np'] = e['cols']
        e['gu'] = self.unit('g', e['np'])
        e.update(new=False, all=True, props=[])
        if len(set(px)) == 1 and r.random() < .3:
            e['px'] = px[:1]
        return e

    # ---------------------------------------------------------------- filling
    def m_init(self):
        k = self.live()
        return k and {'op': 'init', 'g': k}

    def m_poke(self):
        k = self.live(lambda o: o['act'])
        return k and {'op': 'poke', 'g': k, 'i': self.r.randrange(len(self.st(k)['v'])) + 1, 'x': self.val()}

    def m_cat(self):
        r = self.r
        k = self.live(lambda o: self.room(o, 0, 4) and o['np'] < 5 and o['d'])
        if not k:
            return None
        o = self.st(k)
        m = self.npos()
        e = {'op': 'cat', 'g': k, 'pos': [self.pos(o) for _ in range(m)], 'count': r.random() < .3, 'new': r.random() < .25}
        e['all'], e['props'] = self.props(o)
        want = o['np'] if e['all'] else len(e['props'])
        e['cols'] = 1 if e['count'] or r.random() < .3 else r.choice([1, 2]) if e['new'] else want if r.random() < .95 else want + 1
        e['vals'] = [] if e['count'] else [[self.val() for _ in range(e['cols'])] for _ in range(m)]
        if m and r.random() < .04:
            if r.random() < .5 and not e['count']:
                e['vals'] = e['vals'] + [[self.vs] * e['cols']]
            else:
                e['pos'] = [p + [0] for p in e['pos']]
        return e

    def m_arr(self):
        r = self.r
        k = self.live(lambda o: self.room(o, 0, 4) and o['np'] < 5 and o['d'] > 1)
        if not k:
            return None
        o = self.st(k)
        ax = r.choice(range(-o['d'], o['d']))
        if r.random() < .04:
            ax = o['d'] if r.random() < .5 else -o['d'] - 1
        a = ax % o['d']
        m = self.npos()
        e = {'op': 'arr', 'g': k, 'ax': ax, 'pos': [self.pos(o, a) for _ in range(m)], 'vals': [[self.val() for _ in range(o['n'][a])] for _ in range(m)],
             'new': r.random() < .25}
        e['all'], e['props'] = self.props(o)
        if m and r.random() < .05:
            if r.random() < .5:
                e['vals'] = [v + [0] for v in e['vals']]
            else:
                e['vals'] = e['vals'] + [e['vals'][0]]
        return e

    def m_spec(self):
        r = self.r
        e = self.m_arr()
        if not e:
            return None
        o = self.st(e['g'])
        e.update(op='spec', cum=r.random() < .5, short=r.random() < .04)
        a = e['ax'] % o['d']
        lo = self.los(o)[a]
        del e['vals']
        if e['cum']:
            e['par'] = [[self.pos1(lo, o['px'][a], o['n'][a]), self.val()] for _ in e['pos']]
        else:
            e['par'] = [[r.choice([0, 1, 2, -1]), self.val()] for _ in e['pos']]
            if max([abs(x) for x in [lo, lo + o['side'][a]]]) > 2000:
                for p in e['par']:
                    p[0] = 0
        if e['pos'] and r.random() < .03:
            e['par'] = e['par'] + [e['par'][0]]
        return e

    def m_newprop(self):
        r = self.r
        k = self.live(lambda o: o['np'] < 4)
        if not k:
            return None
        o = self.st(k)
        given = r.random() < .5
        shape = list(o['n']) + ([r.choice([1, 2])] if r.random() < .5 else [])
        if r.random() < .08:
            shape[r.randrange(len(shape))] += 1
            if len(shape) > o['d'] and shape[:o['d']] == o['n']:
                shape = shape[:-1]
        return {'op': 'newprop', 'g': k, 'given': given, 'shape': shape, 'vals': [self.val() for _ in range(math.prod(shape))]}

    def m_sum(self):
        r = self.r
        k = self.live(lambda o: self.room(o, 0, 8) and o['np'] < 4)
        if not k:
            return None
        o = self.st(k)
        e = {'op': 'sum', 'g': k, 'inplace': r.random() < .5, 'to': self.slot()}
        e['all'], e['props'] = self.props(o)
        return e

    def m_sample(self):
        r = self.r
        k = self.live(lambda o: not o['w'] and not any(o['four']) and o['d'])
        if not k:
            return None
        o = self.st(k)
        e = {'op': 'sample', 'g': k, 'pos': [self.pos(o) for _ in range(r.choice([0, 1, 3, 6]))]}
        e['all'], e['props'] = self.props(o)
        if r.random() < .04 and e['pos']:
            e['pos'] = [p + [0] for p in e['pos']]
        return e

    # --------------------------------------------------------------- reshaping
    def m_pad(self):
        r = self.r
        k = self.live(lambda o: o['d'])
        if not k:
            return None
        o = self.st(k)
        ax = self.someaxes(o)
        pad = [r.choice([1, 1, 2, 0, -1, -1]) for _ in ax] if r.random() < .6 else [r.choice([1, -1, 2])]
        if r.random() < .03:
            pad = pad + [1]
        full = pad * len(ax) if len(pad) == 1 else pad
        tot = o['np']
        for i in range(o['d']):
            m = o['n'][i]
            if i in ax and len(full) == len(ax):
                m += 2 * full[ax.index(i)]
                if o['four'][i] and m > 0:
                    w = o['n'][i] * o['px'][i]
                    if w % m or (w // m) % 2 or (not self.dy and (w // m) % 4):
                        return None
            tot *= max(1, m)
        if tot > 2.5 * self.small:
            return None
        return {'op': 'pad', 'g': k, 'ax': ax, 'pad': pad, 'val': 0 if r.random() < .5 else self.val()}

    def m_crop(self):
        r = self.r
        k = self.live(lambda o: o['d'])
        if not k:
            return None
        o = self.st(k)
        a = r.randrange(o['d'])
        lo, px, n = self.los(o)[a], o['px'][a], o['n'][a]

        def lim():
            if r.random() < .3:
                return NAN
            x = lo + r.randrange(-1, n + 2) * px + r.choice([0, px // 2, px // 4, 1, -1])
            if not self.dy and (x - lo - px // 2) % px == 0:
                x += 1
            return x
        q = [lim(), lim()]
        if NAN not in q and r.random() < .9:
            q.sort()
        if not self.dy and q[0] != NAN and q[0] == lo + n * px or not self.dy and q[1] == lo or q[0] == q[1] != NAN and not self.dy:
            return None
        return {'op': 'crop', 'g': k, 'ax': a if r.random() > .04 else r.choice([o['d'], -1]), 'min': q[0], 'max': q[1]}

    def m_scale(self):
        r = self.r
        k = self.live(lambda o: o['d'])
        if not k:
            return None
        o = self.st(k)
        ax = self.someaxes(o)
        F = [[2, 1], [1, 2], [1, 1], [3, 1], [1, 4], [4, 1]] if not self.pow2 else [[2, 1], [1, 2], [4, 1]]
        f = [r.choice(F) for _ in ax] if r.random() < .6 else [r.choice(F)]
        if r.random() < .03:
            f = f + [[2, 1]]
        cen = r.random() < .6
        full = f * len(ax) if len(f) == 1 else f
        if len(full) == len(ax) and all(0 <= i < o['d'] for i in ax):
            for i, (a, b) in zip(ax, full):
                lo, px, c = self.los(o)[i], o['px'][i], o['c'][i]
                need = 4 if not self.dy else 2
                if px * a % b or (px * a // b) % need or px * a // b > 1024 or px * a // b < 8 or (lo if cen else lo - c) * a % b or abs(c) * a // b > 50000:
                    return None
                if (c if cen else 0) * a % b:
                    return None
        same = r.random() < .5
        au = [] if same else [r.choice(['kpc', 'Hz', '', 'arcminutes']) for _ in range(r.choice([1, len(ax)]) if r.random() > .05 else len(ax) + 1)]
        return {'op': 'scale', 'g': k, 'ax': ax, 'f': f, 'same': same, 'au': au, 'center': cen}

    def m_down(self):
        r = self.r
        k = self.live(lambda o: o['d'])
        if not k:
            return None
        o = self.st(k)
        ax = self.someaxes(o)
        mode = r.choice(['average', 'average', 'sum', 'sum', 'mean' if r.random() < .1 else 'sum'])
        f = [r.choice([1, 2, 2, 3, 4]) for _ in ax] if r.random() < .6 else [r.choice([2, 3, 2])]
        if r.random() < .03:
            f = f + [2]
        if r.random() < .03:
            f[0] = 0
        if mode == 'average':
            f = [2 if x == 3 else x for x in f]
            if o['act'] and not self.room(o, sum({1: 0, 2: 1, 4: 2, 0: 0}[x] for x in f) * (1 if len(f) == len(ax) else len(ax)), 64):
                return None
        elif not self.room(o, 0, 64):
            return None
        full = f * len(ax) if len(f) == 1 else f
        # a mistake on a later axis only, once earlier ones are done, counts too
        if any(o['px'][i] * x > 2048 for i, x in zip(ax, full) if 0 <= i < o['d']):
            return None
        return {'op': 'down', 'g': k, 'ax': ax, 'f': f, 'mode': mode}

    def weights(self, o, a, n, nd):
        """Weights which add up to a power of two along axis a, and how many halvings that is"""
        r = self.r
        line = lambda: {1: [[1], [2], [4]], 2: [[1, 1], [1, 3], [3, 1], [2, 2]], 3: [[1, 2, 1], [2, 1, 1], [1, 0, 3]],
                        4: [[1, 1, 1, 1], [1, 2, 3, 2], [4, 2, 1, 1]], 5: [[1, 2, 2, 2, 1], [2, 1, 2, 1, 2]], 6: [[1, 1, 2, 2, 1, 1], [1, 2, 1, 1, 2, 1]]}.get(n)
        q = line()
        if q is None:
            return None
        if nd == 1:
            return {'shape': [n], 'x': r.choice(q)}
        shape = list(o['n']) + ([o['np']] if nd == 2 else [])
        w = np.zeros(shape, dtype=int)
        mv = np.moveaxis(w, a, -1)
        tot = sum(q[0])
        q = [x for x in q if sum(x) == tot]
        for i in np.ndindex(*mv.shape[:-1]):
            mv[i] = r.choice(q)
        return {'shape': shape, 'x': [int(x) for x in w.ravel()]}

    def m_collapse(self):
        r = self.r
        k = self.live(lambda o: o['d'] > 1)
        if not k:
            return None
        o = self.st(k)
        ax = r.sample(range(o['d']), r.randrange(1, o['d']))
        if r.random() < .04:
            ax[-1] = r.choice([o['d'], -1])
        mode = r.choice(['average', 'average', 'sum']) if r.random() > .03 else 'mean'
        wt = []
        halv = 0
        bad = any(a < 0 or a >= o['d'] for a in ax)
        if r.random() < .65 and not bad:
            many = r.randrange(len(ax))
            for i, a in enumerate(ax):
                w = self.weights(o, a, o['n'][a], r.choice([0, 1, 2]) if i == many and r.random() < .6 else 1)
                if w is None:
                    return None
                wt.append(w)
                if len(w['shape']) == 1:
                    t = sum(w['x'])
                else:
                    t = sum(np.moveaxis(np.array(w['x']).reshape(w['shape']), a, -1).reshape(-1, o['n'][a])[0])
                halv += int(math.log2(t))
            if len(wt) > 1 and r.random() < .04:
                wt = wt[:-1]
        elif not bad:
            t = math.prod(o['n'][a] for a in ax)
            if mode == 'average' and t & (t - 1):
                mode = 'sum'
            halv += int(math.log2(t))
        if not self.room(o, halv if mode == 'average' else 0, 2**9):
            return None
        return {'op': 'collapse', 'g': k, 'ax': ax, 'wt': wt, 'mode': mode, 'inplace': r.random() < .5, 'to': self.slot()}

    # ------------------------------------------------------------------ copies
    def m_copy(self):
        k = self.live()
        if not k:
            return None
        e = {'op': 'copy', 'g': k, 'to': self.slot()}
        e['all'], e['props'] = self.props(self.st(k))
        return e

    def m_copyaxes(self):
        k = self.live()
        return k and {'op': 'copyaxes', 'g': k, 'np': self.r.choice([1, 1, 2, self.st(k)['np']]), 'to': self.slot()}

    def m_save(self):
        k = self.live()
        return k and {'op': 'save', 'g': k, 'file': self.r.choice(['f1', 'f2']), 'ow': self.r.random() < .5}

    def m_load(self):
        if not self.b.files and self.r.random() < .9:
            return None
        return {'op': 'load', 'file': self.r.choice(['f1', 'f2'] if not self.b.files or self.r.random() < .1 else sorted(self.b.files)), 'to': self.slot()}

    # ----------------------------------------------------------------- Fourier
    def lg(self, x):
        return x.bit_length() - 1 if x > 0 and not x & (x - 1) else None

    def ftroom(self, o, axs, norm):
        halv, growth = 0, 1
        for a in axs:
            n, px = o['n'][a], o['px'][a]
            if n not in (1, 2, 4):
                return None
            growth *= 2 * n
            if not o['four'][a]:
                if norm:
                    t = self.lg(px)
                    if t is None:
                        return None
                    halv += max(0, 6 - t)
                    growth *= max(1, px)
            else:
                halv += int(math.log2(n))
                if norm:
                    t = self.lg(px)
                    if t is None:
                        return None
                    halv += max(0, t - 6)
                    growth *= 64
        return halv, growth

    def m_ft(self):
        r = self.r
        k = self.live(lambda o: o['d'])
        if not k:
            return None
        o = self.st(k)
        all_ = r.random() < .4
        ax = list(range(o['d'])) if all_ else self.someaxes(o)
        norm = r.random() < .5 and self.b.lam == 1.
        if all(0 <= a < o['d'] for a in ax) and o['act'] and not o['ps']:
            q = self.ftroom(o, ax, norm)
            if q is None or not self.room(o, q[0], q[1]):
                return None
        return {'op': 'ft', 'g': k, 'all': all_, 'ax': [] if all_ else ax, 'norm': norm}

    def m_twice(self):
        r = self.r
        k = self.live(lambda o: o['d'] and self.room(o, 0, 2))
        if not k:
            return None
        o = self.st(k)
        all_ = r.random() < .4
        return {'op': 'twice', 'g': k, 'all': all_, 'ax': [] if all_ else self.someaxes(o), 'norm': r.random() < .5}

    def m_dc(self):
        r = self.r
        k = self.live(lambda o: o['d'] and not all(o['four']))
        if not k:
            return None
        o = self.st(k)
        a = r.choice([i for i in range(o['d']) if not o['four'][i]])
        norm = r.random() < .5 and self.b.lam == 1.
        t = self.lg(o['px'][a])
        if norm and (t is None or not self.room(o, max(0, 6 - t), o['px'][a] * o['n'][a])):
            return None
        return {'op': 'dc', 'g': k, 'ax': a, 'norm': norm}

    def m_power(self):
        r = self.r
        k = self.live(lambda o: o['d'])
        h = k if r.random() < .5 else self.live(lambda o: o['d'])
        if not k:
            return None
        o, p = self.st(k), self.st(h)
        all_ = r.random() < .4
        ax = list(range(o['d'])) if all_ else self.someaxes(o)
        norm = r.random() < .4 and self.b.lam == 1.
        okay = o['act'] and p['act'] and not o['ps'] and not p['ps'] and o['n'] == p['n'] and all(0 <= a < o['d'] for a in ax)
        e = {'op': 'power', 'g': k, 'h': h, 'all': all_, 'ax': [] if all_ else ax, 'norm': norm, 'inplace': r.random() < .4, 'to': self.slot()}
        if not okay:
            # (an uninitialised grid is refused before anything is computed)
            return e if r.random() < .2 else None
        lv = self.lg(self.vs)
        if any(o['n'][a] in (3, 6) for a in ax):
            if any(o['n'][a] not in (1, 2, 3, 6) for a in ax) or any(o['four']) or any(p['four']) or o['w'] or p['w']:
                return None
            halv, growth = 1, 4 * math.prod(o['n'][a] for a in ax) ** 2
            if norm:
                for a in ax:
                    for q in (o, p):
                        t = self.lg(q['px'][a])
                        if t is None:
                            return None
                        halv += max(0, 6 - t)
                        growth *= max(1, q['px'][a]) if q['px'][a] > 64 else 1
                if growth > 2000:
                    return None
                pxs = math.prod(o['px'][a] * p['px'][a] for a in ax)
                if pxs > 2**15 or math.prod([4096] * len(ax)) > 2**30:
                    return None
                growth *= pxs
            tz = lambda q: min([(x & -x).bit_length() - 1 for x in q['v'] if x] or [20])
            if tz(o) + tz(p) < lv + halv:
                return None
            m1 = max([abs(x) for x in o['v']] + [1])
            m2 = max([abs(x) for x in p['v']] + [1])
            if m1 * m2 >= 2**29 or m1 * m2 * growth // self.vs >= 2**29:
                return None
            return e
        tzs, ms = [], []
        for q in (o, p):
            todo = [a for a in range(o['d']) if (a in ax) != q['four'][a]]
            f = self.ftroom(q, todo, norm)
            if f is None or not self.room(q, f[0], f[1]):
                return None
            tz = min([(x & -x).bit_length() - 1 for x in q['v'] + q['w'] if x] or [20])
            tzs.append(tz - f[0])
            g2 = 1
            for a in todo:
                if not q['four'][a]:
                    g2 *= q['n'][a] * (max(1, q['px'][a] / 64) if norm else 1)
                else:
                    g2 *= max(1, 64 / q['px'][a]) if norm else 1
            ms.append(max([abs(x) for x in q['v'] + q['w']] + [1]) * g2 * 2)
        if sum(tzs) < lv or ms[0] * ms[1] * 2 >= 2**30:
            return None
        return e

    # ------------------------------------------------------------- convolution
    def m_conv(self):
        r = self.r
        k = self.live(lambda o: o['d'])
        h = self.live(lambda o: o['d'] and not any(o['four']) and not o['ps'] and not o['w'])
        if not k or not h:
            return None
        o, p = self.st(k), self.st(h)
        all_ = r.random() < .4
        ax = list(range(p['d'])) if all_ else self.someaxes(o)
        e = {'op': 'conv', 'g': k, 'h': h, 'all': all_, 'ax': [] if all_ else ax, 'inplace': r.random() < .5, 'to': self.slot(), 'pad': []}
        if r.random() < .4:
            e['pad'] = [r.choice([0, 1, 2])] if r.random() < .6 else [r.choice([0, 1, 3]) for _ in range(max(2, len(ax)))]
        bad = not o['act'] or not p['act'] or o['ps'] or any(o['four']) or p['d'] > o['d'] or any(not 0 <= a < o['d'] for a in ax)
        if bad:
            return e if r.random() < .2 else None
        for i in range(o['d'] + 1):
            gn = (o['n'] + [o['np']])[i]
            sn = p['np'] if i == o['d'] else p['n'][i] if i < p['d'] else 1
            if i < o['d'] and i in ax:
                continue
            if sn != 1 and sn != gn:
                if r.random() > (.5 if gn == 1 else .15):
                    return None
        lv = self.lg(self.vs)
        tz = lambda q: min([(x & -x).bit_length() - 1 for x in q['v'] + q['w'] if x] or [20])
        if tz(o) + tz(p) < lv:
            return None
        if max([abs(x) for x in o['v'] + o['w']] + [1]) * max(1, sum(abs(x) for x in p['v'])) >= 2**30:
            return None
        return e

    def m_psf(self):
        r = self.r
        d = r.choice([1, 1, 2])
        lv = self.lg(self.vs)
        far = 1 if lv < 9 else 2 if d == 1 else 1
        spectral = r.random() < .5
        px = [r.choice([64, 32, 128]) for _ in range(d)]
        k = [r.choice([0, 1, far]) for _ in range(d)]
        e = {'op': 'psf', 'to': self.slot(), 'px': px, 'side': [(2 * a + 1) * b for a, b in zip(k, px)], 'x': [], 'lo': 0, 'step': 0, 'area': r.random() < .4,
             '_spec0': 0, '_exp': 1}
        if spectral:
            e['_exp'] = r.choice([1, 1, 1, 0, 2, -1])
            m = r.choice([2, 3]) if e['_exp'] == 1 and d == 1 and lv >= 10 else 2
            step = r.choice([64, 128])
            # channels at 1, 2 (and 3) times the first one
            ch = [step * (i + 1) for i in range(m)]
            e['_spec0'] = ch[0] if e['_exp'] >= 0 else ch[-1]
            ratio = lambda s: (s / e['_spec0']) ** (2 * e['_exp'])
            e['x'] = [int(round(ratio(s))) for s in ch]
            e['lo'], e['step'] = ch[0] - step // 2, step
            if max(e['x']) * sum(a * a for a in k) > lv:
                e['side'] = [3 * px[0]] + [px[i] for i in range(1, d)]
                if max(e['x']) > lv:
                    return None
        elif sum(a * a for a in k) > lv:
            return None
        e['au'] = self.unit('a', d + (1 if e['x'] else 0))
        if len(e['au']) not in (0, 1, d + (1 if e['x'] else 0)):
            e['au'] = []
        return e

    def m_avg(self):
        r = self.r
        k = self.live(lambda o: o['d'] and len(o['v']) <= 40)
        if not k:
            return None
        o = self.st(k)
        all_ = r.random() < .4
        ax = self.someaxes(o) if not all_ else []
        axs = list(range(o['d'])) if all_ else ax
        bad = not o['act'] or any(not 0 <= a < o['d'] for a in axs)
        e = {'op': 'avg', 'g': k, 'all': all_, 'ax': ax, 'c': [], 'wt': {'shape': [1], 'x': []}, 'fu': [0] * o['d'], 'edges': [1, 2], 'std': False, 'biased': True,
             'shells': False, 'k': 0, 'log': False, '_K': 0}
        if bad:
            return e if r.random() < .2 and not (o['act'] and any(not 0 <= a < o['d'] for a in axs)) else None
        fs = o['four'][axs[0]]
        if fs and len(set(o['four'][a] for a in axs)) == 1:
            ws = [o['n'][a] * o['px'][a] for a in axs]
            K = math.lcm(*ws)
            if K // min(ws) > 8:
                return None
            while K // min(ws) < 16:
                K *= 2
            e['_K'] = K
            for a, w in zip(axs, ws):
                e['fu'][a] = K // w
        elif len(set(o['four'][a] for a in axs)) > 1:
            e['_K'] = 0
            e['fu'] = [1] * o['d']
            return e if r.random() < .3 and all(o['n'][a] * o['px'][a] == o['n'][axs[0]] * o['px'][axs[0]] for a in axs) else None
        lo = self.los(o)
        if not fs and r.random() < .5:
            e['c'] = [r.choice([o['c'][i], lo[i] + r.randrange(o['n'][i]) * o['px'][i] + o['px'][i] // 2, o['c'][i] + 7]) for i in range(o['d'])]
        if fs:
            offs = [[(j - o['n'][a] // 2) * e['fu'][a] for j in range(o['n'][a])] for a in axs]
        else:
            offs = [[lo[a] + j * o['px'][a] + o['px'][a] // 2 - (e['c'][a] if e['c'] else o['c'][a]) for j in range(o['n'][a])] for a in axs]
        if max(abs(x) for q in offs for x in q) > 6000:
            return None
        r2 = {0}
        for q in offs:
            r2 = {a + b * b for a in r2 for b in q}
        r2 = sorted(r2)
        far = 2 * math.sqrt(r2[-1])
        if r.random() < .3:
            e.update(shells=True, k=r.choice([1, 2, 3, 5, 10]), log=r.random() < .4)
            if not r2[0] and not fs and not self.dy:
                e['log'] = False        # whether a distance is 0 hangs on rounding
            if len([x for x in r2 if x or not e['log']]) < 2 or far > 20000:
                return None
            return e
        cand = set()
        for x in r2:
            q = 2 * math.sqrt(x)
            for t in (math.floor(q), math.ceil(q), int(q) - 5, int(q) + 5):
                cand.add(t if self.dy and not fs else t // 2 * 2 + 1)
        cand |= {1, int(far) // 2 * 2 + 9, int(far) // 4 * 2 + 1}
        cand = sorted(x for x in cand if x >= 0 and (x % 2 or (self.dy and not fs)))
        m = min(len(cand), r.choice([2, 3, 3, 5]))
        e['edges'] = sorted(r.sample(cand, m))
        if m < 2 or e['edges'][-1] > 30000:
            return None
        # small numbers only
        lv = self.lg(self.vs)
        if not self.room(o, lv - 2, 1) or max([abs(x) for x in o['v'] + o['w']] + [0]) > 12 * self.vs:
            return None
        cells = math.prod(o['n'][a] for a in axs)
        if r.random() < .5:
            shape = list(o['n']) + [o['np']]
            k2 = r.random()
            if k2 < .5:
                shape = shape[:-1] + ([1] if r.random() < .5 else [])
            if k2 < .3:
                shape = [s if r.random() < .6 else 1 for s in shape]
            e['wt'] = {'shape': shape, 'x': [r.choice([1, 1, 2, 3]) for _ in range(math.prod(shape))]}
            if len(shape) == o['d']:
                e['wt']['shape'] = shape
        e['std'] = r.random() < .6 and cells <= 16
        e['biased'] = r.random() < .5
        return e


    def m_view(self):
        r = self.r
        k = self.live(lambda o: o['act'] and o['d'] > 1) if r.random() < .94 else self.live()
        if not k:
            return None
        o = self.st(k)
        d = max(2, o['d'])
        ax = r.sample(range(d), 2)
        if r.random() < .04:
            ax = r.choice([ax[:1], ax + [ax[0]], [ax[0], o['d']]])
        e = {'op': 'view', 'g': k, 'ax': ax, 'sum': r.random() < .4, 'idx': [r.randrange(o['n'][i]) for i in range(o['d']) if i not in ax], 'prop': r.randrange(o['np'])}
        if r.random() < .05:
            e['prop'] = o['np']
        if not e['sum'] and r.random() < .05:
            e['idx'] = e['idx'] + [0] if r.random() < .5 or not e['idx'] else e['idx'][:-1] + [99]
        return e

    def m_film(self):
        r = self.r
        k = self.live(lambda o: o['act'] and o['d'] > 2) or (self.live() if r.random() < .3 else None)
        if not k:
            return None
        o = self.st(k)
        q = r.sample(range(max(3, o['d'])), 3)
        e = {'op': 'film', 'g': k, 'slide': q[2], 'face': q[:2], 'prop': r.randrange(o['np']), 'still': r.random() < .4, 'log': r.random() < .25,
             'i0': r.randrange((o['n'] + [1, 1, 1])[q[2]]) if r.random() < .5 else 0}
        if r.random() < .08:
            e.update(r.choice([{'prop': o['np']}, {'slide': o['d'] + 1}, {'face': q[:1]}, {'face': [q[0], o['d']]}, {'i0': 99}]))
        return e


MIX = {
    'G08': {'view': 9, 'film': 6, 'func': 3, 'cat': 2, 'gridder': 2, 'newprop': 2, 'pad': 1, 'crop': 1, 'scale': 1, 'down': 1, 'collapse': 1, 'ft': 2, 'sum': .5, 'new': 1, 'poke': 1},
    'G01': {'cat': 9, 'arr': 5, 'spec': 5, 'gridder': 4, 'newprop': 2, 'new': 1, 'axes': 1, 'func': 1, 'pad': 1, 'crop': 1, 'scale': 1, 'down': 1, 'init': .3, 'copy': .5, 'sample': 1},
    'G02': {'sample': 10, 'cat': 3, 'gridder': 2, 'func': 3, 'pad': 1.5, 'crop': 1.5, 'scale': 1.5, 'down': 1, 'collapse': 1, 'newprop': 1, 'copy': .5, 'axes': 1, 'arr': 1},
    'G03': {'pad': 4, 'crop': 4, 'scale': 4, 'down': 4, 'collapse': 4, 'cat': 2, 'func': 2, 'new': 1, 'axes': .5, 'ft': 1, 'newprop': 1, 'sample': 1, 'gridder': 1},
    'G04': {'copy': 5, 'copyaxes': 3, 'save': 4, 'load': 5, 'sum': 3, 'poke': 3, 'newprop': 3, 'cat': 2, 'new': 1, 'pad': 1, 'crop': 1, 'scale': 2, 'down': 1, 'collapse': 1, 'ft': 2, 'power': 1, 'init': .3, 'gridder': 1},
    'G05': {'ft': 6, 'power': 6, 'twice': 3, 'dc': 2, 'cat': 2, 'func': 2, 'new': .5, 'pad': 1, 'copy': 1, 'poke': 2, 'sum': .5, 'gridder': 1, 'scale': .5, 'newprop': 1},
    'G06': {'conv': 6, 'psf': 4, 'avg': 7, 'cat': 3, 'func': 2, 'new': 1, 'ft': .7, 'twice': 1.5, 'power': .7, 'poke': 1, 'gridder': 2, 'crop': .5, 'newprop': 1, 'copy': .5},
}


def history(ck, prop, seed, length):
    r = random.Random(seed)
    lam = r.choice([1., 1., 1., .5, .1, 1 / 3, math.pi, 4., 1e3 / 7])
    vs = 4096 if prop == 'G06' and r.random() < .5 else 256
    b = Bench(ck, lam, vs, r)
    m = Maker(b, r, vs, 16 if prop in ('G05', 'G06') else 24)
    if prop == 'G05':
        m.sizes = [1, 2, 4, 4, 2, 3, 6] if r.random() < .75 else [2, 3, 4, 5]
        m.pow2 = True
    if prop == 'G08':
        m.sizes, m.dims, m.small = [1, 2, 2, 3, 4], [2, 3, 3, 4, 1], 48
    ops = MIX[prop]
    ev = []
    starts = ['new', 'func', 'gridder']
    for s in range(2):
        ev.append(b.do(getattr(m, 'm_' + r.choice(starts))()))
    tries = 0
    while len(ev) < length and tries < 20 * length:
        tries += 1
        op = 'avg' if prop == 'G06' and m.near and r.random() < .6 else r.choice((['copy'] * 6 if ev[-1]['op'] == 'load' else ['cat'] * 4) + ['cat', 'copy', 'poke', 'newprop', 'sum']) if m.near and r.random() < .7 else r.choices(list(ops), list(ops.values()))[0]
        e = getattr(m, 'm_' + op)()
        if not e:
            continue
        ev.append(b.do(e))
        # what is done to a grid right after it was copied or loaded
        if prop == 'G06':
            m.near = [e['g']] if e['op'] == 'twice' else m.near if r.random() < .5 else ()
        if prop == 'G04':
            m.near = [e[k] for k in ('g', 'to') if k in e] if e['op'] in ('copy', 'load', 'sum') else m.near if r.random() < .5 else ()
        if any(not o['same'] and not m.ok(o) for o in ev[-1]['obs']['g']):
            break       # something is not what can be: the specification will say so
    return {'init': {}, 'ev': ev}, vs

def menu():
    """Calls on two grids and a file, for the exhaustive part"""
    V = 256
    cat = {'op': 'cat', 'g': 'a', 'pos': [], 'vals': [], 'cols': 1, 'count': True, 'new': False, 'all': True, 'props': []}
    yes = dict(all=True, ax=[])
    return {'start': [
        {'op': 'new', 'to': 'a', 'c': [0, 32], 'side': [128, 128], 'px': [64], 'au': ['Mpc', 'GHz'], 'gu': ['K'], 'np': 1, 'init': True},
        {'op': 'axes', 'to': 'a', 'axes': [[0, 64, 128, 192, 256]], 'au': ['GHz'], 'gu': [], 'np': 1, 'init': True},
        {'op': 'func', 'to': 'b', 'axes': [[-64, 0, 64], [0, 64, 128]], 'au': [], 'gu': [], 'np': 1, 'init': True, 'a': [1, 2], 'b': 1},
        {'op': 'gridder', 'to': 'b', 'c': [0, 0], 'side': [128], 'px': [64], 'au': [], 'gu': [], 'np': 1, 'pos': [[0, 0], [20, 70], [40, 30]], 'vals': [], 'cols': 1,
         'count': True, 'autoc': True, 'autos': True, 'new': False, 'all': True, 'props': []},
        {'op': 'psf', 'to': 'b', 'px': [64], 'side': [192], 'x': [], 'lo': 0, 'step': 0, 'area': False, 'au': ['GHz'], '_spec0': 0, '_exp': 1}],
        'fill': [
        dict(cat, pos=[[0, 32], [-64, 95], [64, 0]]), dict(cat, pos=[[70], [200]], count=False, vals=[[V], [2 * V]], new=True),
        dict(cat, pos=[[-1, 31], [-1, 33]], count=False, vals=[[V, 2 * V], [V, 4 * V]], cols=2, all=False, props=[1, 0]),
        {'op': 'arr', 'g': 'a', 'ax': 0, 'pos': [[40]], 'vals': [[V, 2 * V]], 'new': False, 'all': True, 'props': []},
        {'op': 'spec', 'g': 'a', 'ax': -1, 'pos': [[-10], [10]], 'par': [[40, V], [64, V]], 'cum': True, 'short': False, 'new': False, 'all': False, 'props': [0]},
        {'op': 'newprop', 'g': 'a', 'given': False, 'shape': [], 'vals': []},
        {'op': 'sum', 'g': 'a', 'inplace': True, 'to': 'b', 'all': True, 'props': []}, {'op': 'sum', 'g': 'a', 'inplace': False, 'to': 'b', 'all': False, 'props': [0]},
        {'op': 'poke', 'g': 'b', 'i': 1, 'x': 4 * V}],
        'shape': [
        {'op': 'pad', 'g': 'a', 'ax': [0], 'pad': [1], 'val': V}, {'op': 'pad', 'g': 'a', 'ax': [0], 'pad': [-1], 'val': 0},
        {'op': 'crop', 'g': 'a', 'ax': 0, 'min': 0, 'max': NAN}, {'op': 'crop', 'g': 'b', 'ax': 0, 'min': 1000, 'max': NAN},
        {'op': 'scale', 'g': 'a', 'ax': [0], 'f': [[2, 1]], 'same': False, 'au': ['kpc'], 'center': True},
        {'op': 'scale', 'g': 'a', 'ax': [0], 'f': [[1, 2]], 'same': True, 'au': [], 'center': False},
        {'op': 'down', 'g': 'a', 'ax': [0], 'f': [2], 'mode': 'average'},
        {'op': 'collapse', 'g': 'a', 'ax': [1], 'wt': [{'shape': [2], 'x': [1, 3]}], 'mode': 'average', 'inplace': False, 'to': 'b'},
        {'op': 'collapse', 'g': 'a', 'ax': [1], 'wt': [], 'mode': 'sum', 'inplace': True, 'to': 'b'}],
        'copy': [
        {'op': 'copy', 'g': 'a', 'to': 'b', 'all': True, 'props': []}, {'op': 'copy', 'g': 'a', 'to': 'a', 'all': False, 'props': [1, 0]},
        {'op': 'copyaxes', 'g': 'a', 'np': 2, 'to': 'b'},
        {'op': 'save', 'g': 'a', 'file': 'f1', 'ow': False}, {'op': 'save', 'g': 'b', 'file': 'f1', 'ow': True}, {'op': 'load', 'file': 'f1', 'to': 'b'}],
        'pictures': [
        {'op': 'view', 'g': 'b', 'ax': [0, 1], 'sum': True, 'idx': [], 'prop': 0}, {'op': 'view', 'g': 'a', 'ax': [1, 0], 'sum': False, 'idx': [], 'prop': 0},
        {'op': 'view', 'g': 'c', 'ax': [2, 0], 'sum': True, 'idx': [], 'prop': 0}, {'op': 'view', 'g': 'c', 'ax': [1, 2], 'sum': False, 'idx': [2], 'prop': 0},
        {'op': 'film', 'g': 'c', 'slide': 2, 'face': [0, 1], 'prop': 0, 'still': False, 'log': False, 'i0': 0},
        {'op': 'film', 'g': 'c', 'slide': 0, 'face': [2, 1], 'prop': 0, 'still': True, 'log': False, 'i0': 1},
        {'op': 'film', 'g': 'c', 'slide': 1, 'face': [2, 0], 'prop': 0, 'still': False, 'log': True, 'i0': 0},
        {'op': 'func', 'to': 'c', 'axes': [[-64, 0, 64, 128], [0, 64], [0, 128, 256]], 'au': [], 'gu': [], 'np': 1, 'init': True, 'a': [1, 2, 1], 'b': 1},
        {'op': 'ft', 'g': 'c', 'all': False, 'ax': [2], 'norm': False}],
        'fourier': [
        dict({'op': 'ft', 'g': 'a', 'norm': True}, **yes), {'op': 'ft', 'g': 'a', 'all': False, 'ax': [0], 'norm': False},
        dict({'op': 'power', 'g': 'a', 'h': 'b', 'norm': False, 'inplace': False, 'to': 'b'}, **yes),
        {'op': 'power', 'g': 'a', 'h': 'a', 'all': False, 'ax': [0], 'norm': False, 'inplace': True, 'to': 'a'},
        dict({'op': 'conv', 'g': 'a', 'h': 'b', 'inplace': True, 'to': 'a', 'pad': [1]}, **yes),
        {'op': 'conv', 'g': 'a', 'h': 'b', 'all': False, 'ax': [0], 'inplace': False, 'to': 'b', 'pad': []}]}


PARTS = {'G01': ('start', 'fill', 'shape'), 'G02': ('start', 'fill', 'shape'), 'G03': ('start', 'shape', 'fill'), 'G04': ('start', 'fill', 'copy'), 'G05': ('start', 'fill', 'fourier'),
         'G06': ('start', 'fill', 'fourier'), 'G08': ('start', 'fill', 'pictures')}


def exhaustive(ck, prop):
    m = menu()
    ops = [e for p in PARTS[prop] for e in m[p]]
    mf = os.path.join(ck.scratch, 'menu.json')
    json.dump({'ops': [{k: v for k, v in e.items() if k[0] != '_'} for e in ops]}, open(mf, 'w'))
    cfg = ('CONSTANT VS = 256\nCONSTANT Depth = %d\nINIT Init\nNEXT Next\nVIEW VView\nINVARIANT Inv FilesInv\nPROPERTY StepProp\n'
           'ACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n') % (4 if ck.thorough else 3)
    edges, i0 = ck.model_check('MCGrid', cfg, env={'MENU': mf}, dump=True)
    walks, cov, tot = core.cover_walks(edges, i0, 10, ck.rng, limit=3000 if ck.thorough else 150)
    ck.extra['model_transitions_taken_on_code'] = [cov, tot]

    def walk(w):
        with core.quiet():
            b = Bench(ck, ck_lam[len(w) % len(ck_lam)], 256, random.Random(str(w)))
            return {'init': {}, 'ev': [b.do(ops[i - 1]) for i in w]}
    ts = ck.parallel(walk, walks)
    ck.validate('TraceGrid', ts, 'CONSTANT VS = 256\nCONSTANT RES = %d\n' % RES, 'walk:', chunk=max(20, len(ts) // 8))


ck_lam = [1.]


def run(ck, prop):
    ck.setup_code(root=False)
    load(ck)
    exhaustive(ck, prop)
    n = 4000 if ck.thorough else 200 if prop in ("G05", "G06") else 300

    def hist(seed):
        with core.quiet():
            return history(ck, prop, seed, 12)
    res = ck.parallel(hist, ['%s-%d-%d' % (prop, ck.seed, k) for k in range(n)])
    for vs in (256, 4096):
        ts = [t for t, v in res if v == vs]
        if ts:
            ck.validate('TraceGrid', ts, 'CONSTANT VS = %d\nCONSTANT RES = %d\n' % (vs, RES), 'history:', chunk=max(20, len(ts) // 8))
    ck.assumptions += ['grids of up to 3 dimensions, 60 cells; values and lengths which binary fractions represent, lengths in any unit']
