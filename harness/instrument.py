"""Instruments (simim.instrument): the drivers of I01-I03.

Detectors get the responses of the package (Gaussians and boxcars with widths
that make their values powers of two) and responses defined here; everything
is in whole numbers for TLC, as for the grids."""
import json
import os
import random
import warnings

import core
import grid as GR

NAN = GR.NAN
XS = 64
VS = 256
LENS = {'cx', 'cy', 'fwhmx', 'fwhmy', 'freq0', 'fwhm', 'width', 'px'}


class Counter:
    """A source of random numbers that counts upwards"""
    def normal(self, loc=0., scale=1., size=None):
        return loc + scale * np.arange(size)


def load(ck):
    global np, INS, F, ALIAS, NAME, RNG
    GR.load(ck)
    import numpy as np
    from simim import instrument as INS
    from simim.instrument import Instrument, Detector  # noqa
    from simim.instrument import spatial_response as sp, spectral_response as se, noise_functions as no
    RNG = Counter()

    def poly(dx, dy, f, a=1, b=0, c=0, e=0):
        dx, dy, f = (np.asarray(q, dtype=float) for q in (dx, dy, f))
        return a + b * dx.reshape(-1, 1, 1) + c * dy.reshape(1, -1, 1) + e * f.reshape(1, 1, -1)

    def tab(dx, dy, f, ker=None, px=1.):
        i, j = (np.rint(np.asarray(q) / px * 2).astype(int) for q in (dx, dy))
        res = np.zeros((len(i), len(j), np.size(f)))
        for x, p in enumerate(i):
            for y, q in enumerate(j):
                if p in (-2, 0, 2) and q in (-2, 0, 2):
                    res[x, y] = ker[3 * (p // 2 + 1) + q // 2 + 1]
        return res

    def bad(dx, dy, f, **kw):
        return np.ones((len(dx), len(dy)))

    def lin(f, a=1, b=0):
        return a + b * np.asarray(f, dtype=float)

    def ramp(n, dt, b=0, s=0):
        return b + s * np.arange(n) * dt
    F = {'sp': {'gauss': sp.gauss_psf, 'sgauss': sp.gauss_psf_freq_dependent, 'poly': poly, 'tab': tab, 'bad': bad},
         'se': {'gauss': se.gauss_response, 'box': se.boxcar_response, 'lin': lin},
         'no': {'none': no.zero_noise, 'white': no.white_noise, 'ramp': ramp}}
    ALIAS = {'sp': {'gauss': ['gauss', 'Gauss', 'gaussian', 'Gaussian'],
                    'sgauss': ['specgauss', 'spec-gauss', 'SpecGauss', 'Spec-Gauss', 'spectral-gaussian', 'Spectral-Gaussian']},
             'se': {'gauss': ['gauss', 'Gauss', 'gaussian', 'Gaussian'], 'box': ['box', 'boxcar', 'Box', 'Boxcar']},
             'no': {'none': ['none', 'None'], 'white': ['white', 'White']}}
    NAME = {id(f): (m, k) for m in F for k, f in F[m].items()}


def value(name, x):
    if name == 'ker':
        return np.array(x)
    if name == 'rng':
        return RNG
    return x / XS if name in LENS else x


def kwargs_of(k):
    return {a: value(a, b) for a, b in k}


def pairs(d):
    """Keyword arguments as the specification has them"""
    if d is None:
        return [['-', 0]]
    res = []
    for a in sorted(d):
        x = d[a]
        if a == 'ker':
            res.append([a, [GR.near(v) for v in np.ravel(x)]])
        elif a == 'rng':
            res.append([a, 1 if x is RNG else 2])
        else:
            res.append([a, GR.near(x * (XS if a in LENS else 1))])
    return res


def fname(f, mode):
    if f is None:
        return ''
    m, k = NAME.get(id(f), ('', '?'))
    return k if m == mode else '?'


class Lab(GR.Bench):
    def __init__(self, ck, rng, auto):
        GR.Bench.__init__(self, ck, 1., VS, rng)
        self.inst, self.auto, self.lattice = None, auto, []

    # -------------------------------------------------------------- arguments
    def resp(self, r, mode):
        if r['f'] == '':
            f = None
        elif r['f'] not in F[mode]:
            f = r['f']
        else:
            al = ALIAS[mode].get(r['f'])
            f = self.rng.choice(al) if al and self.rng.random() < .6 else F[mode][r['f']]
        k = None if r['nk'] else 7 if r['bk'] else kwargs_of(r['k'])
        if isinstance(k, dict):
            self.given.append((k, dict(k)))
        return f, k

    def do(self, e):
        self.given, self.warns = [], []
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            ev = GR.Bench.do(self, e)
            o = ev['obs']
            if e['op'] == 'field':
                t = [str(x.message) for x in w]
                o['warn'] = [any('spatial resolution' in x for x in t), any('spectral resolution' in x for x in t)]
            for a, b in self.given:
                if a.keys() != b.keys() or any(a[k] is not b[k] for k in a):
                    o['argsame'] = False
                if self.rng.random() < .6:
                    for k in a:             # the caller may do with it what he likes
                        a[k] = 17
                    a['other'] = 5
            if self.inst is not None:
                self.state(o)
        return ev

    def state(self, o):
        I = self.inst
        o['det'] = []
        for n in I.detector_names:
            d = I.detectors[n]
            o['det'].append({'name': d.name, 'off': [GR.near(x * XS) for x in d.pointing_offsets],
                             'ref': GR.rnd(d.reffreq * XS),
                             'sp': {'f': fname(d.spatial_response, 'sp'), 'k': pairs(d.spatial_kwargs)},
                             'se': {'f': fname(d.spectral_response, 'se'), 'k': pairs(d.spectral_kwargs)},
                             'no': {'f': fname(d.noise_function, 'no'), 'k': pairs(d.noise_kwargs)}})
        o['df'] = {'sp': {'f': fname(I.default_spatial_response, 'sp'), 'k': pairs(I.default_spatial_kwargs)},
                   'se': {'f': fname(I.default_spectral_response, 'se'), 'k': pairs(I.default_spectral_kwargs)},
                   'no': {'f': fname(I.default_noise_function, 'no'), 'k': pairs(I.default_noise_kwargs)}}
        o['fl'], o['fd'], o['dd'] = list(I.field_names), sorted(I.fields), sorted(I.detectors)
        o['stray'] = sorted({k for m in ('maps', 'maps_consistent', 'field_props') for k in (getattr(I, m, None) or {}) if k not in o['fl']})
        o['look'] = []
        for n in (list(I.field_names) if self.auto else []):
            pos = [self.rng.choice(self.lattice) for _ in range(5)]
            q = {'name': n, 'pos': pos, 'rows': [], 'stale': False}
            try:
                r = I.sample_fields(np.array([[x / XS for x in p] for p in pos]), n, sample_noise=False)
                q['rows'] = self.rows(r)
            except Exception:
                q['stale'] = True
            o['look'].append(q)

    def rows(self, r):
        return [GR.nears(x * VS * 4, 1e-4) if False else [self.cell(y) for y in x] for x in np.asarray(r)]

    def cell(self, y):
        y = float(y) * VS * 4
        return int(round(y)) if np.isfinite(y) and abs(y) < 2**30 else NAN

    def look_at(self, g):
        return GR.Bench.look_at(self, g)

    # -------------------------------------------------------------------- ops
    def op_inst(self, e, o, det=False):
        kw = dict(spatial_unit=e['su'] or None, spectral_unit=e['pu'] or None, flux_unit=e['fu'] or None,
                  pointing_offset_frame=e['frame'] or None)
        bs, bf = (x / XS if x else None for x in (e['bs'], e['bf']))
        r = {m: self.resp(e[m], m) for m in ('sp', 'se', 'no')}
        if det:
            I = INS.Detector(spatial_response=r['sp'][0], spatial_kwargs=r['sp'][1], spectral_response=r['se'][0], spectral_kwargs=r['se'][1],
                             noise_function=r['no'][0], noise_kwargs=r['no'][1], pointing_offsets=self.off(e), nominal_frequency=self.nom(e),
                             spatial_res=bs, spectral_res=bf, **kw)
        else:
            I = INS.Instrument(default_spatial_response=r['sp'][0], default_spatial_kwargs=r['sp'][1],
                               default_spectral_response=r['se'][0], default_spectral_kwargs=r['se'][1],
                               default_noise_function=r['no'][0], default_noise_kwargs=r['no'][1], best_spatial_res=bs, best_spectral_res=bf, **kw)
        self.inst = I

    def op_detector(self, e, o):
        self.op_inst(e, o, True)

    def off(self, e):
        if not e['off']:
            return None
        f = [x / XS for x in e['off']]
        return self.rng.choice([tuple, list, np.array])(f)

    def nom(self, e):
        return e['nom'] / XS if e['nom'] else None

    def op_det(self, e, o):
        r = {m: self.resp(e[m], m) for m in ('sp', 'se', 'no')}
        kw = {}
        for m, a in (('sp', 'spatial'), ('se', 'spectral'), ('no', 'noise')):
            fn = a + ('_function' if m == 'no' else '_response')
            if r[m][0] is not None or self.rng.random() < .3:
                kw[fn] = r[m][0]
            if r[m][1] is not None or self.rng.random() < .3:
                kw[a + '_kwargs'] = r[m][1]
        if e['off'] or self.rng.random() < .3:
            kw['pointing_offsets'] = self.off(e)
        if e['nom'] or self.rng.random() < .3:
            kw['nominal_frequency'] = self.nom(e)
        self.inst.add_detector(*([e['name']] if e['name'] else []), **kw)

    def op_deldet(self, e, o):
        self.inst.del_detectors(*e['names'])

    def op_set(self, e, o):
        f, k = self.resp(e['r'], e['mode'])
        kw = {} if k is None and self.rng.random() < .5 else {{'sp': 'spatial_kwargs', 'se': 'spectral_kwargs', 'no': 'noise_kwargs'}[e['mode']]: k}
        if e['mode'] == 'sp':
            self.inst.set_spatial_respones(*e['names'], spatial_response=f, **kw)
        elif e['mode'] == 'se':
            self.inst.set_spectral_respones(*e['names'], spectral_response=f, **kw)
        else:
            self.inst.set_noise_functions(*e['names'], noise_function=f, **kw)

    def op_field(self, e, o):
        kw = {}
        if e['name']:
            kw['name'] = e['name']
        if e['prop'] or self.rng.random() < .5:
            kw['field_property_idx'] = e['prop']
        if not e['inplace'] or self.rng.random() < .5:
            kw['in_place'] = e['inplace']
        self.inst.add_field(self.g[e['g']], **kw)

    def op_delfield(self, e, o):
        self.inst.del_fields(*e['names'])

    def op_map(self, e, o):
        kw = {}
        if e['norm'] != 'peak' or self.rng.random() < .5:
            kw['spatial_response_norm'] = e['norm']
        if e['ks']:
            kw['kernel_size'] = e['ks'][0] if len(e['ks']) == 1 else self.rng.choice([tuple, np.array])(e['ks'])
        if e['beam']:
            kw['beam'] = self.g[e['beam']]
        if e['pad']:
            kw['pad'] = e['pad'][0] if len(e['pad']) == 1 else self.rng.choice([tuple, list, np.array])(e['pad'])
        self.inst.map_fields(*e['names'], **kw)
        o['geo'] = []
        for n in e['names'] or self.inst.field_names:
            m = self.inst.maps[n]
            un = lambda q: ['' if u is None else str(u) for u in q]
            o['geo'].append({'name': n, 'n': [int(x) for x in m.n_pixels], 'lo': [GR.near(a[0] * XS) for a in m.axes],
                             'px': [GR.near(x * XS) for x in m.pixel_size], 'gu': un(m.gridunits), 'au': un(m.axunits)})

    def op_isample(self, e, o):
        pos = np.array([[x / XS for x in p] for p in e['pos']]).reshape(-1, 2)
        if all(x % XS == 0 for p in e['pos'] for x in p) and self.rng.random() < .5:
            pos = pos.astype(int)
        if e['shape'] == 1:
            pos = pos.ravel()
        elif e['shape'] == 3:
            pos = np.concatenate([pos, np.zeros((len(pos), 1))], axis=1)
        kw = {}
        if not e['signal'] or self.rng.random() < .5:
            kw['sample_signal'] = e['signal']
        if not e['noise'] or self.rng.random() < .5:
            kw['sample_noise'] = e['noise']
        if e['dt']:
            kw['dt'] = (e['dt'] / 2) ** 2
        r = self.inst.sample_fields(self.arg(pos), *e['names'], **kw)
        o['dict'] = isinstance(r, dict)
        names = list(e['names'] or self.inst.field_names)
        if not o['dict']:
            r = {names[0]: r}
        o['out'] = [{'name': n, 'rows': self.rows(x)} for n, x in r.items()]


    # --------------------------------------------------------------- pictures
    def ends(self, e):
        x = lambda v: None if v == NAN else v / XS
        names = (['xmin', 'xmax', 'ymin', 'ymax'] if 'x' in e else []) + ['fmin', 'fmax']
        kw = {n: x(v) for n, v in zip(names, e.get('x', []) + e['f'])}
        return {k: v for k, v in kw.items() if v is not None or self.rng.random() < .3}

    def line(self, ln, rs):
        f, v = (np.asarray(q, dtype=float) for q in (ln.get_xdata(), ln.get_ydata()))
        pts = [[int(round(a * XS)), GR.rnd(b * 16)] for a, b in zip(f, v) if abs(a * XS - round(a * XS)) < 1e-6 and any(exact_weight(r, int(round(a * XS))) for r in rs)]
        return {'n': int(f.size), 'ends': [GR.rnd(f[0] * XS * 10), GR.rnd(f[-1] * XS * 10)], 'pts': self.few(pts, 25)}

    def few(self, q, n):
        return q if len(q) <= n else sorted(self.rng.sample(q, n))

    def refs(self):
        return [GR.rnd(self.inst.detectors[n].reffreq * XS) for n in self.inst.detector_names]

    def plain(self, d):
        """The responses of a detector, to choose points by"""
        return [{'f': fname(x, m), 'k': dict(pairs(y))} for x, y, m in ((d.spectral_response, d.spectral_kwargs, 'se'), (d.spatial_response, d.spatial_kwargs, 'sp'))]

    def op_plotdet(self, e, o):
        from handler import Pictures
        I = self.inst
        kw = self.ends(e)
        if e['fs']:
            kw['fspatial'] = e['fs'] / XS
        with Pictures() as P:
            I.plot_detector_response(*e['names'], **kw)
            o['ref'], o['panels'], lab = self.refs(), [], True
            for n, fig in zip(e['names'] or I.detector_names, P.figures()):
                a, b = fig.axes[:2]
                t = fig.get_suptitle()
                name = t.split(': ', 1)[1] if ': ' in t else t
                lab = lab and str(I.spectral_unit) in a.get_xlabel() and str(I.spatial_unit) in b.get_xlabel() and str(I.spatial_unit) in b.get_ylabel()
                se, sp = self.plain(I.detectors[n])
                at = float(np.asarray(a.lines[1].get_xdata())[0])
                m = b.collections[0]
                xy = m.get_coordinates()
                x = (xy[0, :-1, 0] + xy[0, 1:, 0]) / 2 * XS
                y = (xy[:-1, 0, 1] + xy[1:, 0, 1]) / 2 * XS
                v = np.asarray(m.get_array(), dtype=float).reshape(len(y), len(x))
                rect = bool(np.allclose(xy[:, :, 0], xy[0, :, 0]) and np.allclose(xy[:, :, 1], xy[:, :1, 1]))
                fr = e['fs'] or at * XS
                cells = []
                if abs(fr - round(fr)) < 1e-6:
                    fr = int(round(fr))
                    ii = [i for i in range(len(x)) if abs(x[i] - round(x[i])) < 1e-6]
                    jj = [j for j in range(len(y)) if abs(y[j] - round(y[j])) < 1e-6]
                    cells = [[int(round(x[i])), int(round(y[j])), fr, i, j] for i in ii for j in jj if exact_beam(sp, int(round(x[i])), int(round(y[j])), fr)]
                    cells = [c[:3] + [GR.rnd(v[c[4], c[3]] * VS)] for c in self.few(cells, 25)]
                o['panels'].append({'name': name, 'line': self.line(a.lines[0], [se]), 'at': GR.rnd(at * XS * 10), 'nx': len(x), 'ny': len(y) if rect else 0,
                                    'win': [GR.near(q) for q in (x[0], x[-1], y[0], y[-1])], 'cells': cells})
            o['lab'] = bool(lab and len(P.figures()) == len(e['names'] or I.detector_names))

    def op_plotspec(self, e, o):
        from handler import Pictures
        I = self.inst
        with Pictures() as P:
            I.plot_spectral_response(**self.ends(e))
            figs = P.figures()
            a = figs[0].axes[0]
            o['ref'] = self.refs()
            rs = [self.plain(I.detectors[n])[0] for n in I.detector_names]
            o['lines'] = [self.line(q, rs) for q in a.lines]
            o['lab'] = bool(len(figs) == 1 and str(I.spectral_unit) in a.get_xlabel())


def exact_weight(r, fr):
    """Does the specification say what this spectral response is at this frequency?"""
    k = r['k']
    if r['f'] == 'gauss':
        f0, w = k.get('freq0', 100 * XS), k.get('fwhm', XS)
        return (2 * (fr - f0)) % w == 0 and (2 * (fr - f0) // w) ** 2 <= 4
    if r['f'] == 'lin':
        return (16 * k.get('b', 0) * fr) % XS == 0
    if r['f'] == 'box':
        return abs(2 * abs(fr - k.get('freq0', 100 * XS)) - k.get('width', XS)) > 0
    return False


def exact_beam(r, dx, dy, fr):
    k = r['k']
    if r['f'] == 'poly':
        return True
    if r['f'] == 'tab':
        return (2 * dx) % k['px'] == 0 and (2 * dy) % k['px'] == 0
    if r['f'] in ('gauss', 'sgauss'):
        num = den = 1
        if r['f'] == 'sgauss':
            p, f0 = k.get('freq_exp', -1), k.get('freq0', 0)
            if fr % XS or f0 % XS or 'freq0' not in k:
                return False
            num, den = (f0 // XS, fr // XS) if p == -1 else (fr // XS, f0 // XS) if p == 1 else (1, 1)
        q = [(2 * (dx - k.get('cx', 0)) * num, k.get('fwhmx', XS) * den), (2 * (dy - k.get('cy', 0)) * num, k.get('fwhmy', XS) * den)]
        return all(b > 0 and a % b == 0 for a, b in q) and sum((a // b) ** 2 for a, b in q) <= 8
    return False


# --------------------------------------------------------------------- histories
NONE = {'f': '', 'k': [], 'nk': True, 'bk': False}


def R(f, k=None):
    return {'f': f, 'k': sorted([list(x) for x in (k or {}).items()]), 'nk': k is None, 'bk': False}


class Maker:
    """Random histories on a sky of given pixels and channels, with responses
    that are exact there"""

    def __init__(self, ck, prop, rng):
        self.rng, self.prop = rng, prop
        r = rng
        self.lab = Lab(ck, rng, r.random() < .6)
        self.px = r.choice([[64, 64], [128, 128], [64, 128], [128, 64]])
        self.freq = r.choice([[64, 128], [128, 256], [64, 128, 192], [128], [128, 192, 256]])
        self.df = self.freq[1] - self.freq[0] if len(self.freq) > 1 else 64
        self.norms = r.choice([['none'], ['peak'], ['area'], ['none', 'peak'], ['none', 'peak', 'area']])
        self.kss = r.choice([[[3]], [[1], [3]], [[3, 1], [3]], [[2]], [[2, 3]], [[3]]])
        self.bs = r.choice([0, 0, 0, max(self.px), 5 * max(self.px)])
        if self.bs == max(self.px):
            self.kss = self.kss[:1] + [[]]
        self.bf = r.choice([0, 0, self.df, 5 * self.df, 2 * self.df])
        self.spool = self.spatial()
        self.epool = self.spectral()
        h = 64
        lo = [-2 * p for p in self.px]
        self.lab.lattice = [[x, y] for x in range(lo[0] - h, 3 * self.px[0], 32) for y in range(lo[1] - h, 3 * self.px[1], 32)]
        self.names, self.fields, self.grids, self.beams = [], [], [], []
        self.bad = r.random() < .25         # histories with unusable responses

    def exact(self, s):
        """Is this spatial response exact for every kernel of this history?"""
        f, k = F['sp'][s['f']], kwargs_of(s['k'])
        for ks in self.kss:
            n = ks * 2 if len(ks) == 1 else ks if ks else [int(np.rint(self.bs / p)) * 10 + 1 for p in self.px]
            ax = [(np.arange(m) - (m - 1) / 2) * p / XS for m, p in zip(n, self.px)]
            try:
                a = np.asarray(f(ax[0], ax[1], np.array(self.freq) / XS, **k), dtype=float)
            except Exception:
                return False
            if a.shape != (n[0], n[1], len(self.freq)) or np.any(np.abs(a * VS - np.rint(a * VS)) > 1e-7):
                return False
            a = np.rint(a * VS) / VS
            for norm in self.norms:
                d = {'none': np.ones(len(self.freq)), 'peak': a.max(axis=(0, 1)), 'area': a.sum(axis=(0, 1))}[norm]
                if np.any(d == 0):
                    return False
                b = a / d
                if np.any(b * VS != np.rint(b * VS)) or np.abs(b).sum(axis=(0, 1)).max() > 60:
                    return False
        return True

    def spatial(self):
        r, px, res = self.rng, self.px, []
        tries = []
        for _ in range(60):
            m = r.choice([1, 2, 2, 2, 4])
            d = {'fwhmx': m * px[0], 'fwhmy': r.choice([1, 2, 2]) * px[1]}
            if r.random() < .3:
                d['cx'] = r.choice([-1, 1]) * px[0]
            if r.random() < .3:
                d['cy'] = r.choice([-1, 1]) * px[1]
            k = r.random()
            if k < .25:
                tries.append(R('gauss', d if r.random() < .85 else {}))
            elif k < .45:
                d['freq0'] = r.choice([self.freq[0], self.freq[-1]])
                if r.random() < .5:
                    d['freq_exp'] = r.choice([-1, 1, 0])
                tries.append(R('sgauss', d))
            elif k < .7:
                tries.append(R('poly', {a: r.choice([0, 1, 2, -1, 3]) for a in r.sample('abce', r.randint(0, 3))}))
            else:
                ker = [r.choice([0, 0, 1, 2, 4]) for _ in range(9)]
                tries.append({'f': 'tab', 'k': [['ker', ker], ['px', px[0]]], 'nk': False, 'bk': False} if px[0] == px[1] else R('poly', {}))
        tries += [{'f': 'tab', 'k': [['ker', [0] * 4 + [4] + [0] * 4], ['px', px[0]]], 'nk': False, 'bk': False}] if px[0] == px[1] else []
        tries += [{'f': 'tab', 'k': [['ker', [0, 1, 0, 1, 4, 1, 0, 1, 0]], ['px', px[0]]], 'nk': False, 'bk': False}] if px[0] == px[1] else []
        res = []
        for t in tries:
            if t not in res and (self.prop == 'I04' or self.exact(t)):
                res.append(t)
        r.shuffle(res)
        return res[:5]

    def spectral(self):
        r, res = self.rng, []
        for _ in range(5):
            k = r.random()
            if k < .35:
                d = {'freq0': r.choice(self.freq), 'width': r.choice([1, 2, 3]) * self.df}
                if r.random() < .5:
                    d['A'] = r.choice([1, 2, 3])
                res.append(R('box', d))
            elif k < .7:
                res.append(R('gauss', {'freq0': r.choice(self.freq), 'fwhm': r.choice([1, 2]) * 2 * self.df if len(self.freq) < 3 else 2 * self.df, 'A': r.choice([1, 2])}))
                d = dict(res[-1]['k'])
                if any((4 * (f - d['freq0']) ** 2) % d['fwhm'] ** 2 for f in self.freq):
                    res.pop()
                elif any((4 * (f - d['freq0']) ** 2) // d['fwhm'] ** 2 > 4 for f in self.freq):
                    res.pop()
            else:
                res.append(R('lin', {'a': r.choice([0, 1, 2]), 'b': r.choice([0, 1, 2])} if r.random() < .8 else {}))
        return res or [R('lin', {'b': 1})]

    def noise(self):
        r, k = self.rng, self.rng.random()
        if k < .3:
            return R('none', r.choice([None, {}]))
        if k < .6:
            return R('ramp', {a: r.choice([1, 2, -1, 3]) for a in r.sample(['b', 's'], r.randint(0, 2))})
        d = {'rng': 1}
        for a in r.sample(['rms', 'bias'], r.randint(0, 2)):
            d[a] = r.choice([1, 2, 3])
        if r.random() < .3:
            d = {'rms': 0, 'bias': r.choice([1, 2])}
        return R('white', d)

    def some(self, mode, junk=.05):
        r = self.rng
        if r.random() < junk:
            return dict(R(r.choice([x for x in ['junk', 'box', 'none', 'poly', 'lin'] if x not in F[mode]]), {}), **({'bk': True} if r.random() < .5 else {}))
        if mode == 'sp':
            if self.prop == 'I04' and r.random() < .4:
                return R('poly', {a: r.choice([0, 1, 2, -1, 3]) for a in r.sample('abce', r.randint(1, 4))})
            if self.bad and r.random() < .1:
                return R('bad', {})
            return r.choice(self.spool) if self.spool else R('bad', {})
        return r.choice(self.epool) if mode == 'se' else self.noise()

    def legal(self, x, mode, d=None):
        """Keyword arguments without function stand with the default function"""
        return x

    def resp(self, mode):
        """A response for a new detector: complete, by default, or half of one"""
        r, k = self.rng, self.rng.random()
        d = self.df_[mode]
        if k < .35 and d['f']:
            return dict(NONE)
        if k < .5 and d['f']:
            same = [x for x in (self.spool if mode == 'sp' else self.epool if mode == 'se' else []) if x['f'] == d['f']]
            if same:
                return dict(r.choice(same), f='')
        if k < .53:
            return dict(NONE)
        x = dict(self.some(mode))
        if x['f'] == 'junk' or (x['f'] and x['f'] not in F[mode]):
            return x
        return x

    def fresh(self, i):
        return self.rng.choice(['', '', 'abcxy'[i % 5], 'det %d' % i, str(i)])

    def names_of(self, q, all_=.3):
        r, k = self.rng, self.rng.random()
        if k < all_ or not q:
            return [] if k < .9 or not q else ['nobody']
        if k < .93:
            return r.sample(q, r.randint(1, len(q)))
        return r.choice([['nobody'], [q[0], q[0]], [q[0], 'nobody']])

    def inst(self, det=False):
        r = self.rng
        e = {'op': 'detector' if det else 'inst', 'su': r.choice(['', '', 'rad', 'deg']), 'pu': r.choice(['', '', 'GHz', 'um']), 'fu': r.choice(['', '', 'Jy', 'mJy']),
             'bs': self.bs, 'bf': self.bf, 'frame': r.choice(['', '', '', 'radec', 'none'] + (['azel', 'x'] if r.random() < .1 else []))}
        if r.random() < .05:
            e[r.choice(['su', 'pu', 'fu'])] = 'furlong'
        for m in ('sp', 'se', 'no'):
            x = self.some(m, .02) if r.random() < (.95 if det else .75) else dict(NONE)
            if x['f'] and r.random() < .2:
                y = dict(x, nk=True, k=[])
                if m == 'se' or m == 'no' and x['f'] != 'white' or m == 'sp' and self.exact_default(y):
                    x = y
            e[m] = x
        if det:
            e.update(name='', off=self.offs(), nom=r.choice([0, 128]))
        return e

    def exact_default(self, x):
        return x['f'] != 'sgauss' and (x['f'] not in F['sp'] or x['f'] == 'bad' or self.exact(dict(x, k=[])))

    def offs(self):
        r = self.rng
        return r.choice([[], [], [r.choice([-64, 0, 64, 32]), r.choice([-64, 0, 64, 128])]] + ([[64], [0, 0, 0]] if r.random() < .1 else []))

    def det(self, i):
        r = self.rng
        e = {'op': 'det', 'name': self.fresh(i) if r.random() < .95 else r.choice(['instrument', '0', '1', 'a']), 'off': self.offs(), 'nom': r.choice([0, 128, 128, 192])}
        for m in ('sp', 'se', 'no'):
            e[m] = self.resp(m)
        x = e['sp']
        # arguments for whatever function is the default: they must suit it exactly
        if x['f'] and x['nk'] and not self.exact_default(x):
            e['sp'] = dict(x, nk=False)
        return e

    def setr(self):
        r = self.rng
        m = r.choice(['sp', 'se', 'no'])
        x = dict(self.some(m, .06)) if r.random() < .93 else dict(NONE, nk=r.random() < .5)
        names = self.names_of(self.names, .25)
        if r.random() < .3:
            names = names + ['instrument'] if r.random() < .7 else ['instrument']
        return {'op': 'set', 'mode': m, 'names': names, 'r': x}

    def sky(self, to):
        r = self.rng
        n = [r.randint(1, 4), r.randint(2, 4), len(self.freq)]
        c = [r.choice([0, 0, 64, -32]), r.choice([0, 0, 64])]
        lo2 = self.freq[0] - self.df // 2
        c.append(lo2 + n[2] * self.df // 2)
        e = {'op': 'new', 'to': to, 'c': c, 'side': [n[0] * self.px[0], n[1] * self.px[1], n[2] * self.df], 'px': self.px + [self.df],
             'au': r.choice([[], [], ['rad', 'rad', 'GHz'], ['deg', 'deg', 'um'], ['', 'rad', 'GHz'], ['rad', '', '']]), 'gu': r.choice([[], ['Jy'], ['mJy'], ['Jy']]),
             'np': 1, 'init': r.random() < .97}
        ev = [e]
        if e['init']:
            k = n[0] * n[1] * n[2]
            ev.append({'op': 'newprop', 'g': to, 'given': True, 'shape': n, 'vals': [VS * r.choice([0, 0, 1, 2, 3, 5, 8, -1]) for _ in range(k)]})
            ev.append({'op': 'poke', 'g': to, 'i': r.randint(1, 2 * k), 'x': VS * 4})
            if r.random() < .3:
                ev.append({'op': 'cat', 'g': to, 'pos': [[r.choice([-32, 0, 32]), r.choice([0, 32]), r.choice(self.freq)] for _ in range(3)], 'vals': [], 'cols': 1, 'count': True,
                           'new': False, 'all': True, 'props': []})
        return ev

    def beam(self):
        r = self.rng
        n = [r.choice([1, 2, 3]), r.choice([1, 3]), r.choice([1, len(self.freq), len(self.freq), 4])]
        k = n[0] * n[1] * n[2]
        return [{'op': 'new', 'to': 'beam', 'c': [0, 0, 0], 'side': [n[0] * self.px[0], n[1] * self.px[1], n[2] * self.df], 'px': self.px + [self.df], 'au': [], 'gu': [], 'np': 1, 'init': True}] + \
            [{'op': 'poke', 'g': 'beam', 'i': i, 'x': VS * r.choice([1, 2, 3])} for i in r.sample(range(1, k + 1), min(k, 3))]

    def poss(self):
        r = self.rng
        return [r.choice(self.lab.lattice) for _ in range(r.choice([0, 1, 4, 6, 6]))]

    def show(self, op):
        """A picture: of a region and a range on whose points responses are exact, or by default"""
        r = self.rng
        step = (999 if op == 'plotdet' else 4999) * r.choice([1, 1, 2])
        a = r.choice([0, 16, 32, 64])
        e = {'op': op, 'f': r.choice([[a, a + step], [a, a + step], [NAN, NAN], [a, NAN], [NAN, a + step]])}
        if op == 'plotdet':
            x = []
            for k in (0, 1):
                s = r.choice([16, 32, 64])
                lo = 32 * r.randint(-120, -10)
                x += [lo, lo + 99 * s]
            if r.random() < .25:
                x = [NAN if r.random() < .6 else v for v in x]
                if self.bs:             # the other end is one by default
                    x = [NAN if v != NAN and not (v < -5 * self.bs if k % 2 == 0 else v > 5 * self.bs) else v for k, v in enumerate(x)]
            e.update(x=x, fs=r.choice([0, 0, 64, 128, 256, 96]), names=self.names_of(self.names, .4))
        return e

    def history(self, n):
        r, ev = self.rng, []
        lab = self.lab

        def do(e):
            ev.append(lab.do(e))
            return not ev[-1]['obs']['err']
        for k in range(r.choice([1, 2, 2])):
            for e in self.sky('pq'[k]):
                do(e)
            self.grids.append('pq'[k])
        while True:
            e = self.inst(r.random() < .15)
            if do(e):
                break
            if len(ev) > 12:
                return None
        single = e['op'] == 'detector'
        self.df_ = {m: {'f': '' if single else e[m]['f']} for m in ('sp', 'se', 'no')}
        fixed = {m: {'f': '' if single else e[m]['f'], 'k': [] if single else e[m]['k']} for m in ('sp', 'se', 'no')}
        self.names = ['detector'] if single else []
        w = {'I01': dict(det=5, deldet=2, set=4, field=3, delfield=1, map=2, isample=1, poke=.5, world=.5, inst=.4),
             'I02': dict(det=4, deldet=.6, set=2, field=3, delfield=.5, map=5, isample=1, poke=1.5, world=.7, inst=.05),
             'I04': dict(det=5, deldet=.8, set=3, field=.2, plotdet=5, plotspec=3, inst=.3),
             'I03': dict(det=4, deldet=1, set=1.5, field=3, delfield=.5, map=4, isample=6, poke=1, world=.4, inst=.05)}[self.prop]
        plan = [k for k in w]
        for step in range(n):
            I = lab.inst
            op = r.choices(plan, [w[k] for k in plan])[0]
            if step < 2:
                op = ['det', 'field'][step]
            if op == 'inst':
                e = self.inst()
                if do(e):
                    self.names, self.fields = [], []
                    self.df_ = {m: {'f': e[m]['f']} for m in ('sp', 'se', 'no')}
            elif op == 'det':
                e = self.det(step)
                if do(e):
                    self.names = list(I.detector_names)
            elif op == 'deldet':
                e = {'op': 'deldet', 'names': self.names_of(self.names, .05)}
                if do(e):
                    self.names = [x for x in self.names if x not in e['names']]
            elif op == 'set':
                e = self.setr()
                if e['mode'] == 'sp' and e['r']['nk'] and e['r']['f'] in F['sp'] and e['r']['f'] != 'bad' and not self.exact_default(e['r']):
                    e['r'] = dict(e['r'], nk=False)
                if do(e) and 'instrument' in e['names']:
                    self.df_[e['mode']] = {'f': e['r']['f']}
            elif op == 'field':
                g = r.choice(self.grids)
                npr = 2
                e = {'op': 'field', 'g': g, 'name': r.choice(['', '', 'f%d' % step, 'sky', '0', '1']), 'prop': r.choice([0, 1, 1, 1] + ([2, -1, 5] if r.random() < .2 else [])), 'inplace': r.random() < .6}
                if do(e):
                    self.fields = list(I.field_names)
            elif op == 'delfield':
                e = {'op': 'delfield', 'names': self.names_of(self.fields, .05)}
                if do(e):
                    self.fields = [x for x in self.fields if x not in e['names']]
            elif op == 'map':
                e = {'op': 'map', 'names': self.names_of(self.fields, .5), 'norm': r.choice(self.norms), 'ks': r.choice(self.kss), 'beam': '', 'pad': r.choice([[], [], [1], [2], [1, 2]] + ([[1, 1, 1]] if r.random() < .1 else []))}
                if r.random() < .12 and (self.fields or r.random() < .1):
                    for x in self.beam():
                        do(x)
                    e.update(beam='beam', ks=[] if r.random() < .9 else e['ks'], pad=r.choice([[], [1]]))
                if r.random() < .04:
                    e['norm'] = 'volume'
                do(e)
            elif op == 'isample':
                e = {'op': 'isample', 'pos': self.poss(), 'names': self.names_of(self.fields, .4), 'signal': r.random() < .85, 'noise': r.random() < .6,
                     'dt': r.choice([1, 2, 4, 2]) if r.random() < .95 else 0, 'shape': 2 if r.random() < .95 else r.choice([1, 3])}
                if not e['pos'] or len(e['pos']) == 2:
                    e['shape'] = 2
                do(e)
            elif op in ('plotdet', 'plotspec'):
                e = self.show(op)
                if not any(np.isnan(I.detectors[x].reffreq) for x in I.detector_names):
                    do(e)
            elif op == 'poke':
                g = r.choice(self.grids)
                if lab.g[g].grid_active:
                    do({'op': 'poke', 'g': g, 'i': r.randint(1, lab.g[g].grid.size), 'x': VS * r.choice([1, 2, -1])})
            else:
                g = r.choice(self.grids)
                x = r.random()
                if x < .3:
                    do({'op': 'crop', 'g': g, 'ax': r.choice([0, 1]), 'min': r.choice([NAN, -64, 0]), 'max': NAN})
                elif x < .6:
                    do({'op': 'pad', 'g': g, 'ax': [r.choice([0, 1])], 'pad': [1], 'val': 0})
                elif x < .8 and lab.g[g].grid_active and all(n in (1, 2, 4) for n in lab.g[g].n_pixels):
                    do({'op': 'ft', 'g': g, 'all': False, 'ax': [r.choice([0, 1])], 'norm': False})
                elif x < .9:
                    do({'op': 'copy', 'g': g, 'to': g, 'all': True, 'props': []})
        return {'init': {}, 'ev': ev}


def history(ck, prop, seed, n):
    for k in range(20):
        m = Maker(ck, prop, random.Random('%s/%d' % (seed, k)))
        if not m.spool:
            continue
        t = m.history(n)
        if t is not None:
            return t
    raise core.MachineryError('no history for %s' % seed)


def menu(prop):
    V = VS
    no = dict(NONE)
    tab = lambda k: R('tab', {'ker': k, 'px': 64})
    beam, dot = tab([0, 1, 0, 1, 2, 0, 0, 0, 1]), tab([0, 0, 0, 0, 1, 0, 0, 0, 0])
    flat, slope = R('lin', {'a': 1}), R('lin', {'a': 0, 'b': 1})
    prefix = [
        {'op': 'new', 'to': 'p', 'c': [0, 0, 96], 'side': [128, 128, 128], 'px': [64, 64, 64], 'au': ['rad', 'rad', 'GHz'], 'gu': ['Jy'], 'np': 1, 'init': True},
        {'op': 'newprop', 'g': 'p', 'given': True, 'shape': [2, 2, 2], 'vals': [V, 0, 0, 2 * V, 0, 0, 4 * V, V]},
        {'op': 'inst', 'su': 'rad', 'pu': 'GHz', 'fu': '', 'bs': 0, 'bf': 0, 'frame': '', 'sp': dot, 'se': flat, 'no': R('none')}]
    det = {'op': 'det', 'name': '', 'off': [], 'nom': 64, 'sp': no, 'se': no, 'no': no}
    mp = {'op': 'map', 'names': [], 'norm': 'none', 'ks': [3], 'beam': '', 'pad': []}
    ops = [det, dict(det, name='a', off=[64, -32], sp=beam), dict(det, name='0', se=slope, no=R('ramp', {'b': 1, 's': 1})),
           {'op': 'deldet', 'names': ['a']}, {'op': 'deldet', 'names': ['0']},
           {'op': 'set', 'mode': 'sp', 'names': ['a'], 'r': dot}, {'op': 'set', 'mode': 'se', 'names': ['instrument'], 'r': slope},
           {'op': 'set', 'mode': 'se', 'names': ['instrument', '0'], 'r': slope}, {'op': 'set', 'mode': 'no', 'names': [], 'r': R('ramp', {'b': 2})},
           {'op': 'field', 'g': 'p', 'name': '', 'prop': 1, 'inplace': True}, {'op': 'field', 'g': 'p', 'name': 'f', 'prop': 0, 'inplace': False},
           {'op': 'field', 'g': 'p', 'name': '0', 'prop': 1, 'inplace': False}, {'op': 'delfield', 'names': ['0']}, {'op': 'delfield', 'names': ['f', '0']},
           mp, dict(mp, names=['0'], pad=[1]), dict(mp, names=['f', '0']), {'op': 'poke', 'g': 'p', 'i': 2, 'x': 3 * V}, {'op': 'crop', 'g': 'p', 'ax': 0, 'min': 0, 'max': NAN}]
    if prop == 'I04':
        shown = [{'op': 'plotdet', 'names': n, 'x': [-64, 35, -640, -640 + 99 * 64], 'f': f, 'fs': fs} for n, f, fs in (([], [0, 999], 0), (['a'], [NAN, NAN], 128), (['0', 'a'], [32, NAN], 0))]
        shown += [{'op': 'plotspec', 'f': [0, 4999]}, {'op': 'plotspec', 'f': [NAN, NAN]}, dict(shown[0], x=[NAN] * 4)]
        ops = [o for o in ops if o['op'] in ('det', 'deldet', 'set')] + shown
    return prefix, ops


def exhaustive(ck, prop):
    prefix, ops = menu(prop)
    mf = os.path.join(ck.scratch, 'menu.json')
    json.dump({'prefix': prefix, 'ops': ops}, open(mf, 'w'))
    cfg = ('CONSTANT VS = %d\nCONSTANT Depth = %d\nINIT Init\nNEXT Next\nVIEW VView\nINVARIANT Inv %s\nPROPERTY StepProp\n'
           'ACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n') % (VS, 5 if ck.thorough else 4, 'PanelLaw' if prop == 'I04' else 'Alone Linear')
    edges, i0 = ck.model_check('MCInstrument', cfg, env={'MENU': mf}, dump=True)
    walks, cov, tot = core.cover_walks(edges, i0, 12, ck.rng, limit=3000 if ck.thorough else 200)
    ck.extra['model_transitions_taken_on_code'] = [cov, tot]

    def walk(w):
        with core.quiet():
            lab = Lab(ck, random.Random(str(w)), True)
            lab.lattice = [[x, y] for x in range(-96, 97, 32) for y in range(-96, 97, 32)]
            return {'init': {}, 'ev': [lab.do(e) for e in prefix + [ops[i - 1] for i in w]]}
    ts = ck.parallel(walk, walks)
    ck.validate('TraceInstrument', ts, 'CONSTANT VS = %d\n' % VS, 'walk:', chunk=max(20, len(ts) // 8))


def run(ck, prop):
    ck.setup_code(root=False)
    load(ck)
    exhaustive(ck, prop)
    n = 4000 if ck.thorough else 320

    def hist(seed):
        with core.quiet():
            return history(ck, prop, seed, 14)
    ts = ck.parallel(hist, ['%s-%d-%d' % (prop, ck.seed, k) for k in range(n)])
    ck.validate('TraceInstrument', ts, 'CONSTANT VS = %d\n' % VS, 'history:', chunk=max(20, len(ts) // 8))
    ck.assumptions += ['responses, positions and values which binary fractions represent; Gaussians at points where they are powers of two',
                       'white noise through a scripted source of random numbers']
