"""Drivers for the galaxy-property prescriptions (spec/Prescribe.tla)."""
import json
import math
import os
import random
import numpy as np

import core
from core import quiet, cover_walks

U = 100000
ZERO = -999999999


def lg(x):
    return round(math.log10(x) * U)


class Recorder(np.random.Generator):
    """The caller's generator: what is drawn from it is remembered, normal
    deviates in units of the width asked for."""

    def __init__(self, seed):
        super().__init__(np.random.PCG64(seed))
        self.g, self.f = [], []

    def normal(self, loc=0.0, scale=1.0, size=None):
        out = super().normal(loc, scale, size)
        sc = np.where(np.asarray(scale) == 0, 1, scale)
        self.g.append(np.array((out - np.asarray(loc)) / sc, ndmin=1))
        return out

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        r = super().standard_normal(size, dtype, out)
        self.g.append(np.array(r, ndmin=1))
        return r

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        out = super().lognormal(mean, sigma, size)
        sc = np.where(np.asarray(sigma) == 0, 1, sigma)
        self.g.append(np.array((np.log(out) - np.asarray(mean)) / sc, ndmin=1))
        return out

    def random(self, size=None, dtype=np.float64, out=None):
        r = super().random(size, dtype, out)
        self.f.append(np.array(r, ndmin=1))
        return r

    def uniform(self, low=0.0, high=1.0, size=None):
        out = super().uniform(low, high, size)
        self.f.append(np.array((out - np.asarray(low)) / (np.asarray(high) - np.asarray(low)), ndmin=1))
        return out


# name -> (x is, needs redshift, names of the scatter and width arguments)
OPS = {
    'keating16': ('mass', False, 'scatter_lco', 'sig_lco'),
    'li16': ('sfr', False, 'scatter_lco', 'sig_lco'),
    'kamenetzky16': ('sfr', False, 'scatter_lco', 'sig_lco'),
    'pullen13': ('mass', True, None, None),
    'lidz11': ('mass', False, None, None),
    'hcn_gao': ('sfr', False, 'scatter_lhcn', 'sig_lhcn'),
    'hcn_breysse': ('mass', False, None, None),
    'delooze14': ('sfr', False, 'scatter', 'fix_scatter'),
    'uzgil14': ('sfr', False, 'scatter', 'sig_scatter'),
    'spinoglio12': ('sfr', False, 'scatter', 'sig_scatter'),
    'schaerer20': ('sfr', False, 'scatter', 'sig_scatter'),
    'zhao13': ('sfr', False, 'scatter', 'sig_scatter'),
    'padmanabhan19': ('mass', True, 'scatter', 'sig_scatter'),
    'yang22': ('mass', True, 'scatter', 'fix_scatter'),
    'b17_sfr': ('mstar', True, 'always', None),
    'behroozi_sfr': ('mass', True, 'scatter', 'sigma_scatter'),
    'behroozi_mass': ('mass', True, 'scatter', 'sigma_scatter'),
}
CYCLIC = ('pullen13', 'lidz11', 'hcn_breysse', 'yang22')
FIR = {'cii': '[CII]', 'nii': '[NII]', 'oi': '[OI]', 'oiii88': '[OIII]88um', 'oiii52': '[OIII]52um', 'siii': '[SiII]',
       'siii33': '[SIII]33um', 'siii19': '[SIII]19um', 'neii': '[NeII]', 'neiii': '[NeIII]', 'oiii': '[OIII]'}
DSETS = {'none': None, 'DGS': 'DGS', 'dwarfs': 'dwarfs', 'starbursts': 'starbursts', 'agn': 'comp/AGN', 'highz': 'high z'}
SSETS = {'none': None, 'uvir': 'ALPINE-uvir', 'sed': 'ALPINE-sed', 'uvirx': 'ALPINE-uvirx', 'highz': 'high z-uvirx'}
YLINES = ['CII', 'CI1-0', 'CI2-1', 'CO1-0', 'CO2-1', 'CO3-2', 'CO4-3', 'CO5-4']
BUILTIN = {'prop_co_sled': ('kamenetzky16', {}), 'prop_li_co': ('li16', {}), 'prop_lidz_co': ('lidz11', {}),
           'prop_pullen_co': ('pullen13', {}), 'prop_keating_co': ('keating16', {}), 'prop_gao_hcn': ('hcn_gao', {}),
           'prop_breysse_hcn': ('hcn_breysse', {}), 'prop_delooze_fir': ('delooze14', {'line': 'cii', 'set': 'none'}),
           'prop_delooze_cii': ('delooze14', {'line': 'cii', 'set': 'none'}),
           'prop_uzgil_fir': ('uzgil14', {'line': 'cii'}), 'prop_uzgil_cii': ('uzgil14', {'line': 'cii'}),
           'prop_spinoglio_fir': ('spinoglio12', {'line': 'cii'}), 'prop_spinoglio_cii': ('spinoglio12', {'line': 'cii'}),
           'prop_schaerer_cii': ('schaerer20', {'set': 'none'}), 'prop_yang_cii': ('yang22', {'line': 'CII'}),
           'prop_padmanabhan_cii': ('padmanabhan19', {}), 'prop_zhao_nii': ('zhao13', {}),
           'prop_behroozi_sfr': ('behroozi_sfr', {}), 'prop_behroozi_mass': ('behroozi_mass', {})}
NAMES = {'prop_co_sled': ['L10', 'L21', 'L32', 'L43', 'L54', 'L65', 'L76', 'L87', 'L98', 'L109', 'L1110', 'L1211', 'L1312']}


def blank(op, halos, **k):
    e = {'op': op, 'halos': halos, 'line': '', 'set': 'none', 'lines': list(range(1, 14)), 'ulirg': False, 'par': [],
         'scatter': False, 'sig': -1, 'cycle': 'random', 'via': '', 'kind': 'array', 'bad': False, 'col': 'lum', 'seed': 1,
         'zone': False}
    e.update(k)
    if op not in CYCLIC:
        e['cycle'] = 'none'
    return e


def halo(x, z=0):
    return {'x': x, 'z': z, 'la': 0}


_B17 = {}
B17PARS = {'m0': ('sfms_m0', U), 'm1': ('sfms_m1', U), 'a0': ('sfms_a0', 10), 'a1': ('sfms_a1', 10), 'a2': ('sfms_a2', 10),
           'lowz': ('sfms_correztlowz', 1), 'fq': ('sffrac_fq00', 10000), 'gamma': ('sffrac_gamma', 1000), 'mt': ('sffrac_logmt0', U),
           'al1': ('sffrac_alpha1', U), 'al2': ('sffrac_alpha2', U), 'sg': ('sffrac_sigsf0', U), 'be1': ('sffrac_beta1', U),
           'be2': ('sffrac_beta2', U), 'mso': ('sfms_msoffset', None), 'sbo': ('sfms_sboffset', None), 'lim': ('sf_sflimit', None)}


def b17(e=None):
    """The SIDES recipe on a registered simulation (no catalogue is needed for
    what is asked of it here)."""
    k = {}
    for p in (e['par'] if e else []):
        name, unit = B17PARS[p['n']]
        k[name] = 10 ** (p['v'] / U) if unit is None else (bool(p['v']) if p['n'] == 'lowz' else p['v'] / unit)
    if e and e['sig'] >= 0:
        k['sfms_sigma'] = e['sig'] / 1000
    key = json.dumps(k, sort_keys=True)
    if key not in _B17:
        from simim.galprops.sfr_bethermin17 import bethermin17_base
        from simim.siminterface._sims import _acceptedsims
        _B17[key] = bethermin17_base(list(_acceptedsims)[0], **k)
    return _B17[key]


def kwargs(e):
    """The keyword arguments of the call."""
    k = {}
    par = {p['n']: p['v'] for p in e['par']}
    ten = lambda v: 10 ** (v / U)
    op = e['op']
    sc, sg = OPS[op][2], OPS[op][3]
    if sc and sc != 'always':
        k[sc] = e['scatter']
        if e['sig'] >= 0:
            k[sg] = e['sig'] / 1000
    if 'dmf' in par:
        k['d_mf'] = ten(par['dmf'])
    if op in ('li16', 'hcn_gao'):
        from simim import constants
        base = constants.nu_co10 if op == 'li16' else constants.nu_hcn10
        if 'a' in par:
            k['a'] = par['a'] / 1000
        if 'b' in par:
            k['b'] = par['b'] / U
        if 'nu' in par:
            k['nu_rest'] = base * ten(par['nu'])
    if op == 'keating16':
        if 'A' in par:
            k['A'] = ten(par['A'])
        if 'mmin' in par:
            k['m_min'] = ten(par['mmin'])
    if op == 'padmanabhan19':
        for n in ('m1', 'n1'):
            if n in par:
                k[n] = ten(par[n])
        if 'b' in par:
            k['b'] = par['b'] / 1000
        if 'a' in par:
            k['a'] = par['a'] / 1000
    if op == 'kamenetzky16':
        if e['lines'] != list(range(1, 14)):
            k['lines'] = np.array(e['lines']) if e['kind'] != 'list' else list(e['lines'])
        if e['ulirg']:
            k['break_ulirgs'] = True
        if 'fir' in par:
            k['fircor'] = ten(par['fir'])
    if op == 'pullen13':
        k['rand_f_duty'] = e['cycle'] == 'random'
        if 'tsf' in par:
            k['sf_length'] = ten(par['tsf'])
    if op in ('lidz11', 'hcn_breysse'):
        k['rand_f_duty'] = e['cycle'] == 'random'
        if 'duty' in par:
            k['f_duty'] = ten(par['duty'])
    if op == 'yang22':
        k['line'] = e['line']
        k['fduty'] = e['cycle'] == 'random'
    if op in ('delooze14', 'uzgil14', 'spinoglio12'):
        if e['line'] != 'cii':
            k['line'] = FIR.get(e['line'], e['line'])
    if op == 'delooze14' and e['set'] != 'none':
        k['set'] = DSETS.get(e['set'], e['set'])
    if op == 'schaerer20' and e['set'] != 'none':
        k['set'] = SSETS.get(e['set'], e['set'])
    return k


def function(op, e):
    from simim.galprops import line_co, line_densegas, line_fir, line_fir_yang
    if op == 'b17_sfr':
        return b17(e).sfr
    if op.startswith('behroozi'):
        from simim.galprops import sfr_behroozi13 as b
        return (lambda m, z, **k: b.sfr(z, m, **k)) if op == 'behroozi_sfr' else (lambda m, z, **k: b.stellarmass(z, m, **k))
    for m in (line_co, line_densegas, line_fir, line_fir_yang):
        if hasattr(m, op):
            return getattr(m, op)
    raise KeyError(op)


def btable(ck):
    """The published table, as the specification reads it."""
    rows = [l.split() for l in open(os.path.join(core.REPO, 'simim', 'resources', 'behroozi13_release.dat')) if not l.startswith('#')]
    zs = sorted({float(r[0]) for r in rows})
    ms = sorted({float(r[1]) for r in rows})
    d = {(float(r[0]), float(r[1])): (float(r[2]), float(r[3])) for r in rows}
    t = {'z': [round((z - 1) * 1e6) for z in zs], 'm': [round(m * U) for m in ms]}
    for k, n in enumerate(('sfr', 'mass')):
        t[n] = [[round(d[z, m][k] * U) for m in ms] for z in zs]
    f = os.path.join(ck.scratch, 'btable.json')
    json.dump(t, open(f, 'w'))
    return f


def cosmology():
    from astropy.cosmology import FlatLambdaCDM
    return FlatLambdaCDM(H0=70, Om0=.3)


def inputs(e):
    """x and redshift as the event wants them passed."""
    x = np.array([0. if h['x'] == ZERO else 10 ** (h['x'] / U) for h in e['halos']])
    z = np.array([h['z'] / 1000 for h in e['halos']])
    kind = e['kind']
    if kind == 'int':
        x = np.rint(x).astype(np.int64)
    if kind == 'f4':
        x, z = x.astype(np.float32), z.astype(np.float64)
    if e['zone'] and len(z):
        z = float(z[0])
    if kind == 'scalar':
        x = float(x[0])
        z = float(np.ravel(z)[0])
    return x, z


def value(v):
    v = float(v)
    if v == 0:
        return {'on': False, 'l': 0}
    if not (v > 0) or math.isinf(v):
        return {'on': True, 'l': 888888888}
    return {'on': True, 'l': round(math.log10(v) * U)}


class Runner:
    """One history of calls."""

    def __init__(self, ck, hist):
        self.ck = ck
        self.hist = hist
        self.cols = set()
        self.kept = []

    def call(self, e, rng):
        op = e['op']
        xname, needs_z = OPS[op][0], OPS[op][1]
        x, z = inputs(e)
        args = [x] + ([z] if needs_z else [])
        before = [np.array(a) for a in args]
        if e['via']:
            out = self.by_prop(e, x, z, rng)
        else:
            k = kwargs(e)
            if op == 'pullen13':
                k['cosmo'] = cosmology()
            out = function(op, e)(*args, rng=rng, **k)
        same = all(np.array_equal(a, b, equal_nan=True) for a, b in zip(before, args))
        return out, same

    def by_prop(self, e, x, z, rng):
        """The same prescription as one of the built-in properties, of a
        snapshot whose masses are stored in units of Msun/h."""
        import copy
        import handler as hd
        from simim.galprops import galprops_builtin
        p = copy.copy(getattr(galprops_builtin, e['via']))
        inner = p.prop_function
        k = kwargs(e)
        p.prop_function = lambda **a: inner(rng=rng, **a, **k)
        n = len(e['halos'])
        path = os.path.join(self.ck.scratch, 'prop_%d.hdf5' % os.getpid())
        raw = np.asarray(x, dtype=float)
        nat = [{'n': 'mass', 'dt': 'f8', 'hd': -1, 'raw': raw * hd.H}, {'n': 'sfr', 'dt': 'f8', 'hd': 0, 'raw': raw}]
        if n:
            nat.append({'n': 'ra', 'dt': 'f8', 'hd': 0, 'raw': np.arange(float(n))})
        s = hd.Snap(path, nat, n, True)
        h = s.h
        if e['op'] == 'pullen13':
            h.extra_props['cosmo'] = cosmology()
        h.extra_props['redshift'] = float(np.ravel(z)[0]) if n else 0.
        h.make_property(p, overwrite=True)
        names = NAMES.get(e['via'], [p.names[0]])
        if list(p.names) != names:
            raise AssertionError('names of the property')
        res = [h.return_property(m, in_h_units=False) for m in names]
        return res if e['op'] == 'kamenetzky16' else res[0]

    def step(self, e):
        op = e['op']
        e = dict(e, halos=[dict(h) for h in e['halos']])
        n = len(e['halos'])
        # of a large population, the rows that are looked at
        rows_ = list(range(n))
        if n > 101:
            q = random.Random(e['seed'])
            rows_ = sorted({0, n - 1, n // 2, *q.sample(range(n), 4), *[k for k in (99, 100, 999, 1000, 1001) if k < n]})
        if op == 'pullen13':
            for h in [e['halos'][k] for k in rows_]:
                h['la'] = lg(float(cosmology().age(h['z'] / 1000).value))
        e['scatter'] = e['scatter'] or OPS[op][2] == 'always'
        rng = Recorder(e['seed'])
        st = np.random.get_state()[1].copy(), np.random.get_state()[2]
        obs = {'err': False, 'same': True, 'again': True, 'alone': True, 'kept': True, 'out': []}
        nl = len(e['lines']) if op == 'kamenetzky16' else 1
        e['devs'] = [{'g': [], 'f': []} for _ in range(n)]
        try:
            with quiet():
                out, obs['same'] = self.call(e, rng)
        except Exception as ex:
            if isinstance(ex, (MemoryError, AssertionError)):
                raise
            obs['err'] = True
            e['error'] = '%s: %s' % (type(ex).__name__, ex)
        if not obs['err']:
            lines = list(out) if op == 'kamenetzky16' else [out]
            rows = [np.array(v, ndmin=1) for v in lines]
            obs['out'] = [[value(v) for v in r.ravel()] for r in rows]
            g = np.concatenate([v.ravel() for v in rng.g]) if rng.g else np.zeros(0)
            f = np.concatenate([v.ravel() for v in rng.f]) if rng.f else np.zeros(0)
            if len(g) == n * nl:
                for i, row in enumerate(g.reshape(n, nl)):
                    e['devs'][i]['g'] = [int(round(v * 10000)) for v in row]
            nf = 2 if op == 'b17_sfr' else 1
            if len(f) == n * nf:
                for i in range(n):
                    e['devs'][i]['f'] = [int(f[q * n + i] * 1000000) for q in range(nf)]
            elif nf == 2:
                # the draws are not the ones this understands: say so
                for i in range(n):
                    e['devs'][i]['g'] = []
            with quiet():
                twice, _ = self.call(e, Recorder(e['seed']))
            t2 = list(twice) if op == 'kamenetzky16' else [twice]
            obs['again'] = len(t2) == len(rows) and all(np.array_equal(np.array(a, ndmin=1), b, equal_nan=True) for a, b in zip(t2, rows))
            self.cols.add(e['col'])
            self.kept.append([(v, np.array(v)) for v in lines])
            self.kept = self.kept[-4:]
        if len(rows_) < n:
            e['halos'] = [e['halos'][k] for k in rows_]
            e['devs'] = [e['devs'][k] for k in rows_]
            # of another length: no rows at all
            obs['out'] = [[v[k] for k in rows_] if len(v) == n else [] for v in obs['out']]
        obs['kept'] = all(np.array_equal(a, b, equal_nan=True) for row in self.kept for a, b in row)
        now = np.random.get_state()
        obs['alone'] = bool(np.array_equal(now[1], st[0]) and now[2] == st[1])
        obs['cols'] = sorted(self.cols)
        e['obs'] = obs
        return e

    def run(self):
        np.random.seed(5)
        return {'ev': [self.step(e) for e in self.hist]}


# ------------------------------------------------------------------ generation
def rand_x(r, op):
    what = OPS[op][0]
    if r.random() < .04 and op != 'padmanabhan19' and not op.startswith('behroozi'):
        return ZERO
    if what == 'sfr':
        return r.choice([r.randrange(-4 * U, 4 * U), 0, U])
    if op == 'padmanabhan19':
        return r.randrange(1040000, 1500000)
    if op.startswith('behroozi'):
        return r.choice([r.randrange(880000, 1530000), r.randrange(1000000, 1450000), 5000 * r.randrange(180, 301) + r.randrange(-3, 4)])
    if what == 'mstar':
        return r.randrange(7 * U, 12 * U)
    return r.choice([r.randrange(9 * U, 15 * U), r.randrange(11 * U, 13 * U), 10 * U])


def rand_z(r, op):
    return r.choice([0, 499, 500, 1000, 3999, 4000, 4999, 5000, 6000, r.randrange(0, 10000), r.randrange(0, 2000)])


def rand_event(r, random_parts, ops=None):
    op = r.choice(ops or list(OPS))
    n = r.choice([0, 1, 2, 3, 5, 8])
    e = blank(op, [])
    e['kind'] = r.choice(['array', 'array', 'array', 'f4', 'list', 'scalar'])
    if op in ('hcn_breysse', 'lidz11', 'keating16', 'pullen13') and r.random() < .2:
        e['kind'] = 'int'
    if e['kind'] == 'scalar':
        n = 1
    if op == 'b17_sfr':
        e['kind'] = 'array'
        n = max(n, 1)
    if op == 'pullen13' and e['kind'] != 'scalar' and r.random() < .15:
        n = r.choice([101, 101, 1100])
    elif op != 'pullen13' and e['kind'] != 'scalar' and r.random() < .06:
        n = r.choice([150, 1050, 3000])
    e['halos'] = [halo(rand_x(r, op), rand_z(r, op)) for _ in range(n)]
    if op == 'pullen13' and n > 100:
        z0 = r.randrange(500, 6000)
        for h in e['halos']:
            h['z'] = z0 + r.randrange(0, 200)
    if op == 'b17_sfr':
        for h in e['halos']:
            if h['x'] == ZERO:
                h['x'] = 1000000
    if OPS[op][1] and n and (r.random() < .25) and e['kind'] != 'scalar':
        e['zone'] = True
        for h in e['halos']:
            h['z'] = e['halos'][0]['z']
    e['scatter'] = random_parts and OPS[op][2] is not None and r.random() < .75
    if e['scatter'] and (r.random() < .5 or op == 'padmanabhan19'):
        e['sig'] = r.choice([0, 100, 250, 300, 370, 500, 1000])
    if op in CYCLIC:
        e['cycle'] = 'random' if random_parts and r.random() < .8 else ('none' if op == 'yang22' else 'mean')
    par = []
    if op in ('li16', 'hcn_gao', 'kamenetzky16', 'uzgil14', 'spinoglio12', 'zhao13') and r.random() < .4:
        par.append({'n': 'dmf', 'v': r.choice([lg(1.7), lg(.5), 0])})
    if op in ('li16', 'hcn_gao'):
        if r.random() < .4:
            par.append({'n': 'a', 'v': r.choice([1000, 1170, 1370, 1500, 800])})
        if r.random() < .4:
            par.append({'n': 'b', 'v': r.choice([-174000, 290000, 21000, 0])})
        if r.random() < .4:
            par.append({'n': 'nu', 'v': r.choice([0, 30103, 47712])})
    if op == 'keating16':
        if r.random() < .4:
            par.append({'n': 'A', 'v': lg(2e-6)})
        if r.random() < .5:
            par.append({'n': 'mmin', 'v': r.choice([12 * U, 11 * U, lg(3e11)])})
    if op == 'padmanabhan19' and r.random() < .5:
        par += [{'n': 'm1', 'v': lg(4.25e-5)}, {'n': 'b', 'v': 870}, {'n': 'a', 'v': 1490}, {'n': 'n1', 'v': lg(3.e11)}]
    if op == 'kamenetzky16':
        if r.random() < .5:
            e['lines'] = r.sample(range(1, 14), r.choice([1, 2, 3, 13]))
        e['ulirg'] = r.random() < .5
        if r.random() < .4:
            par.append({'n': 'fir', 'v': r.choice([0, lg(.5)])})
    if op == 'b17_sfr' and r.random() < .6:
        new = {'m0': [30000, 70000], 'm1': [0, 60000], 'a0': [20, 10], 'a1': [1, 6], 'a2': [10, 30], 'lowz': [0], 'fq': [2500, 500],
               'gamma': [-500, 0], 'mt': [1000000, 1150000], 'al1': [0, 40000], 'al2': [0, 2000], 'sg': [60000, 120000], 'be1': [0, 10000],
               'be2': [0, -500], 'mso': [0, lg(.7)], 'sbo': [lg(4.), lg(10.)], 'lim': [2 * U, 3 * U, 0]}
        par += [{'n': n, 'v': r.choice(new[n])} for n in r.sample(list(new), r.choice([1, 1, 3]))]
    if op == 'pullen13' and r.random() < .5:
        par.append({'n': 'tsf', 'v': r.choice([0, lg(.5), lg(3.), lg(20.)])})
    if op in ('lidz11', 'hcn_breysse') and r.random() < .6:
        par.append({'n': 'duty', 'v': r.choice([lg(.5), lg(.25), lg(.03), 0])})
    e['par'] = par
    if op in ('uzgil14', 'spinoglio12'):
        e['line'] = r.choice(['cii', 'nii', 'oi', 'oiii88', 'oiii52', 'siii', 'siii33', 'siii19', 'neii', 'neiii'])
    if op == 'delooze14':
        e['line'] = r.choice(['cii', 'oi', 'oiii'])
        e['set'] = r.choice(['none', 'DGS', 'dwarfs', 'starbursts', 'agn'] + (['highz'] if e['line'] == 'cii' else []))
    if op == 'schaerer20':
        e['set'] = r.choice(list(SSETS))
    if op == 'yang22':
        e['line'] = r.choice(YLINES)
    e['seed'] = r.randrange(10**6)
    e['col'] = op
    # things that must be refused
    if r.random() < .06 and op in ('delooze14', 'schaerer20', 'yang22', 'kamenetzky16', 'padmanabhan19', 'uzgil14'):
        e['bad'] = True
        if op == 'kamenetzky16':
            e['lines'] = r.choice([[0], [14], [3, 14]])
        elif op == 'padmanabhan19':
            e['scatter'], e['sig'] = True, -1
        elif op in ('yang22', 'uzgil14'):
            e['line'] = 'CO9-8'
        elif op == 'schaerer20':
            e['set'] = 'DGS'
        else:
            e['line'], e['set'] = r.choice([('oi', 'highz'), ('cii', 'ALPINE-sed'), ('[NII]', 'none'), ('oiii', 'highz')])
    elif r.random() < .15:
        b = [n for n, (o, fix) in BUILTIN.items() if o == op and all(e[q] == v for q, v in fix.items())]
        if b and n >= 1 and e['kind'] in ('array',):
            e['via'] = r.choice(b)
            e['lines'] = list(range(1, 14))
            for h in e['halos']:
                h['z'] = e['halos'][0]['z']
            e['zone'] = True
    return e


def fix_z(hs, e):
    return e


def menu():
    """Every prescription, line and sample once, deterministic and random."""
    m = []
    sf = [halo(x) for x in (-250000, 0, 77815, 77816, 235000)]
    ms = [halo(x) for x in (950000, 1000000, 1130000, 1390000)]
    mz = [halo(x, z) for x, z in ((1050000, 0), (1150000, 500), (1250000, 3999), (1230000, 4000), (1170000, 4999), (1130000, 5000), (1330000, 7500))]
    st = [halo(x, z) for x, z in ((900000, 100), (1050000, 500), (1130000, 1000), (1180000, 499), (1080000, 5200))]
    for op, hs in (('keating16', ms), ('li16', sf), ('hcn_gao', sf), ('pullen13', mz), ('lidz11', ms), ('hcn_breysse', ms),
                   ('kamenetzky16', sf), ('zhao13', sf), ('padmanabhan19', mz), ('b17_sfr', st),
                   ('behroozi_sfr', mz), ('behroozi_mass', mz)):
        for sc in (False, True):
            for cyc in (('random', 'mean') if op in ('pullen13', 'lidz11', 'hcn_breysse') else ('none',)):
                if sc and OPS[op][2] is None:
                    continue
                e = blank(op, hs, scatter=sc, cycle=cyc, sig=300 if op == 'padmanabhan19' and sc else -1)
                e['cycle'] = cyc
                m.append(e)
                if op == 'kamenetzky16':
                    m.append(dict(e, ulirg=True))
    for ln in FIR:
        for op in ('uzgil14', 'spinoglio12'):
            if ln != 'oiii':
                m.append(blank(op, sf, line=ln))
        if ln in ('cii', 'oi', 'oiii'):
            for st_ in DSETS:
                if st_ != 'highz' or ln == 'cii':
                    m.append(blank('delooze14', sf, line=ln, set=st_))
                    m.append(blank('delooze14', sf, line=ln, set=st_, scatter=True))
    for st_ in SSETS:
        m.append(blank('schaerer20', sf, set=st_))
    for ln in YLINES:
        m.append(blank('yang22', mz, line=ln, cycle='none'))
        m.append(blank('yang22', mz, line=ln, cycle='random', scatter=True))
    for op in ('uzgil14', 'spinoglio12', 'schaerer20'):
        m.append(blank(op, sf, line='cii', scatter=True))
    m.append(blank('yang22', mz, line='CO6-5', bad=True))
    m.append(blank('delooze14', sf, line='oi', set='highz', bad=True))
    m.append(blank('kamenetzky16', sf, lines=[14], bad=True))
    m.append(blank('schaerer20', sf, set='DGS', bad=True))
    m.append(blank('padmanabhan19', mz, scatter=True, bad=True))
    for b, (op, fix) in BUILTIN.items():
        hs = mz if OPS[op][1] else (sf if OPS[op][0] == 'sfr' else ms)
        hs = [dict(h, z=mz[2]['z'] if OPS[op][1] else 0) for h in hs]
        m.append(blank(op, hs, via=b, zone=True, **fix))
    for i, e in enumerate(m):
        e['seed'] = 100 + i
        e['col'] = 'lum'
        if e['op'] == 'pullen13':
            for h in e['halos']:
                h['la'] = lg(float(cosmology().age(h['z'] / 1000).value))
        e['scatter'] = e['scatter'] or OPS[e['op']][2] == 'always'
    return m


def run(ck, prop):
    ck.setup_code()
    if prop in ('P01', 'P02'):
        prescriptions(ck, prop)


def prescriptions(ck, prop):
    from simim._paths import _SimIMPaths
    from simim.siminterface._sims import _acceptedsims
    d = os.path.join(ck.scratch, 'sim0')
    os.makedirs(d)
    _SimIMPaths()._newsimpath(list(_acceptedsims)[0], new_path=d, checkoverwrite=False)
    b17()
    # as in a session started after the data root was set up
    import importlib
    from simim.galprops import sfr_behroozi13
    with quiet():
        importlib.reload(sfr_behroozi13)
    bt = os.environ['BTABLE'] = btable(ck)
    m = menu()
    rnd = prop == 'P02'
    want = [e for e in m if (e['scatter'] or e['cycle'] == 'random') == rnd or e['bad']]
    mf = os.path.join(ck.scratch, 'menu.json')
    json.dump(want, open(mf, 'w'))
    cfg = 'INIT Init\nNEXT Next\nVIEW View\nINVARIANT Inv\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
    edges, i0 = ck.model_check('MCPrescribe', cfg, env={'MENU': mf, 'BTABLE': bt}, dump=True)
    walks, cov, tot = cover_walks(edges, i0, 40, ck.rng, limit=None if ck.thorough else 40)
    ck.extra['model_transitions_taken_on_code'] = [cov, tot]
    # every entry of the menu at least once
    walks = [list(range(k, min(k + 40, len(want) + 1))) for k in range(1, len(want) + 1, 40)] + walks

    def replay(w):
        return Runner(ck, [want[o - 1] for o in w]).run()
    traces = ck.parallel(replay, walks)
    ck.validate('TracePrescribe', traces, '', 'walk:', chunk=12)

    def hist(seed):
        r = random.Random(seed)
        return Runner(ck, [rand_event(r, rnd) for _ in range(20)]).run()
    traces = ck.parallel(hist, ['%s-%d-%d' % (prop, ck.seed, k) for k in range(1500 if ck.thorough else 120)])
    ck.validate('TracePrescribe', traces, '', 'history:', chunk=30)
    ck.assumptions += ['logarithms agree to 1.2e-4 dex (7e-4 dex for the double power laws)',
                       'masses, star-formation rates and redshifts of the ranges the relations were fitted in, and zero']
