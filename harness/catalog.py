"""Driver for the content of formatted catalogues (spec/Catalog.tla)."""
import math
import multiprocessing
import os
import random
import shutil
import numpy as np

from core import quiet
from datadir import UM_BIN, UM_ASCII, UCHUU
from simhandler import META_DTYPE

SC = 64
BOX = 10
SIM = {'testbox': '_testbox', 'bolshoi': 'UniverseMachine-BolshoiPlanck', 'binary': 'UniverseMachine-SMDPL',
       'uchuu': 'UniverseMachine-uchuu', 'illustris': 'Illustris-3', 'dark': 'Illustris-2-Dark', 'tng': 'TNG100-3',
       'tngdark': 'TNG300-3-Dark'}
BIG = ('mass_maxr', 'bhmass', 'bhmdot', 'mass_hr', 'mass_2hr', 'm_gas', 'm_dm', 'm_tracers', 'm_stars_wind', 'm_bh')
ILL_DARK = {'SubhaloPos': 3, 'SubhaloHalfmassRad': 1, 'SubhaloMass': 1, 'SubhaloVel': 3, 'SubhaloCM': 3,
            'SubhaloMassInMaxRad': 1, 'SubhaloSpin': 3, 'SubhaloVelDisp': 1, 'SubhaloVmax': 1, 'SubhaloVmaxRad': 1}
ILL_MAT = {'SubhaloBHMass': 1, 'SubhaloBHMdot': 1, 'SubhaloGasMetallicity': 1, 'SubhaloGasMetallicityHalfRad': 1,
           'SubhaloGasMetallicityMaxRad': 1, 'SubhaloMassType': 6, 'SubhaloMassInHalfRad': 1, 'SubhaloMassInHalfRadType': 6,
           'SubhaloMassInMaxRadType': 6, 'SubhaloMassInRad': 1, 'SubhaloMassInRadType': 6, 'SubhaloSFR': 1,
           'SubhaloSFRinHalfRad': 1, 'SubhaloSFRinMaxRad': 1, 'SubhaloSFRinRad': 1, 'SubhaloStarMetallicity': 1,
           'SubhaloStarMetallicityHalfRad': 1, 'SubhaloStarMetallicityMaxRad': 1, 'SubhaloStellarPhotometrics': 8}
TNG_MAT = {'SubhaloGasMetalFractions': 10, 'SubhaloGasMetalFractionsHalfRad': 10, 'SubhaloGasMetalFractionsMaxRad': 10}
KILO = ('SubhaloPos', 'SubhaloHalfmassRad', 'SubhaloCM', 'SubhaloSpin', 'SubhaloVmaxRad')
INTS = ('id', 'descid', 'upid', 'desc_id', 'SubhaloFlag', 'flags')


def fields(kind):
    if kind in ('testbox', 'bolshoi'):
        return {f: 1 for f in UM_ASCII}
    if kind == 'binary':
        return {f: (6 if f == 'pos' else 1) for f in UM_BIN.names}
    if kind == 'uchuu':
        return {f: 1 for p in UCHUU.values() for f in p}
    r = dict(ILL_DARK)
    if kind in ('illustris', 'tng'):
        r.update(ILL_MAT)
    if kind == 'tng':
        r.update(TNG_MAT)
        r['SubhaloFlag'] = 1
    return r


def mass(r, kind, lowest):
    """(value as stored, logarithm in units of 10^-4)"""
    if kind in ('illustris', 'dark', 'tng', 'tngdark'):
        k = r.choice([0, 1, 2, 3])
        if r.random() < .4:
            return 10.0 ** k, k * 10000
        e = r.randint(-12, 12)
    else:
        k = r.choice([5, 6, 7, 8, 9, 10, 11, 12, 13])
        if r.random() < .4:
            f = 2 if kind == 'bolshoi' else 1
            return f * 10.0 ** k, k * 10000 + (3010 if f == 2 else 0)
        e = r.randint(18, 50)
    return 2.0 ** e, int(round(math.log10(2.0 ** e) * 1e4))


def table(r, kind, n, distinct=False):
    """A raw table: field -> rows of component lists, as stored and as the specification sees it."""
    raw, spec = {}, {}
    ids = r.sample(range(0, BOX * SC), n)
    pool = [mass(r, kind, 0) for _ in range(max(1, n - r.choice([0, 1, 2])))]
    if distinct:
        seen = {}
        while len(seen) < n:
            v, w = mass(r, kind, 0)
            seen.setdefault(w // 2, (v, w))
        pool = r.sample(list(seen.values()), n)
    for f, k in fields(kind).items():
        a, s = [], []
        for i in range(n):
            row, srow = [], []
            for j in range(k):
                if f in ('m', 'Mvir', 'SubhaloMass'):
                    v, w = pool[i] if distinct else r.choice(pool)
                elif f in INTS:
                    v = r.randint(-1, 50)
                    w = v * SC
                else:
                    w = r.randint(0, 999)
                    if f in ('x', 'pos', 'SubhaloPos') and j == 0:
                        w = ids[i]
                        if kind == 'binary' and r.random() < .4:
                            w += r.choice([-1, 1, 2]) * BOX * SC
                    elif f in ('y', 'z', 'pos', 'SubhaloPos') and j < 3:
                        w = r.randint(-200, 900) if kind == 'binary' else r.randint(0, BOX * SC)
                    if f in KILO or f == 'r':
                        w *= 1000
                    if f in ('sm', 'icl', 'obs_sm', 'mp'):
                        w *= 2
                    v = w / SC
                row.append(v)
                srow.append(w)
            a.append(row)
            s.append(srow)
        raw[f], spec[f] = a, s
    return raw, spec


def put(kind, raw, n, path, r, drop):
    """Write the raw files; returns the files written. `drop' rows are flagged ones to be left out."""
    import h5py
    os.makedirs(path + '/raw', exist_ok=True)
    if kind in ('testbox', 'bolshoi'):
        rows = np.array([[raw[f][i][0] for f in UM_ASCII] for i in range(n)]).reshape(n, len(UM_ASCII))
        np.savetxt(path + '/raw/sfr_catalog_0.055623.txt', rows, fmt='%.12g', header='a header line')
    elif kind == 'binary':
        d = np.zeros(n, dtype=UM_BIN)
        for f in UM_BIN.names if n else ():
            d[f] = raw[f] if f == 'pos' else [x[0] for x in raw[f]]
        d['flags'] = [(16 if drop[i] else 0) | r.choice([0, 1, 2, 4, 32]) for i in range(n)]
        d.tofile(path + '/raw/sfr_catalog_0.055623.bin')
    elif kind == 'uchuu':
        for p, cols in UCHUU.items():
            with h5py.File(path + '/raw/Uchuu_UM_z5p00_data%d.h5' % p, 'w') as f:
                for c in cols:
                    f.create_dataset(c, data=np.array([x[0] for x in raw[c]], dtype='i8' if c in INTS else 'f4'))
    else:
        os.makedirs(path + '/raw/groups_000')
        base = 'groups_000' if kind in ('illustris', 'dark') else 'fof_subhalo_tab_000'
        parts = r.choice([1, 1, 2, 3])
        cut = sorted(r.choices(range(n + 1), k=parts - 1))
        cut = [0] + [max(min(1, n), c) for c in cut] + [n]      # the first file has objects, if any has
        for p in range(parts):
            with h5py.File(path + '/raw/groups_000/%s.%d.hdf5' % (base, p), 'w') as f:
                h = f.create_group('Header')
                h.attrs['Nsubgroups_Total'] = n
                h.attrs['Nsubgroups_ThisFile'] = cut[p + 1] - cut[p]
                h.attrs['NumFiles'] = parts
                g = f.create_group('Subhalo')
                if cut[p + 1] > cut[p]:
                    for c, k in fields(kind).items():
                        a = np.array(raw[c][cut[p]:cut[p + 1]], dtype='i4' if c in INTS else 'f4')
                        g.create_dataset(c, data=a[:, 0] if k == 1 else a)
                    g.create_dataset('SubhaloGrNr', data=np.zeros(cut[p + 1] - cut[p], 'i4'))


def base_of(name):
    return name[:-3] if name.endswith('_hr') and name != 'mass_hr' else name[:-5] if name.endswith('_maxr') and name != 'mass_maxr' \
        else name[:-4] if name.endswith('_2hr') and name != 'mass_2hr' else name


def observe(path, kind, tile=1):
    """tile: every halo comes so many times; they are next to each other, as no two have the same mass."""
    import h5py
    o = {'err': False, 'cols': [], 'cuts': []}
    ill = kind in ('illustris', 'dark', 'tng', 'tngdark')
    with h5py.File(path + '/data.hdf5', 'r') as f:
        g = f['Snapshot 0']
        for k in g:
            if k == 'mass_cuts':
                o['cuts'] = [{'m': int(round(math.log10(float(c['min_mass'])) * 1e4)), 'i': int(c['index']) // tile if c['index'] % tile == 0 else -1} for c in g[k][:]]
                continue
            v = np.asarray(g[k][()], dtype='f8')
            if tile > 1 and v.ndim == 1:
                if v.size % tile or not np.array_equal(v, np.repeat(v[::tile], tile), equal_nan=True):
                    v = np.full(v.size // tile, -99.)
                else:
                    v = v[::tile]
            if k == 'mass':
                w = np.round(np.log10(np.maximum(v, 1e-30)) * 1e4)
            elif ill and base_of(k) in BIG:
                w = np.round(v / 1e7 * SC)
            else:
                w = np.round(v * SC)
            o['cols'].append({'n': k, 'v': [int(x) for x in w.ravel()], 'flat': v.ndim == 1,
                              'unit': str(g[k].attrs['units']), 'hd': int(g[k].attrs['h dependence'])})
    return o


def one(base, seed, kind=None):
    from simim.siminterface import UniversemachineCatalogs, UchuuCatalogs, IllustrisCatalogs
    r = random.Random(seed)
    kind = kind or r.choice(list(SIM))
    n = r.choice([0, 1, 2, 3, 4, 6])
    if os.path.exists(base):
        shutil.rmtree(base)
    os.makedirs(base)
    tile = r.choice([1] * 11 + [200, 1500]) if n else 1
    raw, spec = table(r, kind, n, tile > 1)
    drop = [kind == 'binary' and r.random() < .3 for _ in range(n)]
    basic = r.random() < .3
    np.save(base + '/meta.npy', {'name': SIM[kind], 'number_snaps': 1, 'cosmo_name': 'x', 'cosmo_omega_matter': .3,
                                 'cosmo_omega_lambda': .7, 'cosmo_omega_baryon': .05, 'cosmo_h': .5, 'box_edge': BOX})
    m = np.zeros(1, dtype=META_DTYPE)
    m['redshift'] = m['redshift_max'] = 1
    np.save(base + '/meta_snaps.npy', m)
    web = {'bolshoi': 'sfr_catalog_0.055623.txt', 'binary': 'sfr_catalog_0.055623.bin', 'uchuu': 'Uchuu_UM_z5p00_data1.h5'}
    if kind in web:
        np.save(base + '/web_paths.npy', np.array([web[kind]]))
    put(kind, {f: v * tile for f, v in raw.items()}, n * tile, base, r, drop * tile)
    e = {'op': 'format', 'kind': kind, 'basic': basic, 'box': BOX * SC}
    keep = [i for i in range(n) if not drop[i]]
    e['n'] = len(keep)
    e['raw'] = [{'n': f, 'v': [v[i] for i in keep]} for f, v in spec.items()]
    with quiet():
        kw = dict(path=base, snaps=[0], updatepath=False)
        if kind == 'uchuu':
            c = UchuuCatalogs(SIM[kind], **kw)
        elif kind in ('testbox', 'bolshoi', 'binary'):
            c = UniversemachineCatalogs(SIM[kind], **kw)
        else:
            c = IllustrisCatalogs(SIM[kind], 'key', **kw)
        try:
            c.format(basic=basic)
            e['obs'] = observe(base, kind, tile)
        except Exception as ex:
            e['obs'] = {'err': True, 'cols': [], 'cuts': [], 'why': repr(ex)}
    return {'init': {'seed': seed}, 'ev': [e]}


def run(ck, prop):
    ck.setup_code()
    cfg = ('CONSTANTS SC = %d\n NMAX = %d\n MASSES = {59000, 60000, 100000, 100500, 199999, 200000}\nINIT Init\nNEXT Next\n'
           'INVARIANT Right\nINVARIANT TablesOK\nCHECK_DEADLOCK FALSE\n' % (SC, 5 if ck.thorough else 3))
    ck.model_check('MCCatalog', cfg)
    import simim.siminterface  # noqa: F401

    def job(it):
        ident = multiprocessing.current_process()._identity
        return one(os.path.join(ck.scratch, 'c%d' % (ident[0] if ident else 0)), it[0], it[1])
    n = 4000 if ck.thorough else 480
    kinds = list(SIM)
    traces = ck.parallel(job, [('D03-%d-%d' % (ck.seed, k), kinds[k % len(kinds)]) for k in range(n)])
    ck.validate('TraceCatalog', traces, 'CONSTANT SC = %d\n' % SC, '', chunk=130)
    ck.assumptions += ['up to 6 halos per snapshot, or up to 9000 that are copies of them, h = 1/2, exactly representable raw values', 'one snapshot per catalogue here; '
                       'several snapshots and histories are the business of D04']
