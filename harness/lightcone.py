"""Drivers for light cones and light spheres (spec/LightCone.tla, LCSet.tla, LCView.tla)."""
import os
import random
import shutil
import numpy as np
import h5py

from core import quiet, answers
import simhandler as sh
import handler as hd

H = sh.H
MODES = ['sphere', 'hemisphere', 'quarter', 'eighth']
UNITS = {'pos_x': 'u_pos_x', 'pos_y': 'u_pos_y', 'pos_z': 'u_pos_z', 'mass': 'u_mass'}


class Cosmo:
    """Distances in Mpc/h, from the cosmology the files name."""
    def __init__(self):
        from astropy.cosmology import FlatLambdaCDM
        c = FlatLambdaCDM(H0=100 * H, Om0=0.3, Ob0=0.05, Tcmb0=2.7255)
        z = np.linspace(0, 6, 60001)
        self.z, self.d = z, c.comoving_distance(z).value * H

    def D(self, z):
        return np.interp(z, self.z, self.d)

    def Z(self, d):
        return np.interp(d, self.d, self.z)


def remember_distances():
    """Comoving distances are integrated anew for 100000 redshifts each time a maker is set up;
    the same question gets the same answer here."""
    from astropy.cosmology import FlatLambdaCDM
    plain = FlatLambdaCDM.comoving_distance
    memo = {}

    def comoving_distance(self, z, *a, **k):
        if a or k or not isinstance(z, np.ndarray) or z.size < 1000:
            return plain(self, z, *a, **k)
        key = (float(self.H0.value), float(self.Om0), float(self.Ob0), float(self.Tcmb0.value), hash(z.tobytes()))
        if key not in memo:
            memo[key] = plain(self, z)
        return memo[key].copy()
    FlatLambdaCDM.comoving_distance = comoving_distance
    import astropy.units as u
    c = FlatLambdaCDM(H0=100 * H * u.km / u.s / u.Mpc, Om0=0.3, Ob0=0.05, Tcmb0=2.7255 * u.K)
    c.comoving_distance(np.linspace(0, 20.05, 100000))


COSMO = None


def cosmo():
    global COSMO
    if COSMO is None:
        COSMO = Cosmo()
    return COSMO


def dy(x, q=1024):
    return np.round(np.asarray(x) * q) / q


class Sim:
    """A formatted simulation of a few snapshots that tile the redshifts up to zs[-1]."""

    def __init__(self, r, name, path, box, edges, nmax=80, idx=None, extra=(), grid=1024):
        self.name, self.path, self.box = name, path, box
        c = cosmo()
        ns = len(edges) - 1
        self.edges = edges
        # snapshot numbers go up in time
        self.idx = idx or sorted(r.sample(range(r.choice([ns, ns + 1, 40])), ns), reverse=True)
        metas = np.zeros(ns, dtype=sh.META_DTYPE)
        self.snaps, natives, cuts = [], [], []
        self.data = {}
        for k in range(ns):
            n = r.choice([nmax, nmax, nmax // 2, 1, 0]) if ns > 1 else nmax
            m = metas[k]
            m['index'] = self.idx[k]
            m['redshift'] = edges[k] if k == 0 else (edges[k] + edges[k + 1]) / 2
            m['redshift_min'], m['redshift_max'] = edges[k], edges[k + 1]
            for e, z in (('min', edges[k]), ('max', edges[k + 1])):
                m['distance_' + e] = m['transverse_distance_' + e] = c.D(z)
            ms = sorted([r.choice([1, 2, 3, 4, 6, 8, 12, 16]) for _ in range(n)], reverse=True)
            pos = [[r.choice([0, box - 1 / grid, box / 2]) if r.random() < .02 else r.randrange(int(box * grid)) / grid for _ in range(n)] for _ in range(3)]
            nat = [{'n': 'mass', 'dt': 'f4', 'hd': -1, 'raw': ms}]
            for a, p in zip('xyz', pos):
                nat.append({'n': 'pos_' + a, 'dt': 'f4', 'hd': -1, 'raw': p})
            nat += [f(r, n, pos, box) for f in extra]
            natives.append(nat)
            tops = r.choice([[64, 10, 5, 2], [64, 16, 8, 4, 2, 1], [32]])
            cuts.append([(t, len([x for x in ms if x >= t])) for t in tops])
            self.snaps.append((self.idx[k], float(m['redshift']), n))
            self.data[self.idx[k]] = {q['n']: np.array(q['raw'], dtype=q['dt']) for q in nat}
        self.metas = metas
        order = list(range(ns))
        if r.random() < .5:
            order.reverse()
        if r.random() < .3:
            r.shuffle(order)
        self.file = sh.write_sim(path, [self.snaps[k] for k in order], [natives[k] for k in order],
                                 metas=metas[order], box=float(box), cuts=[cuts[k] for k in order])
        from simim._paths import _SimIMPaths
        with quiet():
            p = _SimIMPaths()
            lcs = os.path.join(os.path.dirname(path), 'lc_' + os.path.basename(path))
            shutil.rmtree(lcs, ignore_errors=True)
            os.makedirs(lcs)
            if p.lcs.get(name) != lcs:
                p._newlcpath(name, new_path=lcs, checkoverwrite=False)
        self.lcs = lcs


def i3(x):
    return int(round(float(x) * 1000))


def i6(x):
    x = float(x)
    return int(round(x * 1e6)) if abs(x) < 2000 else 2 * 10**9


def order(sim, mode, zmin, zmax, cut, angle=0, aspect=1):
    """What was asked for, in the terms of the specification."""
    c = cosmo()
    dlo, dhi = c.D(zmin), c.D(zmax)
    shells = []
    for k in np.argsort(sim.metas['redshift']):
        m = sim.metas[k]
        if zmin <= m['redshift_max'] and zmax >= m['redshift_min']:
            shells.append({'s': int(m['index']), 'lo': i3(max(float(m['distance_min']), dlo)), 'hi': i3(min(float(m['distance_max']), dhi))})
    g = {'mode': mode, 'half1': i6(np.radians(angle) / 2), 'half2': i6(np.radians(angle) * aspect / 2),
         'shells': shells, 'units': {}, 'zmin': i6(zmin), 'zmax': i6(zmax), 'sim': sim.name, 'cut': i3(cut),
         'angles': [i6(np.radians(angle)), i6(aspect)] if mode in ('box', 'circle') else []}
    un = dict(UNITS, ra='radians', dec='radians', redshift='None')
    hdep = dict(pos_x=-1, pos_y=-1, pos_z=-1, mass=-1, ra=0, dec=0, redshift=0)
    g['units'] = {k: [un[k], hdep[k]] for k in un}
    return g


def read_lc(path, sim, g, cut):
    """The light cone on file, and every image near the field of view."""
    c = cosmo()
    with h5py.File(path, 'r') as f:
        at = dict(f.attrs)
        full = {k: f['Lightcone Full'][k][:] for k in f['Lightcone Full']}
        units = {k: [str(f['Lightcone Full'][k].attrs['units']), int(f['Lightcone Full'][k].attrs['h dependence'])] for k in f['Lightcone Full']}
        basic = {k: f['Lightcone Basic'][k][:] for k in f['Lightcone Basic']}
        ind = f['Indexing']['sim_indices'][:]
        zi = f['Indexing']['redshift_indices'][:]
    n = len(ind)
    done = bool(at['status_basic']) and bool(at['status_initialized']) and at['finished'] not in (False, 'False') \
        and all(len(v) == n for v in full.values()) and all(np.array_equal(full[k], basic[k]) for k in basic)
    rows = []
    for j in range(n):
        rows.append({'s': int(ind['snap'][j]), 'i': int(ind['index'][j]),
                     'p': [i3(full['pos_x'][j]), i3(full['pos_y'][j]), i3(full['pos_z'][j])],
                     'ra': i6(full['ra'][j]), 'dec': i6(full['dec'][j]), 'z6': i6(full['redshift'][j]), 'm': i3(full['mass'][j])})
    mode = str(at['shape'])
    start, flips = at['start position'], at['box flips']
    rot = True
    if g['mode'] in ('box', 'circle'):
        los, M, pa, P = (at['line of sight vector'], at['line of sight transformation matrix'], at['position angle'],
                         at['position angle transformation matrix'])
        T = P @ M
        want = np.array([[1, 0, 0], [0, np.cos(pa), -np.sin(pa)], [0, np.sin(pa), np.cos(pa)]])
        rot = bool(np.allclose(T @ T.T, np.eye(3), atol=1e-9) and np.linalg.det(T) > 0
                   and np.allclose(M @ los, [1, 0, 0], atol=1e-9) and np.allclose(P, want, atol=1e-9))
        axes = T[[1, 2, 0]]
        angles = [i6(at['open angle']), i6(at['aspect ratio'])]
    else:
        axes = np.eye(3)
        angles = []
    rot = rot and set(np.abs(flips)) == {1} and bool(np.all(start >= 0) and np.all(start <= sim.box))
    cands = []
    for sk, s in enumerate(g['shells']):
        dat = sim.data[s['s']]
        if len(dat['mass']) == 0 or s['hi'] < s['lo'] - 100:
            continue
        p = np.array([dat['pos_x'], dat['pos_y'], dat['pos_z']]).T.astype(float)
        p = (p * flips) % sim.box - start
        lo, hi = s['lo'] / 1000 - .1, s['hi'] / 1000 + .1
        K = int(np.ceil(hi / sim.box)) + 1
        rng1 = range(-1, K + 1) if g['mode'] in ('box', 'circle') else range(-1, 2)
        ks = np.array([(a, b, e) for a in rng1 for b in rng1 for e in rng1], dtype=float) * sim.box
        d = np.linalg.norm(ks + sim.box / 2, axis=1)
        reach = sim.box * 2.7
        ks = ks[(d > lo - reach) & (d < hi + reach)]
        if g['mode'] in ('box', 'circle'):
            # only boxes near the line of sight
            t = (ks - start) @ at['line of sight vector']
            off = np.linalg.norm((ks - start) - t[:, None] * at['line of sight vector'], axis=1)
            ks = ks[off < reach + 2 * hi * np.radians(10)]
        q = (p[:, None, :] + ks[None, :, :])
        dist = np.linalg.norm(q, axis=2)
        hi_, ki_ = np.nonzero((dist > lo) & (dist < hi))
        q, dist = q[hi_, ki_], dist[hi_, ki_]
        x = q @ axes.T
        with np.errstate(all='ignore'):
            if g['mode'] in ('box', 'circle'):
                ra, dec = x[:, 0] / dist, x[:, 1] / dist
                rr = np.hypot(x[:, 0], x[:, 1]) / dist
                eps = 1e-4
                if g['mode'] == 'box':
                    keep = (np.abs(ra) < g['half1'] / 1e6 + eps) & (np.abs(dec) < g['half2'] / 1e6 + eps)
                else:
                    keep = rr < g['half1'] / 1e6 + eps
                keep &= x[:, 2] > 0
            else:
                ra, dec = np.arctan2(x[:, 1], x[:, 0]) % (2 * np.pi), np.arcsin(np.clip(x[:, 2] / dist, -1, 1))
                rr = dist * 0
                w = {'sphere': '', 'hemisphere': 'z', 'quarter': 'yz', 'eighth': 'xyz'}[g['mode']]
                keep = np.ones(len(dist), bool)
                for a in w:
                    keep &= x[:, 'xyz'.index(a)] > -.1
        z = c.Z(dist)
        for j in np.nonzero(keep)[0]:
            m = dat['mass'][hi_[j]]
            cands.append({'s': s['s'], 'i': int(hi_[j]), 'sk': sk + 1, 'p': [i3(v) for v in x[j]], 'd': i3(dist[j]), 'r': i6(rr[j]),
                          'ra': i6(ra[j]), 'dec': i6(dec[j]), 'z6': i6(z[j]), 'm': i3(m), 'heavy': bool(m >= cut)})
    zs = zi['redshift']
    pick = sorted({0, 1, 2, 99} | set(range(0, 100, 9)) | {k for k in range(100) if at['minimum redshift'] - .1 < zs[k] < at['maximum redshift'] + .1})
    return {'rows': rows, 'cands': cands, 'zindex': [{'k': int(zi['index'][k]), 'z6': i6(zs[k])} for k in pick],
            'units': units, 'done': done, 'mode': mode, 'zmin': i6(at['minimum redshift']), 'zmax': i6(at['maximum redshift']),
            'sim': str(at['parent sim']), 'snaps': [int(s) for s in at['snapshots']['index']], 'rot': rot,
            'cut': i3(at['mass cut']), 'angles': angles}, at


NAMES1 = ['UniverseMachine-BolshoiPlanck', 'UniverseMachine-SMDPL', 'UniverseMachine-MDPL2', 'UniverseMachine-uchuu', '_testbox']


def slot_for(ck, many):
    """A simulation name of this worker, of which the box may be copied or not."""
    import multiprocessing
    ident = multiprocessing.current_process()._identity
    k = (ident[0] if ident else 0)
    if not many and k % 8 < len(NAMES1):
        n = NAMES1[k % 8]
    else:
        rest = [x for x in sh.slot_names() if x not in NAMES1]
        n = rest[k % len(rest)]
    i = sh.slot_names().index(n)
    return n, os.path.join(ck.scratch, 'sims', 's%02d' % i)


def feasible(box, copies, angle, aspect, mode, zmax_edge):
    """Room enough for the maker to find a line of sight without long search."""
    rad = np.radians(angle) / 2 * (1 if mode == 'circle' else np.hypot(1, aspect))
    dmax = cosmo().D(zmax_edge)
    buf = 1.01 * np.tan(rad) / np.sin(np.radians(28)) * dmax
    return copies * box - 2 * buf > 15


def parts(what, g, lc):
    """What is asked of one light cone; of a big one in parts."""
    if len(lc['rows']) * len(lc['cands']) <= 90000:
        return [{'what': what, 'g': g, 'lc': lc}]
    k = int(np.ceil(np.hypot(len(lc['rows']), len(lc['cands'])) / 400))
    mine = {'content': 'content', 'look': 'rows', 'all': 'part'}[what]
    out = [{'what': mine, 'g': g, 'lc': {'rows': [x for x in lc['rows'] if x['i'] % k == j], 'cands': [x for x in lc['cands'] if x['i'] % k == j]}}
           for j in range(k)]
    if what != 'content':
        out.append({'what': 'whole', 'g': g, 'lc': dict(lc, cands=[])})
    return out


def cone(r, ck, what, big=False):
    """One set of light cones."""
    many = r.random() < .5
    name, path = slot_for(ck, many)
    copies = 2 if name not in NAMES1 else 1
    for _ in range(2000):
        box = r.choice([64, 100, 128, 150, 200])
        ns = r.choice([1, 2, 3, 4])
        zs = sorted(r.sample([.02, .03, .05, .06, .08, .1, .12, .15, .2, .25, .3], ns))
        edges = [r.choice([0, 0, 0, zs[0] / 2])] + zs
        aspect = r.choice([1, 1, .5, .25, .8])
        mode = r.choice(['box', 'box', 'circle'])
        bounds = [np.float32(e) for e in edges]
        zmax = r.choice(['max', 'max', float(r.choice(bounds[1:])), r.uniform(edges[0] + .005, edges[-1])])
        top = float(np.float32(edges[-1])) if zmax == 'max' else zmax
        zmin = r.choice([0, 0, float(r.choice(bounds)), r.uniform(0, top)])
        zmin = min(zmin, float(top))
        if zmin >= top or zmin > edges[-1] or top < edges[0]:
            continue
        zedge = max(float(e) for e, b in zip(edges[1:], edges[:-1]) if np.float32(b) <= np.float32(top)) + 1e-6
        angle = max([a for a in (.25, .5, 1, 1.5, 2, 3, 4, 5, 6, 8, 10)
                     if cosmo().D(zedge) * np.radians(a) < box * .95 and feasible(box, copies, a, aspect, mode, zedge)] or [0])
        angle *= r.choice([1, 1, 1, .9, .5])
        if angle:
            break
    # so many halos that a few dozen are in view
    omega = np.radians(angle)**2 * (aspect if mode == 'box' else .8)
    vol = omega / 3 * (cosmo().D(top)**3 - cosmo().D(zmin)**3)
    dens = int(min(400, max(3, r.choice([15, 40, 60]) * box**3 / max(vol, 1) * 1.3)))
    if big:
        dens = int(min(60000, r.choice([3000, 5500]) * box**3 / max(vol, 1)))
    sim = Sim(r, name, path, box, edges, nmax=dens)
    cut = r.choice([0, 0, 2, 3, 4, 5, 8, 100] if not big else [0, 2])
    from simim.lightcone import LCMaker
    n = r.choice([1, 1, 2, 3]) if not big else 1
    with quiet():
        mk = LCMaker(name, 'set', openangle=angle, aspect=aspect, redshift_min=zmin, redshift_max=zmax,
                     minimum_mass=cut, mode=mode, overwrite=r.choice([True, 'check', False]))
        mk.build_lightcones(n, rng=np.random.default_rng(r.randrange(10**6)))
    ztop = float(np.amax(sim.metas['redshift_max'])) if zmax == 'max' else zmax
    g = order(sim, mode, zmin, ztop, cut, angle, aspect)
    ev = []
    for k in range(n):
        lc, _ = read_lc(os.path.join(sim.lcs, 'set', 'lc_%04d.hdf5' % k), sim, g, cut)
        ev += [dict(e, op='cone ' + mode) for e in parts(what, g, lc)]
    return {'ev': ev, 'copies': copies}


def sphere(r, ck, what='all', mode=None, big=False):
    name, path = slot_for(ck, r.random() < .5)
    mode = mode or r.choice(MODES)
    box = r.choice([64, 75, 100, 128])
    ns = r.choice([1, 2, 3])
    c = cosmo()
    # the sphere has to fit in the box: half of its edge, an eighth of a sphere all of it
    lim = box * (.999 if mode == 'eighth' else .4999)
    ds = sorted(r.sample([k / 20 * lim for k in range(4, 20)], ns - 1)) + [r.choice([lim, .8 * lim, 1.5 * lim])]
    edges = [r.choice([0, 0, 0, float(c.Z(ds[0] / 3))])] + [float(c.Z(d)) for d in ds]
    sim = Sim(r, name, path, box, edges, nmax=r.choice([20, 60, 150] if not big else [8000]))
    zl = float(c.Z(lim))
    zmax = min(zl, r.choice([edges[-1], zl, float(np.float32(r.choice(edges[1:]))), r.uniform(edges[0] + 1e-4, edges[-1])]))
    zmin = r.choice([0, 0, float(np.float32(edges[0])), r.uniform(0, zmax)])
    if zmin > zmax or zmax < edges[0] + 1e-5 or zmin > edges[-1] - 1e-5:
        zmin, zmax = 0, zl
    cut = r.choice([0, 0, 2, 3, 4, 5, 100])
    from simim.lightcone import SphereMaker
    n = r.choice([1, 2])
    with quiet():
        mk = SphereMaker(name, 'set', redshift_min=zmin, redshift_max=zmax, minimum_mass=cut, mode=mode,
                         overwrite=r.choice([True, 'check', False]))
        mk.build_lightcones(n, rng=np.random.default_rng(r.randrange(10**6)))
    g = order(sim, mode, zmin, zmax, cut)
    ev = []
    for k in range(n):
        lc, _ = read_lc(os.path.join(sim.lcs, 'set', 'lc_%04d.hdf5' % k), sim, g, cut)
        ev += [dict(e, op=mode) for e in parts(what, g, lc)]
    return {'ev': ev}


def too_big(ck, mode):
    """A sphere wider than the box in Mpc/h, but not if the edge were in Mpc (h = 1/2):
    the one order that is known to be taken and filled in part."""
    r = random.Random('too big ' + mode)
    name, path = slot_for(ck, False)
    box, edge = 64, float(np.float32(cosmo().Z(64 * (1.2 if mode == 'eighth' else .6))))
    sim = Sim(r, name, path, box, [0, edge], nmax=60)
    from simim.lightcone import SphereMaker
    try:
        with quiet():
            mk = SphereMaker(name, 'set', redshift_min=0, redshift_max=edge, minimum_mass=0, mode=mode, overwrite=True)
            mk.build_lightcones(1, rng=np.random.default_rng(5))
    except ValueError:
        return None
    g = order(sim, mode, 0, edge, 0)
    lc, _ = read_lc(os.path.join(sim.lcs, 'set', 'lc_0000.hdf5'), sim, g, 0)
    return {'ev': [{'op': mode, 'what': 'all', 'g': g, 'lc': lc}],
            'finding': {'key': 'oversize-' + mode, 'clauses': ['everything in view']}}


def run_L04(ck):
    ck.model_check('MCLightCone', 'CONSTANTS B = 10\n D0S = {0}\n LENS = {2, 4}\n STEPS = {1, 2}\n WS = {0, 1}\n BUFS = {0, 1, 2}\n'
                   'INIT Init\nNEXT Next\nINVARIANT Exact\nCHECK_DEADLOCK FALSE\n')

    def one(seed):
        if seed in MODES:
            return too_big(ck, seed)
        return sphere(random.Random(seed), ck, big=seed.startswith('big'))
    n = 2500 if ck.thorough else 300
    traces = [t for t in ck.parallel(one, MODES + ['big-%d-%d' % (ck.seed, k) for k in range(24 if ck.thorough else 4)] + ['sphere-%d-%d' % (ck.seed, k) for k in range(n)]) if t]
    random.Random(1).shuffle(traces)
    ck.validate('TraceLightCone', traces, '', 'sphere:', chunk=40)
    ck.extra['halos_in_light_spheres'] = sum(len(e['lc']['rows']) for t in traces for e in t['ev'])
    ck.assumptions += ['boxes of 64 to 128 Mpc/h with up to 60 (a few with 8000) halos a snapshot; positions compared to 0.003 Mpc/h, angles and redshifts to 3e-6']


def run(ck, prop):
    ck.setup_code()
    sh.register_slots(ck)
    remember_distances()
    globals()['run_' + prop](ck)


def run_L01(ck, what='content'):
    if what == 'content':
        ck.model_check('MCLightCone', 'CONSTANTS B = %d\n D0S = {0, 2, 5}\n LENS = {2, 4, 6}\n STEPS = {1, 2, 3}\n WS = {0, 1, 2}\n BUFS = {0, 1, 2}\n'
                       'INIT Init\nNEXT Next\nINVARIANT Exact\nCHECK_DEADLOCK FALSE\n' % (25 if ck.thorough else 15))

    def one(seed):
        r = random.Random(seed)
        return cone(r, ck, what, big=seed.startswith('big'))
    n = 2500 if ck.thorough else 260
    traces = [t for t in ck.parallel(one, ['big-%d-%d' % (ck.seed, k) for k in range(32 if ck.thorough else 5)]
                                          + ['%s-%d-%d' % (what, ck.seed, k) for k in range(n)]) if t['ev']]
    random.Random(1).shuffle(traces)
    ck.validate('TraceLightCone', traces, '', 'lc:', chunk=80)
    ck.extra['halos_in_light_cones'] = sum(len(e['lc']['rows']) for t in traces for e in t['ev'])
    ck.extra['sets_with_copied_boxes'] = sum(t['copies'] > 1 for t in traces)
    ck.assumptions += ['boxes of 64 to 128 Mpc/h with up to 80 (a few with 8000) halos a snapshot, redshifts up to 0.3, positions compared to 0.003 Mpc/h, angles and redshifts to 3e-6',
                       'images closer than that to the edge of the field may be in or out']


def run_L02(ck):
    run_L01(ck, 'look')


# ------------------------------------------------------------------ sets
BIG = 2**53
SCALARS = {'a': ('f8', 0), 'w': ('f4', 2), 'c': ('i4', 0), 'oid': ('i8', 0)}


def code(key, v):
    if key == 'oid':
        return int(v) - BIG if abs(int(v) - BIG) < 2**30 else -77777
    x = float(v) * 16
    return int(round(x)) if abs(x) < 2**30 and abs(x - round(x)) < 1e-6 else -77777


def extra_columns(r):
    def scal(key):
        def f(r, n, pos, box):
            dt, hdep = SCALARS[key]
            raw = [BIG + 1 + 2 * r.randrange(1000) for _ in range(n)] if key == 'oid' else [r.randrange(1, 300) if dt[0] == 'i' else r.randrange(1, 4000) / 16 for _ in range(n)]
            return {'n': key, 'dt': dt, 'hd': hdep, 'raw': raw}
        return f

    def vec(key, hdep):
        def f(a):
            def g(r, n, pos, box):
                if key == 'cm':
                    p = pos['xyz'.index(a)]
                    raw = [(x + r.randrange(-20, 21) / 16) % box for x in p]
                else:
                    raw = [r.randrange(-1600, 1600) / 16 for _ in range(n)]
                return {'n': key + '_' + a, 'dt': 'f4', 'hd': hdep, 'raw': raw}
            return g
        return [f(a) for a in 'xyz']
    cols = [scal(k) for k in SCALARS]
    for k, hdep in (('v', 0), ('spin', -2), ('cm', -1)):
        if r.random() < .85:
            cols += vec(k, hdep)
    return cols


def prints(path):
    """What is in the file, column by column."""
    import hashlib
    out = {}
    with h5py.File(path, 'r') as f:
        for k, v in f.attrs.items():
            out['@' + k] = hashlib.md5(repr(np.asarray(v).tolist()).encode()).hexdigest()

        def visit(name, o):
            if isinstance(o, h5py.Dataset):
                h = hashlib.md5(np.ascontiguousarray(o[()]).tobytes())
                h.update(repr((o.shape, str(o.dtype), sorted((k, str(v)) for k, v in o.attrs.items()))).encode())
                out[name] = h.hexdigest()
        f.visititems(visit)
        for k in f['Lightcone Full'] if 'Lightcone Full' in f else []:
            out.setdefault('Lightcone Full/' + k, hashlib.md5(np.ascontiguousarray(f['Lightcone Full'][k][()]).tobytes()).hexdigest())
    return out


class Sets:
    """One simulation and the light cones made of it."""

    def __init__(self, r, ck, prop, big=False):
        self.big = big
        many = r.random() < .3 and not big
        self.name, path = slot_for(ck, many)
        self.prop = prop
        box = r.choice([96, 128])
        ns = r.choice([1, 2, 3])
        if prop == 'L05':
            self.edges = [0] + sorted(r.sample([.01, .02, .03, .04], ns))
        else:
            self.edges = [0] + sorted(r.sample([.03, .05, .08, .1], ns))
        old = r.randrange
        self.sim = Sim(r, self.name, path, box, self.edges, nmax=r.choice([30, 120, 200]) if not big else 9000, extra=extra_columns(r), grid=16)
        s = self.sim
        first = s.data[s.idx[0]]
        keys = sorted(first)
        self.order = list(s.idx)
        self.simrec = {'tab': {k: [[code(k, v) for v in s.data[i][k]] for i in self.order] for k in keys if not k.startswith('spinless')},
                       'unit': {k: 'u_' + k for k in keys}, 'hd': {}, 'dt': {k: str(first[k].dtype) for k in keys}, 'box': box * 16}
        with h5py.File(s.file, 'r') as f:
            g = f['Snapshot %d' % s.idx[0]]
            for k in keys:
                self.simrec['hd'][k] = int(g[k].attrs['h dependence'])
        self.keys = keys
        self.makers = {}
        self.built = {}
        self.starts = {}
        self.prev = {}
        self.simfp = self.simprint()
        # geometry on offer
        c = cosmo()
        self.params = []
        zt = float(np.float32(self.edges[-1]))
        for _ in range(2):
            if r.random() < .6 and not big:
                angle = max([a for a in (.5, 1, 2, 4, 6, 8, 10) if c.D(zt) * np.radians(a) < box * .9
                             and feasible(box, 1, a, 1, 'box', zt)] or [.5])
                self.params.append(('cone', dict(openangle=angle, aspect=r.choice([1, .5]), redshift_min=r.choice([0, zt / 3]), redshift_max='max',
                                                 minimum_mass=r.choice([0, 2, 4]), mode=r.choice(['box', 'circle']))))
            else:
                mode = r.choice(MODES if not big else MODES[:2])
                zl = min(zt, float(c.Z(box * .49)))
                self.params.append(('sphere', dict(redshift_min=r.choice([0, zl / 3]), redshift_max=zl, minimum_mass=r.choice([0, 2, 4]), mode=mode)))

    def simprint(self):
        import hashlib
        with open(self.sim.file, 'rb') as f:
            return hashlib.md5(f.read()).hexdigest()

    def bad_params(self, r):
        """An order that makes no sense."""
        kind, p = r.choice(self.params)
        p = dict(p)
        zt = float(np.float32(self.edges[-1]))
        if kind == 'cone':
            w = r.choice(['mode', 'aspect', 'z', 'wide'])
            if w == 'mode':
                p['mode'] = r.choice(['sphere', 'Box', 'round'])
            elif w == 'aspect':
                p['aspect'] = r.choice([1.5, 1.01])
            elif w == 'z':
                p['redshift_min'], p['redshift_max'] = zt, zt / 2
            else:
                p['openangle'] = np.degrees(self.sim.box / cosmo().D(zt)) * r.choice([1.02, 3])
        else:
            w = r.choice(['mode', 'z', 'wide'])
            if w == 'mode':
                p['mode'] = r.choice(['box', 'circle', 'half'])
            elif w == 'z':
                p['redshift_min'], p['redshift_max'] = zt, zt / 2
            else:
                # bigger than the box however it is measured
                p['redshift_max'] = float(cosmo().Z(self.sim.box / H * (1.02 if p['mode'] == 'eighth' else .51)))
        return kind, p

    def perform(self, e, r):
        from simim.lightcone import LCMaker, SphereMaker
        res = {'err': False, 'used': 0, 'warn': {'already': 0, 'positional': 0, 'unknown': 0}, 'repeat': True}
        import warnings
        try:
            if e['op'] == 'order':
                kind, p = e['_p']
                ans = answers(e['replies'])
                ow = {'yes': True, 'no': False, 'check': 'check'}.get(e['ow'], e['ow'])
                with quiet(), ans:
                    try:
                        mk = (LCMaker if kind == 'cone' else SphereMaker)(self.name if e['simok'] else 'Nonesuch', e['name'], overwrite=ow, **p)
                        self.makers[e['name']] = (mk, kind, p)
                    finally:
                        res['used'] = ans.used
            elif e['op'] == 'build':
                mk, kind, p = self.makers[e['name']]
                with quiet():
                    if e['seed'] is None:
                        mk.build_lightcones(e['n'])
                    else:
                        mk.build_lightcones(e['n'], rng=np.random.default_rng(e['seed']))
                fps, starts = [], []
                for k in range(e['n']):
                    q = os.path.join(self.sim.lcs, e['name'], 'lc_%04d.hdf5' % k)
                    fp = prints(q)
                    fps.append({a: b for a, b in fp.items() if a not in ('@created', '@finished')})
                    with h5py.File(q, 'r') as f:
                        starts.append(tuple(f.attrs['start position']))
                key = (kind, repr(sorted(p.items())), e['n'], e['seed'])
                ok = len(set(starts)) == len(starts)
                if e['seed'] is not None:
                    ok = ok and self.built.setdefault(key, fps) == fps
                for k, st in enumerate(starts):
                    # the same place only if asked for with the same dice
                    ok = ok and self.starts.setdefault(st, (e['seed'], k if e['seed'] is None else None)) [0] == e['seed']
                if e['seed'] is None:
                    for st in starts:
                        ok = ok and st not in self.loose
                    self.loose.update(starts)
                res['repeat'] = bool(ok)
            else:
                mk, kind, p = self.makers[e['name']]
                with quiet(), warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    getattr(mk, 'add_properties' if e['op'] == 'add' else 'add_pos_properties')(*e['keys'])
                for x in w:
                    t = str(x.message)
                    k = 'positional' if 'is positional' in t else 'already' if 'already in light cone' in t else 'unknown' if 'not found' in t else None
                    if k:
                        res['warn'][k] += 1
        except Exception as ex:
            if e['op'] != 'order' or not isinstance(ex, (ValueError, NameError)):
                raise
            res['err'] = True
        return res

    loose = None
    largest = 0

    def observe(self, e, res):
        dirs, new = [], []
        now = {}
        for d in sorted(os.listdir(self.sim.lcs)):
            lcs = []
            k = 0
            while os.path.exists(os.path.join(self.sim.lcs, d, 'lc_%04d.hdf5' % k)):
                q = os.path.join(self.sim.lcs, d, 'lc_%04d.hdf5' % k)
                fp = prints(q)
                now[d, k] = fp
                old = self.prev.get((d, k), {})
                same = (d, k) not in self.prev or all(fp.get(a) == b for a, b in old.items() if not a.startswith('@status_extra'))
                cols = [a[len('Lightcone Full/'):] for a in fp if a.startswith('Lightcone Full/')]
                with h5py.File(q, 'r') as f:
                    at = dict(f.attrs)
                    added = [c for c in cols if (d, k) in self.prev and 'Lightcone Full/' + c not in old]
                    if added and e['op'] in ('add', 'addpos'):
                        ind = f['Indexing']['sim_indices'][:]
                        g = f['Lightcone Full']
                        if 'line of sight vector' in at:
                            T = (at['position angle transformation matrix'] @ at['line of sight transformation matrix'])[[1, 2, 0]]
                        else:
                            T = np.eye(3)
                        n = len(ind)
                        self.largest = max(self.largest, n)
                        keep = set(sorted(range(n), key=lambda j: (j * 7919) % 104729)[:25 if n < 1000 else 60])
                        keep |= {j for b in list(range(0, n, 500)) + [n] for j in (b - 1, b) if 0 <= j < n}
                        keep = sorted(keep)
                        new.append({'rows': [{'s': self.order.index(int(ind['snap'][j])) + 1, 'i': int(ind['index'][j]) + 1} for j in keep],
                                    'flips': [int(x) for x in at['box flips']], 'T': [[int(round(x * 1e4)) for x in row] for row in T],
                                    'pos': [[int(round(float(g['pos_' + a][j]) * 160000)) for a in 'xyz'] for j in keep],
                                    'cols': [{'key': c, 'unit': str(g[c].attrs['units']), 'hd': int(g[c].attrs['h dependence']), 'dt': str(g[c].dtype),
                                              'v': [code(c, g[c][j]) if c[:-2] not in ('v', 'spin', 'cm') else int(round(float(g[c][j]) * 160000))
                                                    for j in keep] if len(g[c]) == n else []} for c in added]})
                lcs.append({'cols': cols, 'same': same, 'basic': bool(at['status_basic']) and at['finished'] is not False,
                            'extra': bool(at['status_extra_completed']) and bool(at['status_extra_initialized'])})
                k += 1
            dirs.append({'name': d, 'lcs': lcs})
        self.prev = now
        return dict(res, dirs=dirs, new=new, simsame=self.simprint() == self.simfp)


NAMES = ['a', 'b', 'c d']
KEYPOOL = ['a', 'w', 'c', 'oid', 'masscheck', 'mass', 'redshift', 'v_x', 'spin_z', 'cm_y', 'nope', 'ra']
STEMPOOL = ['v', 'spin', 'cm', 'pos', 'mass', 'nope']


def random_op(r, S, prop):
    have = sorted(S.makers)
    built = [n for n in have if getattr(S.makers[n][0], 'n', 0)]
    w = {'L03': [1, 1, 4, 4], 'L05': [4, 4, 1, 1]}[prop]
    kind = r.choices(['order', 'build', 'add', 'addpos'], w)[0]
    if kind in ('add', 'addpos') and not built:
        kind = 'build'
    if kind == 'build' and not have:
        kind = 'order'
    if kind == 'order':
        ok = r.random() < .75
        reps = [r.choice(['', 'yes', 'Y', 'q', 'no']) for _ in range(r.choice([0, 0, 1, 2]))] + [r.choice(['y', 'y', 'n'])]
        return {'op': 'order', 'name': r.choice(NAMES), 'ow': r.choice(['yes', 'yes', 'no', 'check', 'check'] + (['maybe'] if r.random() < .3 else [])),
                'replies': reps, 'ok': ok, 'simok': r.random() < .95, '_p': r.choice(S.params) if ok else S.bad_params(r)}
    if kind == 'build':
        return {'op': 'build', 'name': r.choice(have), 'n': r.choice([1, 1, 2, 3]), 'seed': r.choice([1, 1, 2, None])}
    if kind == 'add':
        return {'op': 'add', 'name': r.choice(built), 'keys': [r.choice(KEYPOOL) for _ in range(r.choice([1, 1, 2, 3, 5]))]}
    return {'op': 'addpos', 'name': r.choice(built), 'keys': [r.choice(STEMPOOL) for _ in range(r.choice([1, 1, 2, 3]))]}


def compact(sim, ev):
    """Keep those halos of the simulation's tables that the light cones refer to."""
    used = sorted({(q['s'], q['i']) for e in ev for w in e['obs']['new'] for q in w['rows']})
    at = {}
    for s, i in used:
        at[s, i] = sum(1 for t in at if t[0] == s) + 1
    for k, tab in sim['tab'].items():
        sim['tab'][k] = [[col[i - 1] for t, i in used if t == s] for s, col in enumerate(tab, 1)]
    for e in ev:
        for w in e['obs']['new']:
            for q in w['rows']:
                q['i'] = at[q['s'], q['i']]


def set_history(r, ck, prop, ops=None, length=8, big=False):
    S = Sets(r, ck, prop, big)
    S.loose = set()
    ev = []
    steps = len(ops) if ops is not None else length
    if ops is None and prop == 'L03':
        n0 = r.choice(NAMES)
        first = [{'op': 'order', 'name': n0, 'ow': 'yes', 'replies': ['y'], 'ok': True, 'simok': True, '_p': r.choice(S.params)},
                 {'op': 'build', 'name': n0, 'n': r.choice([1, 2]), 'seed': r.choice([1, 2])}]
    else:
        first = []
    for j in range(steps + len(first)):
        if ops is not None:
            e = dict(ops[j])
            if e['op'] == 'order':
                e['_p'] = r.choice(S.params) if e['ok'] else S.bad_params(r)
        else:
            e = first[j] if j < len(first) else random_op(r, S, prop)
        res = S.perform(e, r)
        e = {k: v for k, v in e.items() if k != '_p'}
        if e.get('seed', 0) is None:
            e['seed'] = 0
        e['obs'] = S.observe(e, res)
        ev.append(e)
    compact(S.simrec, ev)
    return {'largest': S.largest, 'init': {'keys': S.keys, 'sim': S.simrec}, 'ev': ev}


def set_menu(ck):
    ops = []
    n = 'a'
    for ow in ('yes', 'no', 'check'):
        ops.append({'op': 'order', 'name': n, 'ow': ow, 'replies': ['', 'n' if ow == 'check' else 'y'], 'ok': True, 'simok': True})
    ops.append({'op': 'order', 'name': n, 'ow': 'check', 'replies': ['y'], 'ok': False, 'simok': True})
    for k in (1, 2):
        ops.append({'op': 'build', 'name': n, 'n': k, 'seed': 1})
    ops.append({'op': 'add', 'name': n, 'keys': ['a', 'v_x', 'masscheck', 'a']})
    ops.append({'op': 'add', 'name': n, 'keys': ['nope', 'oid']})
    ops.append({'op': 'addpos', 'name': n, 'keys': ['v', 'pos', 'nope']})
    ops.append({'op': 'addpos', 'name': n, 'keys': ['cm']})
    ops.append({'op': 'order', 'name': 'b', 'ow': 'no', 'replies': ['y'], 'ok': True, 'simok': True})
    ops.append({'op': 'build', 'name': 'b', 'n': 1, 'seed': 2})
    ops.append({'op': 'add', 'name': 'b', 'keys': ['c']})
    return ops


def run_sets(ck, prop):
    import json
    from core import cover_walks
    menu = set_menu(ck)
    keys = ['mass', 'pos_x', 'pos_y', 'pos_z', 'a', 'w', 'c', 'oid'] + ['%s_%s' % (s, a) for s in ('v', 'spin', 'cm') for a in 'xyz']
    mf = os.path.join(ck.scratch, 'menu.json')
    with open(mf, 'w') as f:
        json.dump({'ops': menu, 'keys': keys}, f)
    cfg = 'INIT Init\nNEXT Next\nINVARIANT Inv\nPROPERTY StepProp\nVIEW LView\nCHECK_DEADLOCK FALSE\nACTION_CONSTRAINT Emit\n'
    edges, init = ck.model_check('MCLCSet', cfg, env={'MENU': mf}, dump=True)
    walks, cov, tot = cover_walks(edges, init, 12, ck.rng, limit=400 if ck.thorough else 40)
    ck.extra['model_transitions'] = tot
    ck.extra['model_transitions_replayed'] = cov

    def one(it):
        seed, ops = it
        r = random.Random(seed)
        return set_history(r, ck, prop, ops, length=r.choice([6, 10]), big=seed.startswith('big'))
    n = 900 if ck.thorough else 130
    items = [('%s-%d-w%d' % (prop, ck.seed, k), [menu[i - 1] for i in w]) for k, w in enumerate(walks)]
    items = [('big-%s-%d-%d' % (prop, ck.seed, k), None) for k in range(12 if ck.thorough else 2)] + items
    items += [('%s-%d-%d' % (prop, ck.seed, k), None) for k in range(n)]
    traces = ck.parallel(one, items)
    ck.extra['largest_light_cone'] = max(t['largest'] for t in traces)
    ck.validate('TraceLCSet', traces, '', 'set:', chunk=40)
    ck.extra['added_values'] = sum(len(c['v']) for t in traces for e in t['ev'] for n_ in e['obs']['new'] for c in n_['cols'])


def run_L03(ck):
    run_sets(ck, 'L03')


def run_L05(ck):
    run_sets(ck, 'L05')
