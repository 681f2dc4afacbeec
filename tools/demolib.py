"""Scratch copy of the package below the current directory, with a data root of its own."""
import atexit
import builtins
import io
import contextlib
import os
import shutil
import sys
import tempfile
import warnings

SRC = os.path.join(os.getcwd(), 'simim')
scratch = tempfile.mkdtemp(prefix='demo_')
atexit.register(shutil.rmtree, scratch, True)
shutil.copytree(SRC, scratch + '/pkg/simim', ignore=shutil.ignore_patterns('__pycache__', 'rootpath.txt'))
os.environ['MPLBACKEND'] = 'Agg'
os.environ['MPLCONFIGDIR'] = scratch
sys.dont_write_bytecode = True
sys.path.insert(0, scratch + '/pkg')
os.makedirs(scratch + '/root')
os.makedirs(scratch + '/work')
os.chdir(scratch + '/work')
warnings.simplefilter('ignore')


@contextlib.contextmanager
def replies(*a):
    a = list(a)
    old = builtins.input
    builtins.input = lambda p='': a.pop(0)
    try:
        yield
    finally:
        builtins.input = old


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


import numpy as np
np.seterr(all='ignore')
import simim
assert simim.__file__.startswith(scratch)
with quiet(), replies(scratch + '/root', 'y'):
    simim.setupsimim()

META = [('index', 'i'), ('redshift', 'f'), ('redshift_min', 'f'), ('redshift_max', 'f'),
        ('time_start', 'f'), ('time_end', 'f'), ('distance_min', 'f'), ('distance_max', 'f'),
        ('transverse_distance_min', 'f'), ('transverse_distance_max', 'f')]


def catalog(sim='_testbox', snaps=((0, 1.0, 4), (1, 0.5, 4)), h=0.5, box=10., extra=None, positions=None, edges=None, seed=0):
    """A formatted catalogue: snaps = (index, redshift, halos), earliest first."""
    import h5py
    import astropy.units as u
    from astropy.cosmology import FlatLambdaCDM
    from simim._paths import _SimIMPaths
    path = scratch + '/sim_' + sim
    os.makedirs(path, exist_ok=True)
    cosmo = FlatLambdaCDM(H0=100 * h * u.km / u.s / u.Mpc, Om0=.3, Ob0=.05, Tcmb0=2.7255 * u.K)
    m = np.zeros(len(snaps), dtype=META)
    zs = [s[1] for s in snaps]
    if edges is None:
        edges = [zs[0]] + [(a + b) / 2 for a, b in zip(zs, zs[1:])] + [0]
    for i, s in enumerate(snaps):
        m[i]['index'], m[i]['redshift'] = s[0], s[1]
        m[i]['redshift_max'], m[i]['redshift_min'] = edges[i], edges[i + 1]
        for k, z in (('max', edges[i]), ('min', edges[i + 1])):
            d = cosmo.comoving_distance(z).value * h if z > 0 else 0
            m[i]['distance_' + k] = m[i]['transverse_distance_' + k] = d
    r = np.random.default_rng(seed)
    with h5py.File(path + '/data.hdf5', 'w') as f:
        for k, v in dict(cosmo_h=h, cosmo_omega_matter=.3, cosmo_omega_lambda=.7, cosmo_omega_baryon=.05, box_edge=box,
                         number_snaps=len(snaps), name=sim, cosmo_name='x').items():
            f.attrs[k] = v
        f.attrs['snapshots'] = m
        for i, s in enumerate(snaps):
            n = s[2]
            g = f.create_group('Snapshot %d' % s[0])
            cols = {'mass': (np.sort(2. ** r.integers(30, 45, n))[::-1], 'Msun/h', -1)}
            pos = r.uniform(0, box, (n, 3)) if positions is None else np.asarray(positions[i], dtype=float).reshape(n, 3)
            for j, c in enumerate('xyz'):
                cols['pos_' + c] = (pos[:, j], 'Mpc/h', -1)
                cols['v_' + c] = (r.normal(0, 100, n), 'km/s', 0)
            for k, v in (extra or {}).items():
                cols[k] = (np.asarray(v[0][i] if isinstance(v[0], (list, tuple)) else v[0], dtype=float), v[1], v[2])
            for k, (v, un, hd) in cols.items():
                d = g.create_dataset(k, data=np.asarray(v, dtype='f4'))
                d.attrs['units'], d.attrs['h dependence'] = un, hd
            cuts = np.zeros(1, dtype=[('min_mass', 'f'), ('index', 'i')])
            cuts['min_mass'], cuts['index'] = 1e20, 0
            g.create_dataset('mass_cuts', data=cuts)
    with quiet():
        _SimIMPaths()._newsimpath(sim, new_path=path, checkoverwrite=False)
    return path


def same(a, b, tol=1e-5):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)
