"""Driver for snapshot metadata (spec/Bins.tla): scripted archive listings, every
metadata history against what the specification derives from the listing."""
import multiprocessing
import os
import random
import shutil
import numpy as np

from core import quiet

UM = {'UniverseMachine-BolshoiPlanck': ('txt', 250), 'UniverseMachine-SMDPL': ('bin', 400),
      'UniverseMachine-MDPL2': ('bin', 1000), '_testbox': ('txt', 10)}
UMC = {'name': 'Planck', 'h': 678, 'om': 3070, 'ol': 6930, 'ob': 480}
UCC = {'name': 'Planck', 'h': 677.5, 'om': 3089, 'ol': 6911, 'ob': 486}
SIMS = list(UM) + ['UniverseMachine-uchuu', 'Illustris-1', 'Illustris-3-Dark', 'TNG100-3', 'TNG300-1-Dark']


def cosmology(c):
    from astropy.cosmology import FlatLambdaCDM
    import astropy.units as u
    return FlatLambdaCDM(H0=c['h'] / 10 * u.km / u.s / u.Mpc, Om0=c['om'] / 1e4, Ob0=c['ob'] / 1e4, Tcmb0=2.7255 * u.K)


class Response:
    def __init__(self, text=None, data=None):
        self.text, self.data = text, data
        self.status_code = 200

    def raise_for_status(self):
        pass

    def json(self):
        return self.data


def listing(r, sim):
    """([(number, redshift)], files by number or None, responses by url, parameters)"""
    if sim == '_testbox':
        names = ['sfr_catalog_0.055623.txt', 'sfr_catalog_0.506185.txt', 'sfr_catalog_0.994717.txt']
        return [(k, 1 / float(n.split('_')[-1][:-4]) - 1) for k, n in enumerate(names)], names, None, dict(UMC, box=10)
    n = r.choice([1, 2, 3, 4, 6])
    if sim in UM:
        a = sorted(r.sample(range(60000, 999000, 500), n))
        names = ['sfr_catalog_%.6f.%s' % (x / 1e6, UM[sim][0]) for x in a]
        shown = list(names)
        r.shuffle(shown)
        html = '<html> <a href="index"> up </a> ' + ' '.join('<td><a href="%s">%s</a></td> <td align="right">' % (x, x) for x in shown) + ' </html>'
        return [(k, 1 / (x / 1e6) - 1) for k, x in enumerate(a)], names, lambda url: Response(text=html), dict(UMC, box=UM[sim][1])
    if sim == 'UniverseMachine-uchuu':
        z = sorted(r.sample(range(3, 1390), n), reverse=True)
        names = ['Uchuu_UM_z%dp%02d_data1.h5' % (x // 100, x % 100) for x in z]
        shown = names + [x.replace('data1', 'data%d' % r.choice([2, 3])) for x in names]
        r.shuffle(shown)
        html = '<html> ' + ' '.join('<a href="%s">%s</a> x ' % (x, x) for x in shown) + ' </html>'
        return [(k, x / 100) for k, x in enumerate(z)], names, lambda url: Response(text=html), dict(UCC, box=2000)
    if r.random() < .5:
        nums = sorted(r.sample([x for x in range(100) if x not in (53, 55)], n))
    else:
        s = r.randint(0, 40)
        nums = list(range(s, s + n))
    z = sorted([x / 100 for x in r.sample(range(3, 2000), n)], reverse=True)
    c = {'name': 'WMAP-7', 'h': r.choice([704, 677.4, 500]), 'om': r.choice([2726, 3089]), 'ol': r.choice([7274, 6911]),
         'ob': r.choice([456, 486]), 'box': r.choice([75, 35, 205])}
    shown = [{'number': a, 'redshift': b, 'url': 'http://x/%d/' % a} for a, b in zip(nums, z)]
    r.shuffle(shown)
    top = {'name': sim, 'boxsize': c['box'] * 1000, 'num_snapshots': n, 'cosmology': c['name'], 'omega_0': c['om'] / 1e4,
           'omega_L': c['ol'] / 1e4, 'omega_B': c['ob'] / 1e4, 'hubble': c['h'] / 1e3, 'num_files_groupcat': 1}

    def reply(url):
        return Response(data=shown if url.endswith('snapshots') or url.endswith('snapshots/') else top)
    return list(zip(nums, z)), None, reply, c


def observe(base, cos, h):
    o = {'err': False, 'rows': [], 'meta': {}, 'files': []}
    m = np.load(base + '/meta_snaps.npy')
    d = np.load(base + '/meta.npy', allow_pickle=True).item()
    import astropy.units as u  # noqa: F401

    def I(x, s=1e4):
        return int(round(float(x) * s)) if np.isfinite(x) else -999999
    for r in m:
        lo, hi = max(0., float(r['redshift_min'])), max(0., float(r['redshift_max']))
        o['rows'].append({'index': int(r['index']), 'z': I(r['redshift']), 'zlo': I(r['redshift_min']), 'zhi': I(r['redshift_max']),
                          't0': I(r['time_start']), 't1': I(r['time_end']),
                          'd0': I(r['distance_min'], 100), 'd1': I(r['distance_max'], 100),
                          'x0': I(r['transverse_distance_min'], 100), 'x1': I(r['transverse_distance_max'], 100),
                          'alo': I(cos.age(lo).value), 'ahi': I(cos.age(hi).value),
                          'dlo': I(cos.comoving_distance(lo).value * h, 100), 'dhi': I(cos.comoving_distance(hi).value * h, 100)})
    o['meta'] = {'name': str(d['name']), 'cosmo': str(d['cosmo_name']), 'n': int(d['number_snaps']), 'box': I(d['box_edge'], 1000),
                 'h': I(d['cosmo_h']), 'om': I(d['cosmo_omega_matter']), 'ol': I(d['cosmo_omega_lambda']),
                 'ob': I(d['cosmo_omega_baryon'])}
    return o


def one(base, seed, sim=None):
    import requests
    import shutil as sh
    import importlib
    um = importlib.import_module('simim.siminterface.universemachine')
    uc = importlib.import_module('simim.siminterface.uchuu')
    from simim.siminterface import UniversemachineCatalogs, UchuuCatalogs, IllustrisCatalogs
    r = random.Random(seed)
    sim = sim or r.choice(SIMS)
    if os.path.exists(base):
        sh.rmtree(base)
    os.makedirs(base)
    snaps, names, reply, c = listing(r, sim)
    cos = cosmology(c)
    L = [{'num': n, 'z': int(round(z * 1e4)), 'age': int(round(float(cos.age(z).value) * 1e4))} for n, z in snaps]
    age0 = int(round(float(cos.age(0).value) * 1e4))
    meta = {'name': sim, 'cosmo': c['name'], 'n': len(snaps), 'box': c['box'] * 1000, 'h': int(round(c['h'] * 10)), 'om': c['om'],
            'ol': c['ol'], 'ob': c['ob']}
    fetched = []

    def retrieve(url, path, *a, **k):
        fetched.append(url.rstrip('/').split('/')[-1])
        open(path, 'w').close()
    old = requests.get, um.urlretrieve, uc.urlretrieve
    requests.get = lambda url, *a, **k: reply(url)
    um.urlretrieve = uc.urlretrieve = retrieve
    ev = []
    current = None
    try:
        for step in range(r.choice([1, 2, 3])):
            chosen = r.sample([n for n, z in snaps], r.randint(1, len(snaps)))
            fresh = r.random() < .8
            force = step > 0 and r.random() < .6
            if current is None or force:
                current = sorted(chosen)
            e = {'op': 'meta', 'sim': sim, 'listing': L, 'chosen': current, 'age0': age0, 'meta': meta, 'mayerr': False,
                 'files': [] if names is None else [names[n] for n in chosen]}
            with quiet():
                try:
                    kw = dict(path=base, snaps=list(chosen), updatepath=False)
                    if sim in UM:
                        x = UniversemachineCatalogs(sim, **kw)
                    elif sim == 'UniverseMachine-uchuu':
                        x = UchuuCatalogs(sim, **kw)
                    else:
                        x = IllustrisCatalogs(sim, 'key', **kw)
                    x.download_meta(redownload=force)
                    e['obs'] = observe(base, cos, c['h'] / 1e3)
                    if names is not None:
                        del fetched[:]
                        if sim == '_testbox':
                            sh.rmtree(base + '/raw', ignore_errors=True)
                            x.download()
                            e['obs']['files'] = [f for n in chosen for f in [names[n]] if os.path.exists(base + '/raw/' + f)]
                        elif sim == 'UniverseMachine-uchuu':
                            x.download(redownload=True, datafiles=[1])
                            e['obs']['files'] = list(fetched)
                        else:
                            x.download(redownload=True)
                            e['obs']['files'] = list(fetched)
                except Exception as ex:
                    e['obs'] = {'err': True, 'rows': [], 'meta': {}, 'files': [], 'why': repr(ex)}
            ev.append(e)
    finally:
        requests.get, um.urlretrieve, uc.urlretrieve = old
    return {'init': {'seed': seed}, 'ev': ev}


def run(ck, prop):
    ck.setup_code()
    cfg = ('CONSTANTS NMAX = %d\n AMAX = %d\nINIT Init\nNEXT Next\nINVARIANT Tiles\nINVARIANT Nearest\nINVARIANT Own\n'
           'CHECK_DEADLOCK FALSE\n' % ((4, 10) if ck.thorough else (3, 7)))
    ck.model_check('MCBins', cfg)

    def job(it):
        ident = multiprocessing.current_process()._identity
        return one(os.path.join(ck.scratch, 'b%d' % (ident[0] if ident else 0)), it[0], it[1])
    n = 1500 if ck.thorough else 225
    traces = ck.parallel(job, [('D05-%d-%d' % (ck.seed, k), SIMS[k % len(SIMS)]) for k in range(n)])
    ck.validate('TraceBins', traces, '', '', chunk=60)
    ck.assumptions += ['archive listings of up to 6 snapshots with positive redshifts', 'cosmological ages and distances from astropy, '
                       'times to 0.0003 Gyr, redshifts to 0.0002, distances to 0.06 Mpc/h']
