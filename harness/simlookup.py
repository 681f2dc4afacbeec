"""Driver for snapshot lookup by redshift and mass (spec/SimLookup.tla)."""
import os
import random
import numpy as np

from core import quiet
import simhandler as sh

ZS = 4096       # redshift scale
H = sh.H


def fz(x):
    y = float(x) * ZS
    return int(round(y))


def build(r, ck):
    name, path = sh.my_slot(ck)
    ns = r.choice([1, 1, 2, 3, 5])
    idx = r.sample(range(r.choice([ns, ns + 1, 30])), ns)
    zs = r.sample([k / 64 for k in range(0, 257, r.choice([1, 8, 16]))], ns)
    if r.random() < .6:
        # the order formatted files use: snapshot number up, redshift down
        idx.sort()
        zs.sort(reverse=True)
    asc = sorted(range(ns), key=lambda k: zs[k])
    metas = np.zeros(ns, dtype=sh.META_DTYPE)
    lo = {}
    hi = {}
    for p, k in enumerate(asc):
        lo[k] = r.choice([0, 0, 0, zs[k] / 2]) if p == 0 else hi[asc[p - 1]]
        if p == ns - 1:
            hi[k] = zs[k] if r.random() < .7 else zs[k] + 1
        else:
            f = r.choice([.25, .5, .75])
            hi[k] = zs[k] + f * (zs[asc[p + 1]] - zs[k])
    snaps, nats, cuts, s = [], [], [], []
    u = r.choice([1, 1, 2**20, 2**33, 2**40])       # solar masses per unit of mass
    num, den = r.choice([(1, 2), (1, 2), (1, 4), (3, 4), (1, 1)])
    big = r.random() < .15
    for k in range(ns):
        if big:
            # as long a table as formatting writes, and many halos
            n = r.choice([0, 50, 300])
            ms = sorted([int(3000 * 10**r.uniform(-3, 0)) + 1 for _ in range(n)], reverse=True)
            cs = sorted(set(int(4000 * 10**(-j / 40)) for j in range(r.choice([60, 141]))), reverse=True)
        else:
            n = r.choice([0, 1, 2, 3, 6, 10])
            ms = sorted([r.choice([1, 2, 3, 4, 5, 6, 8, 12, 16, 24]) for _ in range(n)], reverse=True)
            cs = sorted(set(r.sample([1, 2, 3, 4, 6, 8, 10, 16, 20, 32], r.choice([1, 2, 4, 7]))), reverse=True)
            if not cs or (ms and cs[0] <= ms[0]):
                cs = [64] + cs
        tab = [(c, len([m for m in ms if m >= c])) for c in cs]
        snaps.append((idx[k], zs[k], n))
        nats.append([{'n': 'mass', 'dt': 'f4', 'hd': -1, 'raw': [m * u for m in ms]}])
        cuts.append([(c * u, i) for c, i in tab])
        metas[k]['index'], metas[k]['redshift'] = idx[k], zs[k]
        metas[k]['redshift_min'], metas[k]['redshift_max'] = lo[k], hi[k]
        s.append({'index': idx[k], 'z': fz(zs[k]), 'lo': fz(lo[k]), 'hi': fz(hi[k]), 'm': ms,
                  'cuts': [{'m': c, 'i': i} for c, i in tab]})
    sh.write_sim(path, snaps, nats, metas=metas, cuts=cuts, h=num / den)
    from simim.siminterface import SimHandler
    return s, SimHandler(name, init_snaps=r.random() < .3, in_h_units=r.random() < .5), (u, num, den, big)


def queries(r, s, h, how, prop, n):
    u, num, den, big = how
    ev = []
    edges = [x for q in s for x in (q['lo'], q['hi'], q['z'])]
    top, low = max(edges), min(edges)
    for _ in range(n):
        if prop == 'S02':
            op = r.choice(['z', 'z', 'z', 'open', 'meta'])
        else:
            op = r.choice(['mass', 'mass', 'mass', 'meta'])
        e = {'op': op}
        o = {'err': False}
        try:
            if op in ('z', 'open'):
                z = r.choice([r.choice(edges), r.choice(edges) + r.choice([-1, 1]), r.randint(low - 300, top + 300)])
                e['z'] = z
                zz = z / ZS
                zz = r.choice([float, np.float32, np.float64])(zz)
                if op == 'z':
                    o['index'] = int(h.z_to_snap(zz))
                else:
                    t = h.get_snap_from_z(zz)
                    o['z'] = fz(t.redshift)
                    o['m'] = [int(x) // u if int(x) % u == 0 else -1 for x in t.return_property('mass', use_all_inds=True, in_h_units=True)]
            elif op == 'meta':
                e['i'] = r.choice([r.choice(s)['index'], r.randrange(31)])
                m = h.extract_snap_meta(e['i'])
                o.update(index=int(m['index']), z=fz(m['redshift']), lo=fz(m['redshift_min']), hi=fz(m['redshift_max']))
            else:
                q = r.choice(s)
                e['i'] = q['index'] if r.random() < .95 else 31
                m = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 17, 20, 24, 32, 33, 64, 65, 200])
                if big and r.random() < .8:
                    m = r.choice([r.choice([c['m'] for c in q['cuts']]) * den // num, r.choice([c['m'] for c in q['cuts']]) + r.choice([-1, 0, 1]), r.randint(1, 6000)])
                flag = r.choice(['t', 'f', 'd'])
                e['inh'] = {'t': True, 'f': False, 'd': bool(h.default_in_h_units)}[flag]
                e.update(m=m, num=num, den=den)
                o['index'] = int(h.get_mass_index(r.choice([int, float, np.float64])(m * u), e['i'], in_h_units={'t': True, 'f': False, 'd': None}[flag]))
        except Exception:
            o = {'err': True, 'index': 0, 'z': 0, 'm': [], 'lo': 0, 'hi': 0}
        e['obs'] = o
        ev.append(e)
    return ev


def run(ck, prop):
    ck.setup_code()
    sh.register_slots(ck)
    cfg = ('CONSTANTS\n ZSET = {0, 2, 4, 8, 10%s}\n MASSES = {1, 3, 5, 9}\n CUTS = {1, 2, 4, 8}\n NMAX = %d\n'
           'INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n' % (', 14' if ck.thorough else '', 4 if ck.thorough else 2))
    ck.model_check('MCSimLookup', cfg)

    def one(seed):
        r = random.Random(seed)
        with quiet():
            s, h, how = build(r, ck)
            return {'init': {'s': s}, 'ev': queries(r, s, h, how, prop, 25)}
    n = 4000 if ck.thorough else 500
    traces = ck.parallel(one, ['%s-%d-%d' % (prop, ck.seed, k) for k in range(n)])
    ck.validate('TraceSimLookup', traces, '', 'lookup:', chunk=260)
    ck.assumptions += ['simulations of up to 5 snapshots and 10 halos (300 halos and 141 tabulated masses in a seventh of them), h of 1/4, 1/2, 3/4 and 1, the tabulated masses start above every halo']
