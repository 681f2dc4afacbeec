"""Drivers for the data directory of a simulation (spec/DataDir.tla): what is
downloaded, formatted and cleared. The code deletes files here, so it runs in
child processes without privileges, on scratch folders of their own."""
import json
import multiprocessing
import os
import random
import shutil
import signal
import urllib.request
import numpy as np

from core import quiet, answers, cover_walks, MachineryError

NOBODY = 65534
SERVER = None


class Server:
    """Stands in for the network: serves files of a local folder."""
    def __init__(self):
        self.dir = None
        self.fail = set()        # names whose transfer breaks off
        self.partial = False

    def __call__(self, url, filename=None, *a, **k):
        name = str(url).split('/')[-1]
        src = os.path.join(self.dir, name)
        if name in self.fail:
            if self.partial:
                with open(src, 'rb') as f, open(filename, 'wb') as g:
                    d = f.read()
                    g.write(d[:len(d) // 2])
            raise urllib.request.ContentTooShortError('transfer broke off', None)
        shutil.copy(src, filename)
        return filename, None


class Reply:
    def __init__(self, data):
        self.data = data

    def raise_for_status(self):
        pass

    def json(self):
        return self.data


def tng_api(url, *a, **k):
    """The archive of the Illustris simulations, about itself."""
    if url.rstrip('/').endswith('snapshots'):
        return Reply([{'number': s, 'redshift': REDSHIFTS[s], 'url': 'x'} for s in range(SERVER.tng)][::-1])
    return Reply({'name': SIM['tng'], 'boxsize': 75000, 'num_snapshots': SERVER.tng, 'cosmology': 'Planck', 'omega_0': .3,
                  'omega_L': .7, 'omega_B': .05, 'hubble': .5, 'num_files_groupcat': PARTS['tng']})


def drop_privileges():
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    if os.getuid() == 0:
        raise MachineryError('could not drop privileges')


UM_BIN = np.dtype([('id', 'i8'), ('descid', 'i8'), ('upid', 'i8'), ('flags', 'i4'), ('uparent_dist', 'f4'),
                   ('pos', 'f4', (6)), ('vmp', 'f4'), ('lvmp', 'f4'), ('mp', 'f4'), ('m', 'f4'), ('v', 'f4'), ('r', 'f4'),
                   ('rank1', 'f4'), ('rank2', 'f4'), ('ra', 'f4'), ('rarank', 'f4'), ('a_uv', 'f4'), ('sm', 'f4'),
                   ('icl', 'f4'), ('sfr', 'f4'), ('obs_sm', 'f4'), ('obs_sfr', 'f4'), ('obs_uv', 'f4'), ('empty', 'f4')],
                  align=True)
UM_ASCII = ['id', 'descid', 'upid', 'flags', 'uparent_dist', 'x', 'y', 'z', 'vx', 'vy', 'vz', 'm', 'v', 'mp', 'vmp', 'r',
            'rank1', 'rank2', 'ra', 'rarank', 'sm', 'icl', 'sfr', 'obs_sm', 'obs_sfr', 'obs_ssfr', 'smhm', 'obs_uv']
UCHUU = {1: ['id', 'upid', 'Mvir', 'sm', 'icl', 'sfr', 'obs_sm', 'obs_sfr', 'obs_uv'], 2: ['x', 'y', 'z'],
         3: ['desc_id', 'vx', 'vy', 'vz', 'Mpeak', 'Vmax_Mpeak', 'vmax', 'A_UV']}
NAMES = {'bin': ['sfr_catalog_0.%d00000.bin' % (s + 2) for s in range(6)],
         'ascii': ['sfr_catalog_0.055623.txt', 'sfr_catalog_0.506185.txt', 'sfr_catalog_0.994717.txt'],
         'uchuu': ['Uchuu_UM_z%dp00_data1.h5' % (5 - s) for s in range(6)]}
NAMES['tng'] = ['groups_%03d/fof_subhalo_tab_%03d.0.hdf5' % (s, s) for s in range(6)]
SIM = {'tng': 'TNG100-2-Dark', 'bin': 'UniverseMachine-SMDPL', 'ascii': '_testbox', 'uchuu': 'UniverseMachine-uchuu'}
PARTS = {'bin': 1, 'ascii': 1, 'uchuu': 3, 'tng': 2}
TNG = {'SubhaloPos': 3, 'SubhaloHalfmassRad': 1, 'SubhaloMass': 1, 'SubhaloVel': 3, 'SubhaloCM': 3, 'SubhaloMassInMaxRad': 1,
       'SubhaloSpin': 3, 'SubhaloVelDisp': 1, 'SubhaloVmax': 1, 'SubhaloVmaxRad': 1}
REDSHIFTS = [5., 4., 3., 2., 1., .5]

# Stands in for wget (found on the PATH): serves the files of a local folder, with the meaning of the options the
# download uses. It can break off a transfer (leaving half a file behind) or end the process that asked for it.
WGET = r'''#!/usr/bin/python3 -IS
import json, os, re, signal, sys
c = json.load(open(os.environ['DRIVER_WGET']))
a = sys.argv[1:]
def write():
    json.dump(c, open(os.environ['DRIVER_WGET'], 'w'))
def die():
    write()
    os.kill(c['pid'], signal.SIGKILL)
    sys.exit(4)
c['calls'] += 1
if c['calls'] > 25:
    c['runaway'] = True
    die()
write()
where, nc, urls, k = '.', False, [], 0
while k < len(a):
    if a[k] in ('-P', '--directory-prefix'):
        where, k = a[k + 1], k + 1
    elif a[k].startswith('--directory-prefix='):
        where = a[k].split('=', 1)[1]
    elif a[k] in ('-e', '-l', '-A', '-o', '-O', '--header', '-t', '--tries', '-R'):
        k += 1
    elif a[k] in ('-nc', '--no-clobber'):
        nc = True
    elif not a[k].startswith('-'):
        urls.append(a[k])
    k += 1
status = 0
for u in urls:
    m = re.search('/' + re.escape(c['sim']) + r'/files/groupcat-([0-9]+)/', u)
    src = m and os.path.join(c['server'], 'groups_%03d' % int(m.group(1)))
    if not m or not os.path.isdir(src):
        status = 4
        continue
    s = int(m.group(1))
    os.makedirs(where, exist_ok=True)
    done = 0
    names = sorted(os.listdir(src))
    last = len([n for n in names if not (nc and os.path.exists(os.path.join(where, n)))]) - 1
    for n in names:
        t = os.path.join(where, n)
        if os.path.exists(t):
            if nc:
                continue
            k = 1
            while os.path.exists(t + '.%d' % k):
                k += 1
            t += '.%d' % k
        d = open(os.path.join(src, n), 'rb').read()
        breaks = s in c['down'] and done == (last if c['late'] else 0)
        open(t, 'wb').write(d[:len(d) // 2] if breaks else d)
        done += 1
        if breaks:
            c['down'].remove(s)
            if c['kill']:
                die()
            status = 4
            break
write()
sys.exit(status)
'''



def nh(s, kind=None):
    return [3, 2, 4, 2 if kind == 'tng' else 1, 5, 2][s]


def put_raw(kind, s, part, ver, path):
    """A raw file of snapshot s, recognisable by snapshot, part and version."""
    import h5py
    n = nh(s, kind)
    if kind == 'tng':
        rows = [list(range(n // 2)), list(range(n // 2, n))][part - 1]
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with h5py.File(path, 'w') as f:
            h = f.create_group('Header')
            h.attrs['Nsubgroups_Total'], h.attrs['Nsubgroups_ThisFile'], h.attrs['NumFiles'] = n, len(rows), 2
            g = f.create_group('Subhalo')
            for c, k in TNG.items():
                a = np.zeros((len(rows), k) if k > 1 else len(rows), dtype='f4')
                if c == 'SubhaloMass':
                    a[:] = [2.0 ** (40 - i) / 1e10 for i in rows]
                elif c == 'SubhaloPos':
                    a[:, 0], a[:, 1] = 1000 * s, 1000 * ver
                elif c == 'SubhaloVel':
                    a[:, 0], a[:, 1] = s, ver
                g.create_dataset(c, data=a)
    elif kind == 'bin':
        d = np.zeros(n, dtype=UM_BIN)
        d['m'] = [2.0 ** (40 - i) for i in range(n)]
        d['pos'][:, 0] = s
        d['pos'][:, 1] = ver
        d['id'] = np.arange(n)
        d.tofile(path)
    elif kind == 'ascii':
        rows = np.zeros((n, len(UM_ASCII)))
        rows[:, UM_ASCII.index('m')] = [2.0 ** (40 - i) for i in range(n)]
        rows[:, UM_ASCII.index('x')] = s
        rows[:, UM_ASCII.index('y')] = ver
        np.savetxt(path, rows, fmt='%.8g')
    else:
        with h5py.File(path, 'w') as f:
            for c in UCHUU[part]:
                f.create_dataset(c, data=np.zeros(n, 'f4'))
            if part == 1:
                f['Mvir'][:] = [2.0 ** (40 - i) + 1024 * 1024 * ver for i in range(n)]
            elif part == 2:
                f['x'][:], f['y'][:] = s, ver
            else:
                f['vx'][:], f['vy'][:] = s, ver


class Dir:
    """A simulation's folder between neighbours that have to stay."""
    def __init__(self, base, kind, n):
        self.base, self.kind, self.n = base, kind, n
        if os.path.exists(base):
            shutil.rmtree(base)
        self.path = os.path.join(base, 'my sims', 'box one')
        os.makedirs(self.path)
        self.server = os.path.join(base, 'server')
        os.makedirs(self.server)
        self.guard = {}
        for f in ('my', 'my sims/box', 'my sims/box two/raw/keep.txt', 'my sims/box one/notes.txt', 'raw/keep.txt',
                  'one/raw/keep.txt', 'my sims/box one/raw2/keep.txt', 'my sims/raw/keep.txt'):
            p = os.path.join(base, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as fh:
                fh.write(f)
            self.guard[p] = f
        if kind not in ('ascii', 'tng'):
            np.save(os.path.join(self.path, 'web_paths.npy'), np.array(NAMES[kind][:n]))
        self.ver = [1] * n
        self.known = {}
        for s in range(n):
            self.publish(s, 1)
        self.open(list(range(n)))

    def fname(self, s, f):
        if self.kind == 'tng':
            return NAMES['tng'][s].replace('.0.hdf5', '.%d.hdf5' % (f - 1))
        return NAMES[self.kind][s].replace('data1', 'data%d' % f)

    def publish(self, s, v):
        for f in range(1, PARTS[self.kind] + 1):
            p = os.path.join(self.server, self.fname(s, f))
            put_raw(self.kind, s, f, v, p)
            with open(p, 'rb') as fh:
                self.known[fh.read()] = (s, f, v)

    def open(self, snaps):
        from simim.siminterface import UniversemachineCatalogs, UchuuCatalogs, IllustrisCatalogs
        import pathlib
        if self.kind == 'tng':
            SERVER.tng = self.n
            self.cat = IllustrisCatalogs(SIM['tng'], 'key', path=self.path, snaps=list(snaps), updatepath=False)
            return
        cls = UchuuCatalogs if self.kind == 'uchuu' else UniversemachineCatalogs
        self.cat = cls(SIM[self.kind], path=self.path, snaps=list(snaps), updatepath=False)
        if self.kind == 'ascii':
            self.cat.webpage = pathlib.Path(self.server)

    def observe(self):
        import h5py
        o = {'safe': True, 'raw': [], 'scraps': 0, 'alien': False, 'meta': [], 'hasmeta': False, 'ex': False, 'g': [],
             'listed': [], 'number': 0}
        for p, txt in self.guard.items():
            if not os.path.isfile(p) or open(p).read() != txt:
                o['safe'] = False
        raw = os.path.join(self.path, 'raw')
        o['dir'] = os.path.isdir(raw)
        names = {self.fname(s, f): (s, f) for s in range(self.n) for f in range(1, PARTS[self.kind] + 1)}
        found = [os.path.relpath(os.path.join(d, x), raw) for d, _, fs in os.walk(raw) for x in fs] if o['dir'] else []
        for x in sorted(found):
            p = os.path.join(raw, x)
            if x in names:
                with open(p, 'rb') as fh:
                    k = self.known.get(fh.read())
                if k is None and self.kind == 'tng' and not whole(p):
                    o['scraps'] += 1       # half a file, which can be told from a whole one
                    continue
                ok = k is not None and k[:2] == names[x]
                o['raw'].append({'s': names[x][0], 'f': names[x][1], 'v': k[2] if ok else -1})
            elif x == 'someone.txt':
                o['alien'] = True
            else:
                o['scraps'] += 1
        m = os.path.join(self.path, 'meta_snaps.npy')
        if os.path.exists(m) and os.path.exists(os.path.join(self.path, 'meta.npy')):
            o['hasmeta'] = True
            o['meta'] = [int(i) for i in np.load(m)['index']]
        d = os.path.join(self.path, 'data.hdf5')
        if os.path.exists(d):
            o['ex'] = True
            with h5py.File(d, 'r') as fh:
                o['listed'] = [int(x['index']) for x in fh.attrs.get('snapshots', [])]
                o['number'] = int(fh.attrs.get('number_snaps', -1))
                for k in fh:
                    s = int(k.split(' ')[1])
                    g = fh[k]
                    cols = ('pos_x', 'pos_y', 'v_x', 'v_y', 'mass', 'mass_cuts')
                    if any(c not in g for c in cols) or 'metadata' not in g.attrs:
                        o['g'].append({'v': [0] * PARTS[self.kind], 'ok': False, 'b': False, 's': s})
                        continue
                    px, py, vx, vy, m, _ = [g[c][:] for c in cols]
                    o['g'].append(dict(self.content(s, px, py, vx, vy, m), b=('vmax' if self.kind == 'tng' else 'm_stars') not in g, s=s))
        return o

    def content(self, s, px, py, vx, vy, m):
        """Which version(s) of the raw files do the columns come from?"""
        n = nh(s, self.kind)
        e = np.array([2.0 ** (40 - i) for i in range(n)])
        ok = all(len(c) == n for c in (px, py, vx, vy, m)) and bool(np.all(px == s))
        if not ok:
            return {'v': [0] * PARTS[self.kind], 'ok': False}
        if self.kind == 'uchuu':
            v1 = int(round((m[0] - e[0]) / 1024 / 1024))
            ok = bool(np.allclose(m, e + 1024 * 1024 * v1)) and bool(np.all(vx == s)) and len(set(py)) == 1 and len(set(vy)) == 1
            return {'v': [v1, int(py[0]), int(vy[0])], 'ok': ok}
        if self.kind == 'tng':
            a = n // 2
            ok = bool(np.allclose(m, e)) and bool(np.all(vx == s)) and bool(np.all(py == vy)) and len(set(py[:a])) == len(set(py[a:])) == 1
            return {'v': [int(py[0]), int(py[a])], 'ok': ok}
        return {'v': [int(py[0])], 'ok': bool(np.allclose(m, e)) and len(set(py)) == 1}


def whole(p):
    import h5py
    try:
        with h5py.File(p, 'r'):
            return True
    except OSError:
        return False


def wget_download(t, e):
    """Download in a process of its own, which the stand-in for wget may end."""
    bin_, ctl = os.path.join(t.base, 'bin'), os.path.join(t.base, 'wget.json')
    if not os.path.exists(bin_):
        os.makedirs(bin_)
        with open(os.path.join(bin_, 'wget'), 'w') as f:
            f.write(WGET)
        os.chmod(os.path.join(bin_, 'wget'), 0o755)
    json.dump({}, open(ctl, 'w'))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(w)
            os.read(r, 1)
            signal.alarm(240)
            os.environ['PATH'] = bin_ + os.pathsep + os.environ['PATH']
            os.environ['DRIVER_WGET'] = ctl
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            t.cat.download(redownload=e['redo'])
            code = 0
        except BaseException:
            pass
        finally:
            os._exit(code)
    os.close(r)
    json.dump({'pid': pid, 'sim': SIM['tng'], 'server': t.server, 'down': list(e['down']), 'kill': not e['flaky'],
               'late': e['partial'], 'calls': 0, 'runaway': False}, open(ctl, 'w'))
    os.close(w)
    _, st = os.waitpid(pid, 0)
    if json.load(open(ctl)).get('runaway') or (os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM):
        e['why'] = 'asks for the same files again and again'
    if st != 0:
        raise RuntimeError('download ended with %d' % st)


class Disk:
    """Has writing the formatted file fail: when it is opened for the
    e['full']-th time (lock), or with the e['full']-th table put into it.
    Whether that ever came is noted as e['full'] being 1 or 0."""
    def __init__(self, e):
        self.e, self.left = e, e['full']

    def tick(self):
        self.left -= 1
        if self.left == 0:
            self.e['full'] = 1
            raise OSError(*((28, 'No space left on device') if self.e['how'] == 'disk' else (11, 'unable to lock file')))

    def __enter__(self):
        import h5py
        self.e['full'] = 0
        if self.left <= 0:
            return
        self.was = was = h5py.File.__init__, h5py.Group.create_dataset

        def init(f, name, mode='r', *a, **k):
            if self.e['how'] == 'lock' and mode in ('a', 'r+') and str(name).endswith('data.hdf5'):
                self.tick()
            return was[0](f, name, mode, *a, **k)

        def create(g, *a, **k):
            if self.e['how'] == 'disk':
                self.tick()
            return was[1](g, *a, **k)
        h5py.File.__init__, h5py.Group.create_dataset = init, create

    def __exit__(self, *a):
        import h5py
        if hasattr(self, 'was'):
            h5py.File.__init__, h5py.Group.create_dataset = self.was


def perform(t, e):
    SERVER.dir = t.server
    SERVER.fail = {t.fname(s, f) for s in e.get('down', []) for f in (e.get('downf') or range(1, 4))}
    SERVER.partial = e.get('partial', False)
    err = False
    try:
        op = e['op']
        if op == 'open':
            t.open(e['snaps'])
        elif op == 'meta':
            t.cat.download_meta(redownload=e['redo'])
        elif op == 'download':
            if t.kind == 'tng':
                wget_download(t, e)
                return {'err': False}
            kw = {'datafiles': list(e['files'])} if t.kind == 'uchuu' and list(e['files']) != [1, 2, 3] else {}
            t.cat.download(redownload=e['redo'], **kw)
        elif op == 'format':
            with answers(e['answers']), Disk(e):
                t.cat.format(remake=e['remake'], overwrite=e['ow'], basic=e['basic'], realtime_clean_raw=e['clean'],
                             realtime_clean_raw_check=e['check'])
        elif op == 'clean':
            with answers(e['answers']):
                t.cat.clean_raw()
        elif op == 'publish':
            t.publish(e['s'], e['v'])
        elif op == 'lose':
            p = os.path.join(t.path, 'raw', t.fname(e['s'], e['f']))
            if os.path.exists(p):
                os.remove(p)
        elif op == 'alien':
            os.makedirs(os.path.join(t.path, 'raw'), exist_ok=True)
            with open(os.path.join(t.path, 'raw', 'someone.txt'), 'w') as fh:
                fh.write('mine')
        elif op == 'losemeta':
            for x in ('meta.npy', 'meta_snaps.npy'):
                if os.path.exists(os.path.join(t.path, x)):
                    os.remove(os.path.join(t.path, x))
    except MachineryError:
        raise
    except Exception:
        err = True
    return {'err': err}


def run_trace(base, kind, n, ops):
    with quiet():
        t = Dir(base, kind, n)
        ev = []
        for e in ops:
            e = dict(e)
            o = perform(t, e)
            o.update(t.observe())
            e['obs'] = o
            ev.append(e)
    return {'init': {'kind': kind, 'n': n, 'parts': PARTS[kind], 'arch': 'wget' if kind == 'tng' else 'files'}, 'ev': ev}


def dl(redo=False, down=(), files=(1,), partial=False, flaky=False):
    return {'op': 'download', 'redo': redo, 'down': list(down), 'files': list(files), 'partial': partial, 'flaky': flaky}


def fm(remake=False, ow=False, basic=False, clean=False, check=True, answers=(), full=0, how='lock'):
    return {'op': 'format', 'full': full, 'how': how, 'remake': remake, 'ow': ow, 'basic': basic, 'clean': clean, 'check': check, 'answers': list(answers)}


OPEN = [{'op': 'open', 'snaps': [0, 1]}, {'op': 'open', 'snaps': [0]}, {'op': 'open', 'snaps': [1]}]
# the archive that is asked with wget, with two files per snapshot
B = (1, 2)
WMENU = [{'op': 'open', 'snaps': [0, 1]}, {'op': 'open', 'snaps': [1]}, {'op': 'meta', 'redo': False}, dl(files=B), dl(True, files=B),
         dl(down=[1], files=B, partial=True), dl(True, down=[0], files=B, partial=True), dl(down=[0], files=B, flaky=True, partial=True),
         {'op': 'publish', 's': 0, 'v': 2}, {'op': 'lose', 's': 0, 'f': 1}, {'op': 'lose', 's': 0, 'f': 2}, {'op': 'losemeta'}]
MENUS = {
    'D02': OPEN + [{'op': 'meta', 'redo': False}, {'op': 'meta', 'redo': True}, dl(), dl(True), dl(down=[1], partial=True),
                   dl(True, down=[0]), {'op': 'publish', 's': 0, 'v': 2}, {'op': 'lose', 's': 1, 'f': 1},
                   {'op': 'clean', 'answers': ['y']}, {'op': 'losemeta'}],
    'D04': OPEN + [{'op': 'meta', 'redo': False}, dl(), dl(True), {'op': 'publish', 's': 0, 'v': 2}, {'op': 'lose', 's': 1, 'f': 1},
                   fm(), fm(basic=True), fm(ow=True), fm(remake=True), fm(remake=True, basic=True),
                   fm(full=2), fm(ow=True, full=1), fm(ow=True, full=2)],
    'D06': OPEN + [{'op': 'meta', 'redo': False}, dl(), fm(), fm(ow=True, clean=True, check=False), fm(ow=True, clean=True, check=False, full=2), fm(clean=True, answers=['?', 'y']),
                   fm(remake=True, clean=True, answers=['n']), fm(remake=True, clean=True, answers=['yes']),
                   {'op': 'clean', 'answers': ['y']}, {'op': 'clean', 'answers': ['N', 'n']}, {'op': 'clean', 'answers': []},
                   {'op': 'lose', 's': 0, 'f': 1}, {'op': 'alien'}],
}


def history(r, prop, n, parts, length):
    ops = []
    if r.random() < .7:
        ops += [{'op': 'open', 'snaps': list(range(n))}, {'op': 'meta', 'redo': False}]
    w = {'D02': [3, 2, 6, 1, 2, 1, 2, 1, .7], 'D04': [3, 1, 4, 6, .3, 2, 1.5, .3, .5], 'D06': [3, 1, 4, 5, 3, .5, 1, 1, .3]}[prop]
    allf = list(range(1, parts + 1))
    for _ in range(length):
        op = r.choices(['open', 'meta', 'download', 'format', 'clean', 'publish', 'lose', 'alien', 'losemeta'], w)[0]
        if op == 'open':
            ops.append({'op': op, 'snaps': sorted(r.sample(range(n), r.randint(1, n))) if r.random() < .8 else list(range(n))})
        elif op == 'meta':
            ops.append({'op': op, 'redo': r.random() < .4})
        elif op == 'download':
            files = allf if r.random() < .75 else sorted(r.sample(allf, r.randint(1, parts)))
            ops.append(dl(r.random() < .3, [r.randrange(n)] if r.random() < .3 else [], files, r.random() < .6, r.random() < .4))
        elif op == 'format':
            a = [r.choice(['yes', '', 'Y', 'no'])] * r.choice([0, 0, 1, 2]) + r.choice([['y'], ['y'], ['n'], []])
            ops.append(fm(r.random() < .2, r.random() < .4, r.random() < .35,
                          r.random() < {'D02': .1, 'D04': .15, 'D06': .7}[prop], r.random() < .6, a))
            if prop != 'D02' and r.random() < .25:
                how = r.choice(['lock', 'disk'])
                ops[-1].update(how=how, full=r.randint(1, 3) if how == 'lock' else r.choice([1, 2, 3, 6, 9, 12, 17, 25, 40]))
        elif op == 'clean':
            ops.append({'op': op, 'answers': [r.choice(['yes', '', 'Y', 'no'])] * r.choice([0, 0, 1, 2]) + r.choice([['y'], ['y'], ['n'], []])})
        elif op == 'publish':
            ops.append({'op': op, 's': r.randrange(n), 'v': r.randint(1, 3)})
        elif op == 'lose':
            ops.append({'op': op, 's': r.randrange(n), 'f': r.choice(allf)})
        else:
            ops.append({'op': op})
    return ops


def worker_base(ck):
    ident = multiprocessing.current_process()._identity
    return os.path.join(ck.scratch, 'open', 'w%d' % (ident[0] if ident else 0))


def run(ck, prop):
    global SERVER
    SERVER = Server()
    urllib.request.urlretrieve = SERVER
    import requests
    requests.get = tng_api
    ck.setup_code()
    from simim._paths import _SimIMPaths
    import simim.siminterface  # noqa: F401 (import before giving up privileges)
    from simim.siminterface import UniversemachineCatalogs  # noqa: F401
    shared = os.path.join(ck.scratch, 'open')
    os.makedirs(shared)
    os.chmod(shared, 0o777)
    rng = ck.rng
    menu = MENUS[prop]
    mf = os.path.join(ck.scratch, 'menu.json')
    json.dump({'n': 2, 'parts': 1, 'arch': 'files', 'ops': menu}, open(mf, 'w'))
    cfg = ('CONSTANT None = None\nINIT Init\nNEXT Next\nVIEW Vec\nINVARIANT Inv\nPROPERTY StepProp\n'
           'ACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n')
    edges, i0 = ck.model_check('MCDataDir', cfg, env={'MENU': mf}, dump=True)
    walks, cov, tot = cover_walks(edges, i0, 25, rng, limit=2000 if ck.thorough else 120)
    ck.extra['model_transitions_taken_on_code'] = [cov, tot]

    if prop == 'D02':
        json.dump({'n': 2, 'parts': 2, 'arch': 'wget', 'ops': WMENU}, open(mf, 'w'))
        wedges, w0 = ck.model_check('MCDataDir', cfg, env={'MENU': mf}, dump=True)
        wwalks, cov, tot = cover_walks(wedges, w0, 25, rng, limit=800 if ck.thorough else 40)
        ck.extra['model_transitions_taken_on_code_wget'] = [cov, tot]

    def replay(job):
        kind, w = job
        drop_privileges()
        ops = [(WMENU if kind == 'tng' and prop == 'D02' else menu)[o - 1] for o in w]
        if kind in ('uchuu', 'tng'):
            ops = [dict(e, files=list(range(1, PARTS[kind] + 1))) if e['op'] == 'download' else e for e in ops]
        return run_trace(worker_base(ck), kind, 2, ops)
    kinds = ['bin', 'ascii', 'uchuu', 'tng'] if prop != 'D02' else ['bin', 'uchuu']
    jobs = []
    for k, w in enumerate(walks):
        kind = kinds[k % len(kinds)]
        if kind == 'ascii' and any(menu[o - 1].get('down') for o in w):
            kind = 'bin'
        jobs.append((kind, w))
    if prop == 'D02':
        jobs += [('tng', w) for w in wwalks]
    traces = ck.parallel(replay, jobs)
    cst = 'CONSTANT None = None\n'
    ck.validate('TraceDataDir', traces, cst, 'walk:', chunk=100)

    def hist(job):
        seed, kind = job
        drop_privileges()
        r = random.Random(seed)
        n = 3 if kind == 'ascii' else r.choice([1, 2, 3, 4])
        ops = history(r, prop, n, PARTS[kind], r.choice([8, 14, 20]))
        for e in ops:
            if e['op'] == 'download' and kind == 'ascii':
                e['down'] = []
            elif e['op'] == 'download' and kind == 'tng':
                e['files'] = [1, 2]
        return run_trace(worker_base(ck), kind, n, ops)
    jobs = [('%s-%d-%d' % (prop, ck.seed, k), rng.choice(['bin', 'bin', 'ascii', 'uchuu', 'uchuu', 'tng', 'tng']))
            for k in range(1800 if ck.thorough else 160)]
    traces = ck.parallel(hist, jobs)
    ck.validate('TraceDataDir', traces, cst, 'history:', chunk=100)
    ck.assumptions += ['the network is a local folder behind urllib.request.urlretrieve, requests.get and a stand-in for wget, '
                       'which can break off transfers (wget also: end the program)',
                       'failures are missing raw files, broken transfers, and a formatted file which cannot be opened or written to', 'up to 4 snapshots of up to 5 halos']
