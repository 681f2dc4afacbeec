"""Driver for the data folders and registries (spec/Paths.tla)."""
import json
import os
import random
import shutil

from core import quiet, answers, cover_walks

KINDS = ('sims', 'lcs', 'props')
NAMES = {'sims': ['_testbox', 'TNG100-1'], 'lcs': ['_testbox', 'TNG100-1'], 'props': ['behroozi13', 'x']}


class World:
    def __init__(self, ck, short):
        self.base = os.path.join(ck.scratch, 'w')
        if os.path.exists(self.base):
            shutil.rmtree(self.base)
        self.dirs = [self.base + '/r1', self.base + '/r two', self.base + '/data', self.base + '/my data/here']
        for d in self.dirs + [self.base + '/home']:
            os.makedirs(d)
        self.dirs.append(self.base + '/home')
        os.environ['HOME'] = self.base + '/home'
        os.chdir(self.base)
        from simim._paths import _SimIMPaths
        self.cls = _SimIMPaths
        f = str(_SimIMPaths().root_file)
        self.rootfile = f
        if os.path.exists(f):
            os.remove(f)
        self.cur = _SimIMPaths()

    def show(self, p):
        o = {'known': p.root is not None, 'root': str(p.root) if p.root is not None else ''}
        for k in KINDS:
            o[k] = [{'n': n, 'd': d} for n, d in sorted(getattr(p, k).items())]
        return o

    def perform(self, e):
        import simim
        o = {'err': False, 'path': ''}
        try:
            if e['op'] == 'setup':
                typed = [] if e['typed'] is None else [e['typed']]
                with answers(typed + list(e['answers'])), quiet():
                    simim.setupsimim()
            elif e['op'] == 'again':
                with answers(e['answers']), quiet():
                    self.cur._setuppath(e['typed'], confirm_with_user=e['check'])
            elif e['op'] == 'fresh':
                self.cur = self.cls()
            elif e['op'] == 'new':
                f = {'sims': self.cur._newsimpath, 'lcs': self.cur._newlcpath, 'props': self.cur._newproppath}[e['kind']]
                with answers(([e['typed']] if e['path'] == '' else []) + list(e['answers']) if not e.get('late') else
                             list(e['answers']) + [e['typed']]), quiet():
                    f(e['name'], new_path=e['path'], checkoverwrite=e['check'])
            elif e['op'] == 'cat':
                from simim.siminterface import UniversemachineCatalogs
                with answers(e['answers']), quiet():
                    c = UniversemachineCatalogs(e['name'], path=e['path'], updatepath=e['update'])
                o['path'] = str(c.path)
            elif e['op'] == 'cut':
                open(self.rootfile, 'w').close()
        except Exception:
            o['err'] = True
        o['cur'] = self.show(self.cur)
        o['disk'] = self.show(self.cls())
        return o

    def folders(self):
        ext = ['/simim_resources/simulations', '/simim_resources/lightcones', '/simim_resources/galprops']
        res = list(self.dirs)
        for r in self.dirs[:2] + [self.base + '/home']:
            for x, k in zip(ext, KINDS):
                res.append(r + x)
                res += [r + x + '/' + n for n in NAMES[k]]
        return res


def ops_for(w):
    b = w.base

    def setup(typed, ans):
        raw = b + '/home' if typed in ('', '~') else typed
        return {'op': 'setup', 'typed': typed, 'raw': raw, 'canon': os.path.abspath(os.path.join(b, raw)), 'answers': ans}

    def again(typed, ans, check=True):
        return {**setup(typed, ans), 'op': 'again', 'check': check}

    def new(kind, name, path, ans=(), check=True):
        return {'op': 'new', 'kind': kind, 'name': name, 'path': path, 'typed': '', 'check': check, 'answers': list(ans),
                'canon': os.path.abspath(os.path.join(b, path))}

    def cat(path, ans=(), update=True):
        return {'op': 'cat', 'name': '_testbox', 'path': path, 'update': update, 'answers': list(ans),
                'canon': os.path.abspath(os.path.join(b, path))}
    return setup, again, new, cat


def run(ck, prop):
    ck.setup_code(root=False)
    rng = ck.rng
    w = World(ck, True)
    b = w.base
    setup, again, new, cat = ops_for(w)
    menu = [setup(b + '/r1', ['y']), setup(b + '/r two', ['y', 'y']), setup(b + '/r two', ['?', 'n', 'n']),
            setup(b + '/r1', ['n', 'y']), again(b + '/r1', ['y'], False), again(b + '/r two', ['y', 'n']), {'op': 'fresh'}, {'op': 'cut'},
            new('sims', '_testbox', 'auto', ['y']), new('sims', '_testbox', b + '/my data/here', ['n', 'y']),
            new('sims', '_testbox', b + '/data', [], False),
            cat('auto'), cat('my data/here', ['y']), cat(b + '/data', [], False)]
    mf = os.path.join(ck.scratch, 'menu.json')
    json.dump({'dirs': w.dirs, 'ops': menu}, open(mf, 'w'))
    cst = 'CONSTANTS None = None\n Empty = Empty\n'
    edges, i0 = ck.model_check('MCPaths', cst + 'INIT Init\nNEXT Next\nVIEW Vec\nINVARIANT Inv\nPROPERTY StepProp\n'
                               'ACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n', env={'MENU': mf}, dump=True)
    walks, cov, tot = cover_walks(edges, i0, 25, rng, limit=1500 if ck.thorough else 90)
    ck.extra['model_transitions_taken_on_code'] = [cov, tot]

    def trace(ops):
        w = World(ck, False)
        fl = w.folders()
        ev = []
        for e in ops:
            e = dict(e)
            o = w.perform(e)
            o['dirs'] = [{'d': d, 'there': os.path.isdir(d)} for d in fl]
            e['obs'] = o
            ev.append(e)
        return {'init': {'dirs': w.dirs}, 'ev': ev}
    traces = [trace([menu[o - 1] for o in wk]) for wk in walks]
    ck.validate('TracePaths', traces, cst, 'walk:', chunk=120)

    def history(r):
        ops = []
        for _ in range(r.choice([6, 12])):
            a = [r.choice(['yes', '', 'Y', 'no'])] * r.choice([0, 0, 0, 1, 2]) + r.choice([['y'], ['y'], ['n'], []])
            a2 = a + [r.choice(['', 'N'])] * r.choice([0, 0, 1]) + r.choice([['y'], ['y'], ['n'], []])
            op = r.choices(['setup', 'fresh', 'new', 'cat', 'cut', 'again'], [4, 2, 6, 3, .4, 2])[0]
            if op == 'setup':
                ops.append(setup(r.choice(['', '', b + '/r1', b + '/r two', b + '/r1/', 'r1', './r two', b + '/none', b + '/data']), a2))
            elif op == 'again':
                ops.append(again(r.choice(['~', b + '/r1', b + '/r two', b + '/r1/', 'r1', './r two', b + '/none', b + '/data']), a2, r.random() < .6))
            elif op == 'new':
                k = r.choice(KINDS)
                p = r.choice(['auto', 'auto', b + '/data', b + '/my data/here', 'data', './my data/', b + '/not there'])
                ops.append(new(k, r.choice(NAMES[k]), p, a, r.random() < .7))
            elif op == 'cat':
                ops.append(cat(r.choice(['auto', 'auto', b + '/data', 'my data/here', b + '/none', './data/']), a, r.random() < .7))
            else:
                ops.append({'op': op})
        return ops
    traces = [trace(history(random.Random('D01-%d-%d' % (ck.seed, k)))) for k in range(1500 if ck.thorough else 150)]
    ck.validate('TracePaths', traces, cst, 'history:', chunk=120)
    ck.assumptions += ['folder names with single inner spaces; registered names without spaces']
