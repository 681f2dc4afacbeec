"""Shared machinery of the checks: scratch copy of the code under test, TLC
runs, trace validation, evidence and verdicts.

Every check
  1. copies /repo/simim into a scratch directory and imports it from there
     (nothing is ever written in /repo),
  2. model-checks the TLA+ specification (TLC, exhaustive, small constants),
  3. executes operation sequences - walks through the state graph TLC dumped,
     and seeded random histories - on the real code, recording after every
     step the state the public interface shows,
  4. has TLC validate the recorded traces against the same specification.
"""
import hashlib
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIMIM_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.rng = random.Random('%s-%s' % (prop, seed))
        self.scratch = tempfile.mkdtemp(prefix='simimv_')
        os.chmod(self.scratch, 0o755)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.assumptions = []
        self.thorough = tier == 'thorough'
        self.actions = {}

    # ---------------------------------------------------------------- setup
    def setup_code(self, root=True):
        """Import simim from a scratch copy of the repository's working tree."""
        pkg = os.path.join(self.scratch, 'pkg')
        shutil.copytree(os.path.join(REPO, 'simim'), os.path.join(pkg, 'simim'),
                        ignore=shutil.ignore_patterns('__pycache__', 'rootpath.txt'))
        os.environ['MPLCONFIGDIR'] = os.path.join(self.scratch, 'mpl')
        os.environ['MPLBACKEND'] = 'Agg'
        os.environ['HOME'] = os.path.join(self.scratch, 'home')
        os.makedirs(os.environ['HOME'])
        os.makedirs(os.environ['MPLCONFIGDIR'])
        sys.dont_write_bytecode = True
        sys.path.insert(0, pkg)
        work = os.path.join(self.scratch, 'work')
        os.makedirs(work)
        os.chdir(work)
        warnings.simplefilter('ignore')
        import numpy as np
        np.seterr(all='ignore')
        import simim
        if not os.path.abspath(simim.__file__).startswith(pkg):
            raise MachineryError('imported the wrong simim: %s' % simim.__file__)
        self.pkg = pkg
        if root:
            self.root = os.path.join(self.scratch, 'root')
            os.makedirs(self.root)
            with answers([self.root, 'y']), quiet():
                simim.setupsimim()
        return simim

    # ------------------------------------------------------------------ TLC
    def run_tlc(self, module, cfg, env=None, workers='auto', extra=(), timeout=800, heap='4g'):
        """Run TLC on SPEC/module.tla with the given configuration text."""
        tag = hashlib.md5((module + cfg + repr(sorted((env or {}).items()))).encode()).hexdigest()[:8]
        d = os.path.join(self.scratch, 'tlc_%s_%s_%d' % (module, tag, random.randrange(10**9)))
        os.makedirs(d)
        cfgf = os.path.join(d, 'model.cfg')
        with open(cfgf, 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        cmd = ['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=1' if not self.thorough else '-XX:+UseParallelGC',
               '-cp', JARS + ':' + SPEC, 'tlc2.TLC', '-config', cfgf, '-metadir', os.path.join(d, 'st'),
               '-noGenerateSpecTE', '-workers', str(workers), *extra, os.path.join(SPEC, module + '.tla')]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on %s' % module)
        out = '\n'.join(l for l in p.stdout.split('\n') if not l.startswith(('Parsing file', 'Semantic processing')))
        shutil.rmtree(d, ignore_errors=True)
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states', out)
        gen, dist = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
        return out, gen, dist, p.returncode

    def model_check(self, module, cfg, env=None, dump=False, name=None, timeout=800, heap='6g'):
        """Exhaustive check of the specification itself. With dump=True the
        specification prints its labelled transitions (<<"E", from, op, to>>),
        which are returned."""
        out, gen, dist, rc = self.run_tlc(module, cfg, env=env, workers=1 if dump else 'auto', timeout=timeout, heap=heap)
        if rc != 0 or 'No error has been found' not in out:
            # the specification is ours: its own failure is a machinery failure
            raise MachineryError('TLC rejects the specification %s:\n%s' % (module, out[-4000:]))
        self.states += dist
        self.transitions += gen
        self.extra.setdefault('model_runs', []).append(
            {'module': module, 'states_generated': gen, 'distinct_states': dist})
        if dump:
            edges = []
            init = None
            for a, op, b in re.findall(r'<<"E", (-?\d+), (\d+), (-?\d+)>>', out):
                edges.append((int(a), int(op), int(b)))
            mi = re.search(r'<<"I", (-?\d+)>>', out)
            init = int(mi.group(1)) if mi else (edges[0][0] if edges else None)
            return edges, init
        return None

    def eval_tlc(self, module, cfg, env=None):
        """Run TLC for the values a specification prints (<<"J", "json">>)."""
        out, gen, dist, rc = self.run_tlc(module, cfg, env=env, workers=1)
        res = []
        for s in re.findall(r'<<"J", "(.*)">>', out):
            res.append(json.loads(s.replace('\\"', '"').replace('\\\\', '\\')))
        if rc != 0:
            raise MachineryError('TLC failed on %s:\n%s' % (module, out[-4000:]))
        return res

    def validate(self, module, traces, consts='', what='', chunk=400, sample=2):
        """TLC decides for each recorded trace whether it is a behaviour of the
        specification. A rejected trace names the failing clauses."""
        if not traces:
            raise MachineryError('no traces for ' + module)
        bads = []
        jobs = [traces[i:i + chunk] for i in range(0, len(traces), chunk)]
        import concurrent.futures as cf

        def job(k):
            part, lost = list(jobs[k]), []
            while True:
                res, gen, dist, over = once(k, part)
                if over is None:
                    return res + lost, gen, dist
                # an observation so far off that TLC's integers do not hold it
                i, step = over
                step = max(0, min(step, len(part[i]['ev']) - 1))
                lost.append((k * chunk + i, step, ('the values observed are out of all bounds',)))
                part[i] = dict(part[i], ev=part[i]['ev'][:step])

        def once(k, part):
            f = os.path.join(self.scratch, 'trace_%s_%d_%d.json' % (module, k, random.randrange(10**9)))
            with open(f, 'w') as fh:
                json.dump(part, fh)
            cfg = 'INIT TraceInit\nNEXT TraceNext\nVIEW TraceView\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n' + consts
            out, gen, dist, rc = self.run_tlc(module, cfg, env={'TRACE': f}, workers=2 if len(jobs) > 1 else 4)
            over = re.search(r'Overflow when computing (-?\d+)[-+*]+(-?\d+)', out)
            at = re.findall(r'^/\\ l = (\d+)', out, re.M), re.findall(r'^/\\ tid = (\d+)', out, re.M)
            if over and max(abs(int(x)) for x in over.groups()) >= 2**29 and at[0] and at[1]:
                return [], 0, 0, (int(at[1][-1]) - 1, int(at[0][-1]) - 1)
            if rc != 0 or 'No error has been found' not in out:
                raise MachineryError('trace validation failed to run (%s):\n%s\n%s' % (module, out[:3000], out[-3000:]))
            res = []
            for m in re.findall(r'"BAD\|(\d+)\|(\d+)\|\{(.*)\}"', out):
                res.append((k * chunk + int(m[0]) - 1, int(m[1]) - 1, re.findall(r'\\"(.*?)\\"', m[2])))
            res = sorted(set((a, b, tuple(c)) for a, b, c in res))
            badlens = {a - k * chunk: b + 2 for a, b, c in res}
            expect = sum(badlens.get(i, len(t['ev']) + 1) for i, t in enumerate(part))
            if dist != expect:
                raise MachineryError('trace validation of %s visited %d states, expected %d\n%s' % (module, dist, expect, out[-3000:]))
            os.remove(f)
            return res, gen, dist, None

        with cf.ThreadPoolExecutor(max_workers=4) as ex:
            for res, gen, dist in ex.map(job, range(len(jobs))):
                bads += res
                self.states += dist
                self.transitions += gen
        self.traces += len(traces)
        self.events += sum(len(t['ev']) for t in traces)
        for t in traces:
            for e in t['ev']:
                if 'op' in e:
                    k = what + e['op']
                    self.actions[k] = self.actions.get(k, 0) + 1
        for t in traces[:sample]:
            if len(self.samples) < 6:
                self.samples.append(_shorten(t))
        for ti, step, clauses in bads:
            ev = traces[ti]['ev'][step] if step < len(traces[ti]['ev']) else None
            self.violation({'spec': module, 'what': what, 'clauses': list(clauses), 'step': step + 1,
                            'event': ev, 'trace': traces[ti],
                            'finding': finding_of(traces[ti], clauses)})
        return bads

    # -------------------------------------------------------------- verdicts
    def violation(self, info):
        self.violations.append(info)

    def finish(self):
        known = known_findings(self.prop)
        seen = set()
        real = []
        for v in self.violations:
            k = None
            for f in known:
                if f['match'](v):
                    k = f
                    break
            if k is None:
                real.append(v)
            else:
                seen.add(k['text'])
        for f in known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f['text']))
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'trace_events': self.events, 'actions': self.actions, 'samples': self.samples}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(real)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if real:
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + '.json')
            with open(path, 'w') as f:
                json.dump(real[:20], f, indent=1, default=str)
            for v in real[:4]:
                print('  violated: spec=%s %s clauses=%s step=%s %s' % (
                    v.get('spec'), v.get('what', ''), v.get('clauses'), v.get('step'),
                    str(_shorten(v.get('event'), 500))[:500]))
                if v.get('error'):
                    print(v['error'])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('OK property=%s tier=%s states=%d traces=%d events=%d wall=%.1fs' % (
            self.prop, self.tier, self.states, self.traces, self.events, time.time() - self.t0))
        return 0

    def cleanup(self):
        os.chdir('/')
        shutil.rmtree(self.scratch, ignore_errors=True)

    # --------------------------------------------------------------- workers
    def parallel(self, fn, items, procs=8):
        """Map fn over items in forked workers; exceptions raised from inside
        the code under test become violations."""
        items = list(items)
        if not items:
            return []
        n = min(procs, len(items))
        if n <= 1:
            return [_guard(fn, it) for it in items]
        ctx = multiprocessing.get_context('fork')
        global _FN
        _FN = fn
        chunks = max(1, len(items) // (n * 4))
        with ctx.Pool(n) as pool:
            res = pool.map(_call, items, chunksize=chunks)
        out = []
        for tag, val in res:
            if tag == 'ok':
                out.append(val)
            elif tag == 'code':
                self.violation({'spec': 'driver', 'what': 'the code raised an error where the specification has none',
                                'clauses': ['unexpected error'], 'step': None, 'event': val[0], 'error': val[1]})
            else:
                raise MachineryError('driver failed:\n' + val[1])
        return out


def finding_of(trace, clauses):
    """The known finding a trace was made to show, if it shows that and no more."""
    f = trace.get('finding')
    return f['key'] if f and set(clauses) <= set(f['clauses']) else None


_FN = None


def _call(it):
    global _FN
    try:
        return ('ok', _FN(it))
    except Exception as ex:
        txt = traceback.format_exc()
        # the drivers run clean on code that behaves: what breaks them is what
        # the code did, unless the sandbox itself gives out
        tag = 'mach' if isinstance(ex, (MachineryError, MemoryError)) or getattr(ex, 'errno', None) in (28, 12, 24) else 'code'
        return (tag, (_shorten(it, 2000), txt))


def _guard(fn, it):
    return fn(it)


def from_code(ex):
    """Did this exception pass through the code under test?"""
    return any('/pkg/simim/' in f.filename for f in traceback.extract_tb(ex.__traceback__))


def _shorten(x, n=3000):
    s = json.dumps(x, default=str)
    if len(s) <= n:
        return json.loads(s)
    return s[:n] + '...'


class answers:
    """Scripted replies to input()."""

    def __init__(self, replies):
        self.replies = list(replies)
        self.used = 0

    def __call__(self, prompt=''):
        if self.used >= len(self.replies):
            raise EOFError('no reply left')
        self.used += 1
        return self.replies[self.used - 1]

    def __enter__(self):
        import builtins
        self.old = builtins.input
        builtins.input = self
        return self

    def __exit__(self, *a):
        import builtins
        builtins.input = self.old


class quiet:
    """Nothing the code prints, here or through a shell, gets out."""
    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.old = sys.stdout
        self.fds = [os.dup(1), os.dup(2)]
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        os.close(null)
        sys.stdout = open(os.devnull, 'w')
        return self

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.old
        for k, fd in enumerate(self.fds):
            os.dup2(fd, k + 1)
            os.close(fd)


def known_findings(prop):
    """Open findings for this property (KNOWN_FINDINGS.txt, lines starting open:)."""
    res = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if not os.path.exists(path):
        return res
    for line in open(path):
        m = re.match(r'open: property=(\S+) key=(\S+) (.*)', line.strip())
        if not m or m.group(1) != prop:
            continue
        res.append({'text': m.group(3), 'match': lambda v, k=m.group(2): v.get('finding') == k})
    return res


def cover_walks(edges, init, maxlen, rng, limit=None):
    """Operation sequences which, together, take every transition of the state
    graph TLC dumped (or as many as `limit` walks can)."""
    succ = {}
    for a, op, b in edges:
        succ.setdefault(a, {})[op] = b
    todo = {a: set(d) for a, d in succ.items()}
    total = sum(len(v) for v in todo.values())
    # BFS tree for shortest access sequences
    parent = {init: None}
    order = [init]
    for a in order:
        for op, b in sorted(succ.get(a, {}).items()):
            if b not in parent:
                parent[b] = (a, op)
                order.append(b)

    def access(a):
        seq = []
        while parent[a] is not None:
            a, op = parent[a][0], parent[a][1]
            seq.append(op)
        return seq[::-1]
    walks = []
    covered = 0
    starts = list(order)
    if limit is not None:
        rng.shuffle(starts)
    for st in starts:
        while todo.get(st):
            if limit is not None and len(walks) >= limit:
                return walks, covered, total
            w = access(st)
            cur = init
            for op in w:
                if op in todo.get(cur, ()):
                    todo[cur].discard(op)
                    covered += 1
                cur = succ[cur][op]
            first = True
            while first or len(w) < maxlen:
                first = False
                if todo.get(cur):
                    op = rng.choice(sorted(todo[cur]))
                    todo[cur].discard(op)
                    covered += 1
                else:
                    # a neighbour with work left
                    nxt = [o for o, b in succ.get(cur, {}).items() if b != cur and todo.get(b)]
                    if not nxt:
                        break
                    op = rng.choice(sorted(nxt))
                w.append(op)
                cur = succ[cur][op]
            walks.append(w)
    return walks, covered, total
