"""tools/mutate.py FILE FUNC[,FUNC..] PROP[,PROP..] [N [SEED]]: small changes to the named functions
(all of the file with '*'), each tried alone in a scratch worktree /tmp/mutN against the checks; prints the survivors.
Used to find what the checks do not see; no check uses it."""
import ast
import copy
import os
import random
import subprocess
import sys

REPO = '/repo'
WT = os.environ.get('MUT_WT', '/tmp/mut')


def functions(tree, names):
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef,)) and (names == ['*'] or node.name in names):
            yield node


SWAP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
        ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Pow: [ast.Mult]}


def seg(src, node):
    return ast.get_source_segment(src, node)


def edits(src, tree, names):
    """(start, end, new text, description)"""
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []

    def put(n, text):
        s, e = span(n)
        if b[s:e].decode() != text:
            out.append((s, e, text, '%d: %s -> %s' % (n.lineno, b[s:e].decode()[:70].replace('\n', ' '), text[:70].replace('\n', ' '))))

    def no_doc(f):
        d = ast.get_docstring(f, clean=False)
        return f.body[1:] if d is not None else f.body
    seen = set()
    for f in functions(tree, names):
        for st in no_doc(f):
            for n in ast.walk(st):
                if id(n) in seen:
                    continue
                seen.add(id(n))
                if isinstance(n, ast.Raise) or isinstance(n, ast.JoinedStr):
                    for m in ast.walk(n):
                        seen.add(id(m))
                    continue
                if isinstance(n, ast.Compare) and len(n.ops) == 1:
                    for o in SWAP.get(type(n.ops[0]), []):
                        m = copy.deepcopy(n)
                        m.ops = [o()]
                        put(n, ast.unparse(m))
                elif isinstance(n, ast.BinOp):
                    for o in BIN.get(type(n.op), []):
                        m = copy.deepcopy(n)
                        m.op = o()
                        put(n, '(' + ast.unparse(m) + ')')
                elif isinstance(n, ast.BoolOp):
                    m = copy.deepcopy(n)
                    m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
                    put(n, '(' + ast.unparse(m) + ')')
                elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                    put(n, '(' + ast.unparse(n.operand) + ')')
                elif isinstance(n, ast.Constant):
                    if isinstance(n.value, bool):
                        put(n, str(not n.value))
                    elif isinstance(n.value, int):
                        put(n, str(n.value + 1))
                        if n.value > 0:
                            put(n, str(n.value - 1))
                    elif isinstance(n.value, float):
                        put(n, repr(n.value * 1.1 + .1))
                elif isinstance(n, ast.If):
                    put(n.test, '(not (' + ast.unparse(n.test) + '))')
                elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                    t = ast.unparse(n)
                    if isinstance(n, ast.Expr) or isinstance(n, ast.AugAssign) or any(isinstance(x, (ast.Attribute, ast.Subscript)) for x in getattr(n, 'targets', [])):
                        if not t.startswith(('print', 'warnings', 'plt.', 'ax.')):
                            put(n, 'pass')
                elif isinstance(n, ast.Call) and n.keywords:
                    for k in range(len(n.keywords)):
                        m = copy.deepcopy(n)
                        del m.keywords[k]
                        put(n, ast.unparse(m))
    return out


def main():
    path, names, props = sys.argv[1], sys.argv[2].split(','), sys.argv[3].split(',')
    num = int(sys.argv[4]) if len(sys.argv) > 4 else 10**6
    seed = int(sys.argv[5]) if len(sys.argv) > 5 else 1
    src = open(os.path.join(REPO, path)).read()
    es = edits(src, ast.parse(src), names)
    random.Random(seed).shuffle(es)
    subprocess.run(['rm', '-rf', WT], check=True)
    subprocess.run('mkdir -p %s && git -C %s archive HEAD | tar -x -C %s' % (WT, REPO, WT), shell=True, check=True)
    tried = killed = 0
    for s, e, text, what in es:
        if tried >= num:
            break
        b = src.encode()
        new = (b[:s] + text.encode() + b[e:]).decode()
        try:
            compile(new, path, 'exec')
        except SyntaxError:
            continue
        open(os.path.join(WT, path), 'w').write(new)
        tried += 1
        verdict = ''
        for p in props:
            env = dict(os.environ, SIMIM_REPO=WT)
            try:
                r = subprocess.run(['./run.sh', p, 'quick'], cwd='/verif', env=env, capture_output=True, text=True, timeout=600)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            if rc == 1:
                verdict = 'killed by ' + p
                break
            verdict += ' %s:%s' % (p, rc)
        killed += rc == 1
        print(('KILLED   ' if rc == 1 else 'SURVIVED ') + what + '   ' + (verdict if rc != 1 else p), flush=True)
    print('tried %d killed %d' % (tried, killed))
    open(os.path.join(WT, path), 'w').write(src)


main()
