#!/usr/bin/env python3
"""mutate.py FILE PROP[,PROP...] [-j N] [-s SECONDS] [-f FUNC] [-k STEP]: mechanical mutants of a python file of the
package, each tried in a scratch copy; those that no check sees are listed (for development).

mutate.py --run REPO SECONDS PROP...: run cases until the first violation.
"""
import ast
import copy
import os
import subprocess
import sys
import tempfile
import shutil
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = {
    'plot', '__str__', '__repr__', 'imshow', 'ds9', 'imsave', 'plot_tod', 'create_circle', 'html', '_repr_html_',
    '__dir__', '__getattr__', 'info', '__del__',
}


def run(repo, seconds, props):
    sys.path.insert(0, ROOT)
    from sim import core

    for prop in props:
        mod = core.load(prop)
        ns = core.boot(mod)
        t = time.time()
        i = 0
        while time.time() - t < seconds:
            case = core.make_case(mod, 1, i, 'quick')
            i += 1
            try:
                v, info = core.run_case(mod, case, ns)
            except Exception as e:
                print(f'HARNESS {prop} case {i}: {type(e).__name__}: {e}'.replace('\n', ' ')[:300])
                return
            if v:
                print(f'KILLED {prop} case {i}: {v.cls}: {v.msg}'.replace('\n', ' ')[:200])
                return
        print(f'- {prop} {i} cases')
        if len(props) > 1:
            # one process per property
            sys.stdout.flush()
    print('SURVIVED')


class Mutants(ast.NodeVisitor):
    def __init__(self, tree):
        self.out = []  # (line, function, description, mutator)
        self.stack = []
        self.visit(tree)

    def add(self, node, what, **new):
        self.out.append((node, '.'.join(self.stack), what, new))

    def visit_FunctionDef(self, node):
        if node.name in SKIP:
            return
        self.stack.append(node.name)
        self.generic_body(node)
        self.stack.pop()

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_body(node)
        self.stack.pop()

    def generic_body(self, node):
        for i, s in enumerate(node.body):
            if i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)

    def stmt(self, node):
        if self.stack and not isinstance(self.stack, ast.ClassDef):
            self.out.append((node, '.'.join(self.stack), 'deleted', 'pass'))

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        self.stmt(node)
        self.generic_visit(node)

    def visit_Assign(self, node):
        if isinstance(node.targets[0], (ast.Attribute, ast.Subscript)) or isinstance(node.value, ast.Call):
            self.stmt(node)
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.stmt(node)
        self.generic_visit(node)

    def visit_Raise(self, node):
        self.stmt(node)

    def visit_Continue(self, node):
        self.stmt(node)

    def visit_Break(self, node):
        self.stmt(node)

    def visit_If(self, node):
        self.add(node, 'if True', test=ast.Constant(True))
        self.add(node, 'if False', test=ast.Constant(False))
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.add(node, 'ifexp True', test=ast.Constant(True))
        self.add(node, 'ifexp False', test=ast.Constant(False))
        self.generic_visit(node)

    def visit_Compare(self, node):
        m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
             ast.In: ast.NotIn, ast.NotIn: ast.In}
        for i, o in enumerate(node.ops):
            if type(o) in m:
                ops = list(node.ops)
                ops[i] = m[type(o)]()
                self.add(node, f'{type(o).__name__}->{type(ops[i]).__name__}', ops=ops)
        self.generic_visit(node)

    def visit_BinOp(self, node):
        m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult,
             ast.Mod: ast.Mult, ast.Pow: ast.Mult}
        if type(node.op) in m and not isinstance(node.left, (ast.Constant, ast.JoinedStr)) | (
            isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)
        ):
            self.add(node, f'{type(node.op).__name__}', op=m[type(node.op)]())
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        self.add(node, 'and/or', op=ast.Or() if isinstance(node.op, ast.And) else ast.And())
        for i in range(len(node.values)):
            self.add(node, f'operand {i} dropped', values=[v for j, v in enumerate(node.values) if j != i] * (
                2 if len(node.values) == 2 else 1))
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.USub):
            self.add(node, 'minus', op=ast.UAdd())
        elif isinstance(node.op, ast.Invert):
            self.add(node, 'invert', op=ast.UAdd())
        self.generic_visit(node)

    def visit_Constant(self, node):
        if isinstance(node.value, bool):
            self.add(node, f'{node.value}', value=not node.value)
        elif isinstance(node.value, int):
            self.add(node, f'{node.value}+1', value=node.value + 1)
        elif isinstance(node.value, float):
            self.add(node, f'{node.value}*2', value=node.value * 2 + 1)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ('warn', 'strenum', 'strplural', 'print'):
            return
        for i, k in enumerate(node.keywords):
            self.add(node, f'keyword {k.arg} dropped', keywords=node.keywords[:i] + node.keywords[i + 1:])
        if isinstance(node.func, ast.Attribute) and node.func.attr in ('copy', 'astype', 'ravel', 'reshape', 'view', 'lower',
                                                                       'strip', 'item', 'tounit', 'reshape'):
            self.out.append((node, '.'.join(self.stack), f'{node.func.attr} dropped', node.func.value))
        elif len(node.args) == 1 and isinstance(node.func, (ast.Attribute, ast.Name)):
            n = node.func.attr if isinstance(node.func, ast.Attribute) else node.func.id
            if n in ('asarray', 'array', 'abs', 'tuple', 'list', 'int', 'float', 'sorted', 'atleast_1d', 'ascontiguousarray',
                     'asanyarray', 'sqrt', 'max', 'min', 'radians', 'degrees', 'any', 'all', 'bool', 'copy'):
                self.out.append((node, '.'.join(self.stack), f'{n} dropped', node.args[0]))
        self.generic_visit(node)

    def visit_Return(self, node):
        self.generic_visit(node)

    def visit_JoinedStr(self, node):
        return

    def visit_arguments(self, node):
        return


def sources(text, func=None):
    tree = ast.parse(text)
    m = Mutants(tree)
    for node, where, what, new in m.out:
        if func and func not in where:
            continue
        if isinstance(new, dict):
            saved = {k: getattr(node, k) for k in new}
            for k, v in new.items():
                setattr(node, k, v)
            try:
                src = ast.unparse(tree)
            finally:
                for k, v in saved.items():
                    setattr(node, k, v)
        else:
            d, cls = dict(node.__dict__), type(node)
            rep = ast.Pass() if new == 'pass' else new
            loc = (node.lineno, node.col_offset)
            try:
                node.__class__ = type(rep)
                dd = dict(rep.__dict__)
                node.__dict__.clear()
                node.__dict__.update(dd)
                node.lineno, node.col_offset = loc
                src = ast.unparse(tree)
            finally:
                node.__class__ = cls
                node.__dict__.clear()
                node.__dict__.update(d)
        yield node.lineno, where, what, src


def main():
    from concurrent.futures import ThreadPoolExecutor

    args = sys.argv[1:]

    def opt(name, default):
        if name in args:
            i = args.index(name)
            v = args[i + 1]
            del args[i:i + 2]
            return v
        return default

    again, killed = opt('-r', None), set()
    if again:
        # those which were not killed by a previous run
        killed = {l.split(' ## ')[0].split(' ', 1)[1].strip() for l in open(again) if l.startswith('KILLED')}
    jobs, seconds, func, step = int(opt('-j', 8)), opt('-s', '20'), opt('-f', None), int(opt('-k', 1))
    file, props = args[0], args[1].split(',')
    base = os.environ.get('BASE_REPO', '/repo')
    text = open(f'{base}/{file}').read()
    tmp = tempfile.mkdtemp(prefix='mutate-')
    env = dict(os.environ, PATH='/opt/venv/bin:' + os.environ['PATH'], SETUPTOOLS_SCM_PRETEND_VERSION='2.0.0',
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    lines = text.splitlines()
    free = []
    for k in range(jobs):
        r = f'{tmp}/{k}'
        os.makedirs(r)
        shutil.copytree(f'{base}/src', f'{r}/src')
        shutil.copytree(f'{base}/tools', f'{r}/tools')
        for f in os.listdir(base):
            if os.path.isfile(f'{base}/{f}'):
                shutil.copy(f'{base}/{f}', r)
        free.append(r)

    def one(m):
        lineno, where, what, src = m
        name = f'{lineno} {where} [{what}] {lines[lineno - 1].strip()[:90]}'
        if name in killed:
            return 'KILLED'
        r = free.pop()
        try:
            open(f'{r}/{file}', 'w').write(src)
            scratch = tempfile.mkdtemp(dir=tmp)
            res = []
            for p in props:
                try:
                    o = subprocess.run(
                        ['/opt/venv/bin/python', __file__, '--run', r, seconds, p],
                        env=dict(env, VERIF_REPO=r, VERIF_SCRATCH=scratch, TMPDIR=scratch), cwd=ROOT, capture_output=True,
                        text=True, timeout=float(seconds) * 2 + 60)
                    res.append((o.stdout.strip().splitlines() or [''])[-1] or 'CRASH ' + o.stderr.strip()[-200:].replace('\n', ' '))
                except subprocess.TimeoutExpired:
                    res.append(f'TIMEOUT {p}')
                if res[-1] != 'SURVIVED':
                    break
            shutil.rmtree(scratch, ignore_errors=True)
        finally:
            open(f'{r}/{file}', 'w').write(text)
            free.append(r)
        print(f'{res[-1].split()[0]} {name}  ## {res[-1]}', flush=True)
        return res[-1].split()[0]

    try:
        with ThreadPoolExecutor(jobs) as ex:
            out = list(ex.map(one, list(sources(text, func))[::step]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print({k: out.count(k) for k in set(out)})


if __name__ == '__main__':
    if sys.argv[1] == '--run':
        run(sys.argv[2], float(sys.argv[3]), sys.argv[4:])
    else:
        main()
