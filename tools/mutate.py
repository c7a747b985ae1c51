"""Mutation testing of the checks: which small changes of xylem do they miss?

usage: mutate.py cover          which sub-check executes which lines
       mutate.py profile        which wrappers of functions would have an effect
       mutate.py run OUT [FILE[:A-B]...] [--sample N] [--seed S] [--wrap]
       mutate.py list [FILE...]

Works on copies of /repo below /tmp/mutate. Only a development tool: no check
uses it. Results: one JSON object per mutant, with what killed it if anything.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import time
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = '/tmp/mutate'
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.path.insert(0, HERE)
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
UNWRAP = {'deepcopy', 'copy', 'sorted', 'list', 'dict', 'set', 'tuple', 'reversed', 'str', 'strip',
          'to_str', 'to_bytes', 'lower', 'abspath', 'normpath', 'realpath', 'expanduser',
          'expandvars', 'remove_duplicates', 'sanitize', 'rstrip', 'lstrip', 'bool', 'int',
          'OrderedDict', 'upper', 'join', 'expand_input_path', 'fmt', 'iter'}


def mutants(source):
    """(line, description, new source) of all mutants."""
    tree = ast.parse(source)
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    lines = source.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode('utf-8')) + 1)
    raw = source.encode('utf-8')
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            b = n.body[0] if n.body else None
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                skip.add(b)
                skip.add(b.value)
        # messages are not specified
        if isinstance(n, ast.Raise):
            for c in ast.walk(n):
                if isinstance(c, ast.Constant):
                    skip.add(c)
        if isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', '')) in (
                'info_v', 'debug', 'info', 'warning', 'error', 'raise_from', 'add_argument',
                'format'):
            for c in ast.walk(n):
                if isinstance(c, ast.Constant):
                    skip.add(c)
        if isinstance(n, ast.If) and '__name__' in ast.unparse(n.test):
            for c in ast.walk(n):
                skip.add(c)
        if isinstance(n, ast.Dict):   # command definitions
            keys = [k.value for k in n.keys if isinstance(k, ast.Constant)]
            if 'prepare_arguments' in keys or 'prepare_config' in keys:
                for c in ast.walk(n):
                    skip.add(c)
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg in ('help', 'metavar', 'description'):
                    for c in ast.walk(k):
                        skip.add(c)

    def span(n):
        return (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)

    out = []

    def sub(n, text, what):
        a, b = span(n)
        new = (raw[:a] + text.encode('utf-8') + raw[b:]).decode('utf-8')
        out.append((n.lineno, what, new))

    def un(n):
        return ast.unparse(n).replace('\n', ' ')

    def repl(n, new, what):
        sub(n, '(' + un(new) + ')', what)

    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE],
                   ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt],
                   ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
                   ast.IsNot: [ast.Is]}[type(n.ops[0])]
            for a in alt:
                m = copy.copy(n)
                m.ops = [a()]
                repl(n, m, 'compare %s -> %s' % (un(n), un(m)))
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)) and un(n.comparators[0]) == 'None':
                t = un(n.left)
                sub(n, '(not (%s))' % t if isinstance(n.ops[0], ast.Is) else '(%s)' % t,
                    'truth instead of None: %s' % un(n))
        elif isinstance(n, ast.BoolOp):
            m = copy.copy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            repl(n, m, 'boolop %s -> %s' % (un(n), un(m)))
            for i in range(len(n.values)):
                rest = n.values[:i] + n.values[i + 1:]
                m = rest[0] if len(rest) == 1 else ast.BoolOp(n.op, rest)
                repl(n, m, 'drop operand: %s -> %s' % (un(n), un(m)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            repl(n, n.operand, 'drop not: %s' % un(n))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            t = n.test
            if not (isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not)) and \
                    not (isinstance(t, ast.Compare) and len(t.ops) == 1):
                sub(t, '(not (%s))' % un(t), 'negate %s' % un(t))
            sub(t, '(False)', 'never %s' % un(t))
            if not isinstance(n, ast.While):
                sub(t, '(True)', 'always %s' % un(t))
        elif isinstance(n, ast.comprehension):
            for i, t in enumerate(n.ifs):
                sub(t, '(True)', 'no filter %s' % un(t))
            sub(n.iter, 'reversed(list(%s))' % un(n.iter), 'reversed %s' % un(n.iter))
        elif isinstance(n, ast.For):
            sub(n.iter, 'reversed(list(%s))' % un(n.iter), 'reversed %s' % un(n.iter))
            sub(n.iter, 'list(%s)[1:]' % un(n.iter), 'without first %s' % un(n.iter))
            sub(n.iter, 'list(%s)[:-1]' % un(n.iter), 'without last %s' % un(n.iter))
            sub(n.iter, 'list(%s)[:1]' % un(n.iter), 'only first %s' % un(n.iter))
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(parents.get(n), ast.JoinedStr):
                continue
            if v is True or v is False:
                sub(n, repr(not v), 'constant %r' % v)
            elif isinstance(v, int):
                sub(n, repr(v + 1), 'constant %r -> %r' % (v, v + 1))
            elif isinstance(v, str):
                sub(n, repr(v + 'X'), 'constant %r + X' % v)
                if v:
                    sub(n, "''", 'constant %r -> empty' % v)
        elif isinstance(n, ast.BinOp):
            if isinstance(n.op, ast.Add):
                m = copy.copy(n)
                m.left, m.right = n.right, n.left
                repl(n, m, 'swapped %s' % un(n))
                repl(n, n.left, 'left of %s' % un(n))
                repl(n, n.right, 'right of %s' % un(n))
            elif isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
                pass
            else:
                repl(n, n.left, 'left of %s' % un(n))
        elif isinstance(n, ast.Call):
            name = getattr(n.func, 'id', getattr(n.func, 'attr', ''))
            if name in UNWRAP and len(n.args) == 1 and not n.keywords:
                repl(n, n.args[0], 'unwrap %s' % un(n))
            elif name in UNWRAP and not n.args and not n.keywords and \
                    isinstance(n.func, ast.Attribute):
                repl(n, n.func.value, 'unwrap %s' % un(n))
            if name not in ('info', 'warning', 'error', 'debug', 'info_v', 'add_argument', 'format'):
                for i, k in enumerate(n.keywords):
                    if k.arg in ('help', 'metavar'):
                        continue
                    m = copy.copy(n)
                    m.keywords = n.keywords[:i] + n.keywords[i + 1:]
                    repl(n, m, 'drop %s= of %s' % (k.arg, un(n)))
                if len(n.args) >= 2:
                    m = copy.copy(n)
                    m.args = n.args[:-1]
                    repl(n, m, 'drop last argument of %s' % un(n))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            s = n.slice
            for part in ('lower', 'upper'):
                if getattr(s, part) is not None:
                    m = copy.deepcopy(n)
                    setattr(m.slice, part, None)
                    repl(n, m, 'slice %s -> %s' % (un(n), un(m)))
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            if isinstance(n.type, ast.Tuple):
                for i in range(len(n.type.elts)):
                    m = ast.Tuple(n.type.elts[:i] + n.type.elts[i + 1:], ast.Load())
                    repl(n.type, m, 'except %s -> %s' % (un(n.type), un(m)))
            else:
                sub(n.type, '()', 'no except %s' % un(n.type))
            if un(n.type) != 'Exception':
                sub(n.type, 'Exception', 'except %s -> Exception' % un(n.type))
        elif isinstance(n, ast.Dict) and len(n.keys) and not isinstance(parents.get(n), ast.Expr):
            for i in range(len(n.keys)):
                m = copy.copy(n)
                m.keys = n.keys[:i] + n.keys[i + 1:]
                m.values = n.values[:i] + n.values[i + 1:]
                repl(n, m, 'dict without %s' % un(n.keys[i]))
        elif isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and n.elts and \
                not isinstance(parents.get(n), (ast.ExceptHandler, ast.Subscript)):
            for i in range(len(n.elts)):
                m = copy.copy(n)
                m.elts = n.elts[:i] + n.elts[i + 1:]
                repl(n, m, '%s without %s' % (un(n), un(n.elts[i])))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break,
                          ast.Delete)):
            c = n.value if isinstance(n, ast.Expr) else None
            if isinstance(c, ast.Call) and getattr(
                    c.func, 'id', getattr(c.func, 'attr', '')) in ('info_v', 'debug',
                                                                  'add_argument'):
                continue
            if isinstance(n, ast.Assign) and isinstance(parents.get(n), (ast.Module, ast.ClassDef)):
                continue
            if isinstance(c, (ast.Yield,)):
                continue
            sub(n, 'pass', 'delete %s' % un(n)[:70])
            if isinstance(n, ast.Continue):
                sub(n, 'break', 'continue -> break')
            if isinstance(n, ast.Break):
                sub(n, 'continue', 'break -> continue')
            if isinstance(n, ast.Assign) and not isinstance(n.value, (ast.Constant, ast.Call)) and 0:
                pass
        elif isinstance(n, ast.Return) and n.value is not None:
            if not (isinstance(n.value, ast.Constant) and n.value.value is None):
                sub(n, 'return None', 'return None for %s' % un(n)[:60])
    seen, res = set(), []
    for line, what, new in out:
        if new in seen:
            continue
        seen.add(new)
        try:
            compile(new, 'x', 'exec')
        except (SyntaxError, ValueError):
            continue
        res.append((line, what, new))
    res.sort(key=lambda r: (r[0], r[1]))
    return res


# what a wrapper of a function changes; `first` is 1 for methods
WRAPPERS = {
    'memo of arguments': """
        key = repr((a[first:], sorted(k.items())))
        if key not in state:
            state[key] = f(*a, **k)
        return state[key]""",
    'memo of object and arguments': """
        key = repr((id(a[0]) if first and a else 0, a[first:], sorted(k.items())))
        if key not in state:
            state[key] = f(*a, **k)
            keep.append(a)
        return state[key]""",
    'memo without last argument': """
        key = repr((id(a[0]) if first and a else 0, a[first:-1] if len(a) > first else a[first:]))
        if key not in state:
            state[key] = f(*a, **k)
            keep.append(a)
        return state[key]""",
    'only once per object': """
        key = id(a[0]) if first and a else 0
        if key not in state:
            state[key] = f(*a, **k)
            keep.append(a)
        return state[key]""",
    'remembers failures': """
        key = repr((a[first:], sorted(k.items())))
        if key in state:
            raise state[key]
        try:
            return f(*a, **k)
        except Exception as e:
            state[key] = e
            raise""",
    'sorts list arguments': """
        for x in a[first:]:
            if type(x) is list:
                try:
                    x.sort()
                except TypeError:
                    pass
        return f(*a, **k)""",
    'sorts list arguments afterwards': """
        r = f(*a, **k)
        for x in a[first:]:
            if type(x) is list:
                try:
                    x.sort()
                except TypeError:
                    pass
        return r""",
    'long lists lose the last': """
        r = f(*a, **k)
        return r[:-1] if type(r) in (list, tuple) and len(r) > 4 else r""",
    'large dicts lose the last': """
        r = f(*a, **k)
        if isinstance(r, dict) and len(r) > 4:
            r.pop(list(r)[-1])
        return r""",
    'long text is cut': """
        r = f(*a, **k)
        return r[:150] if type(r) in (str, bytes) else r""",
    'lower case arguments': """
        return f(*[x.lower() if n >= first and type(x) is str else x for n, x in enumerate(a)], **k)""",
    'stripped arguments': """
        return f(*[x.strip() if n >= first and type(x) is str else x for n, x in enumerate(a)], **k)""",
    'stripped result': """
        r = f(*a, **k)
        return r.strip() if type(r) is str else r""",
    'normalized arguments': """
        import unicodedata
        return f(*[unicodedata.normalize('NFKC', x) if n >= first and type(x) is str else x
                   for n, x in enumerate(a)], **k)""",
    'sorted result': """
        r = f(*a, **k)
        if type(r) is list:
            try:
                return sorted(r)
            except TypeError:
                pass
        return r""",
    'result without repetitions': """
        r = f(*a, **k)
        return [x for n, x in enumerate(r) if x not in r[:n]] if type(r) is list else r""",
    'falsy becomes None': """
        return f(*a, **k) or None""",
    'changes in place': """
        r = f(*a, **k)
        for x in a[first:]:
            if type(x) is list and type(r) is list and x is not r:
                x[:] = r
            elif type(x) is dict and type(r) is dict and x is not r:
                x.clear()
                x.update(r)
        return r""",
}
RESULT = ('long', 'large', 'stripped result', 'sorted result', 'result', 'falsy')


def future(source):
    return max([n.end_lineno for n in ast.parse(source).body if isinstance(n, ast.ImportFrom) and
                n.module == '__future__'] or [0])


def functions(source):
    """(node, is it a method, whether it returns something, number of arguments)"""
    tree = ast.parse(source)
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    for n in ast.walk(tree):
        if not isinstance(n, ast.FunctionDef) or n.name.startswith(('__', 'prepare')):
            continue
        inner = [c for c in ast.walk(n) if isinstance(c, (ast.Yield, ast.YieldFrom, ast.Return))]
        if any(isinstance(c, (ast.Yield, ast.YieldFrom)) for c in inner):
            continue
        value = any(isinstance(c, ast.Return) and c.value is not None for c in inner)
        method = isinstance(parents.get(n), ast.ClassDef) and not any(
            getattr(d, 'id', '') == 'staticmethod' for d in n.decorator_list)
        yield n, method, value, len(n.args.args) - method


def wrapped(source, f):
    """(line, description, new source) for functions with a wrapper around them."""
    lines = source.split('\n')
    last = future(source)
    log = os.path.join(BASE, 'profile.txt')
    effects = set(l.rstrip('\n') for l in open(log)) if os.path.exists(log) else None
    res = []
    for n, method, value, args in functions(source):
        for what, body in WRAPPERS.items():
            if not value and (what.startswith(RESULT) or what == 'changes in place'):
                continue
            if args < 1 and ('argument' in what or what == 'changes in place'):
                continue
            if effects is not None and '%s:%s:%d\t%s' % (f, n.name, n.lineno, what) not in effects:
                continue
            text = ['import functools as _ft', 'def _wrapper(first):', '    def w(f):',
                    '        state, keep = {}, []', '        @_ft.wraps(f)',
                    '        def g(*a, **k):'] + [
                        '    ' + l for l in body.strip('\n').split('\n')] + [
                        '        return g', '    return w']
            new = lines[:n.lineno - 1] + [' ' * n.col_offset + '@_wrapper(%d)' % method] + lines[n.lineno - 1:]
            new = new[:last] + text + new[last:]
            line = n.body[1 if len(n.body) > 1 and isinstance(n.body[0], ast.Expr) and isinstance(
                n.body[0].value, ast.Constant) else 0].lineno
            new = '\n'.join(new)
            compile(new, 'x', 'exec')
            res.append((line, '%s: %s' % (n.name, what), new))
    return res


# finds out which of the wrappers would have an effect
PROFILE = """
import functools as _ft, os as _os, unicodedata as _ud
_seen = set()
def _note(name, what):
    if (name, what) not in _seen:
        _seen.add((name, what))
        with open(%(log)r, 'a') as fh:
            fh.write('%%s\\t%%s\\n' %% (name, what))
def _unsorted(x):
    try:
        return type(x) is list and sorted(x) != x
    except TypeError:
        return False
def _same(x, y):
    return type(x) is type(y) and repr(x) == repr(y) and (x is y or not (type(x) in (list, dict) and x))
def _wrapper(first, name):
    def w(f):
        state = [{}, {}, {}, {}, {}]
        @_ft.wraps(f)
        def g(*a, **k):
            s = [x for x in a[first:] if type(x) is str]
            try:
                if any(x != x.lower() for x in s):
                    _note(name, 'lower case arguments')
                if any(x != x.strip() for x in s):
                    _note(name, 'stripped arguments')
                if any(x != _ud.normalize('NFKC', x) for x in s):
                    _note(name, 'normalized arguments')
                if any(_unsorted(x) for x in a[first:]):
                    _note(name, 'sorts list arguments')
                    _note(name, 'sorts list arguments afterwards')
                me = id(a[0]) if first and a else 0
                rest = repr(sorted(k.items()))
                keys = [repr(a[first:]) + rest, repr((me, a[first:])) + rest,
                        repr((me, a[first:-1] if len(a) > first else a[first:])), me]
                before = repr(a[first:])
            except Exception:
                keys = None
            try:
                r = f(*a, **k)
            except Exception:
                if keys:
                    state[4][keys[0]] = 1
                raise
            if keys:
                if keys[0] in state[4]:
                    _note(name, 'remembers failures')
                for n, what in enumerate(['memo of arguments', 'memo of object and arguments',
                                          'memo without last argument', 'only once per object']):
                    if keys[n] in state[n] and (r is None or not _same(r, state[n][keys[n]])):
                        _note(name, what)
                    if len(state[n]) < 2000:
                        state[n].setdefault(keys[n], r)
            if type(r) in (list, tuple) and len(r) > 4:
                _note(name, 'long lists lose the last')
            if isinstance(r, dict) and len(r) > 4:
                _note(name, 'large dicts lose the last')
            if type(r) in (str, bytes) and len(r) > 150:
                _note(name, 'long text is cut')
            if type(r) is str and r != r.strip():
                _note(name, 'stripped result')
            if _unsorted(r):
                _note(name, 'sorted result')
            if type(r) is list and [x for n, x in enumerate(r) if x in r[:n]]:
                _note(name, 'result without repetitions')
            if not r and r is not None:
                _note(name, 'falsy becomes None')
            if type(r) in (list, dict) and any(type(x) is type(r) and x is not r and x != r for x in a[first:]):
                _note(name, 'changes in place')
            return r
        return g
    return w
"""


def profile():
    repo = os.path.join(BASE, 'profile')
    shutil.rmtree(repo, ignore_errors=True)
    shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    log = os.path.join(BASE, 'profile.txt')
    open(log, 'w').close()
    for f in files():
        source = open('/repo/' + f, encoding='utf-8').read()
        lines = source.split('\n')
        todo = sorted(set((n.lineno, n.col_offset, method, n.name) for n, method, _, _ in functions(source)), reverse=True)
        for line, col, method, name in todo:
            lines.insert(line - 1, ' ' * col + '@_wrapper(%d, %r)' % (method, '%s:%s:%d' % (f, name, line)))
        last = future(source)
        lines[last:last] = (PROFILE % dict(log=log)).split('\n')
        with open(os.path.join(repo, f), 'w', encoding='utf-8') as fh:
            fh.write('\n'.join(lines))
    todo = subs()
    lock = threading.Lock()

    def work(k):
        while True:
            with lock:
                if not todo:
                    return
                pid, name, quick, qs = todo.pop(0)
            sc = os.path.join(BASE, 'prof%d' % k)
            os.makedirs(sc, exist_ok=True)
            st = run_sub(pid, name, quick, qs, repo, sc)
            if st != 'ok':
                print(pid, name, st)
            shutil.rmtree(sc)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(repo)


def files():
    res = []
    for d, ds, fs in os.walk('/repo/xylem'):
        ds[:] = sorted(x for x in ds if x not in ('specs', '__pycache__'))
        for f in sorted(fs):
            if f.endswith('.py'):
                res.append(os.path.relpath(os.path.join(d, f), '/repo'))
    return res


def subs():
    code = ('from pbt import env; env.add_tools(); import os, tempfile\n'
            'd = tempfile.mkdtemp(); env.setup_scratch(d)\n'
            'from pbt.worker import load; from pbt.registry import MODULES; import json, sys\n'
            'r = [(p, s.name, s.quick, s.qshards) for p in MODULES for s in load(p).SUBS[p]]\n'
            'import shutil; os.chdir("/"); shutil.rmtree(d)\n'
            'json.dump(r, sys.stdout)')
    return json.loads(subprocess.run([PY, '-W', 'ignore', '-c', code], cwd=HERE, check=True,
                                     stdout=subprocess.PIPE).stdout)


def run_sub(pid, name, quick, qshards, repo, scratch, cov=None, limit=300):
    """'ok', 'violation', 'error' of a sub-check, stopping at the first violating shard."""
    worst = 'ok'
    for shard in range(qshards):
        d = os.path.join(scratch, 'w')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        out = os.path.join(scratch, 'out.json')
        if os.path.exists(out):
            os.unlink(out)
        env = dict(os.environ, XYLEM_REPO=repo, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1')
        if cov:
            env['XYLEM_COV'] = cov
        try:
            subprocess.run([PY, '-W', 'ignore', '-m', 'pbt.worker', pid, name, str(shard), 'quick', '1',
                            d, out, str(max(1, quick // qshards))], cwd=HERE, env=env, timeout=limit,
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return 'timeout'
        st = json.load(open(out))['status'] if os.path.exists(out) else 'error'
        if st == 'violation':
            return st
        if st != 'ok':
            worst = 'error'
    return worst


def cover():
    res = {}
    os.makedirs(BASE, exist_ok=True)
    lock = threading.Lock()
    todo = subs()

    def work(k):
        while True:
            with lock:
                if not todo:
                    return
                pid, name, quick, qs = todo.pop(0)
            sc = os.path.join(BASE, 'cov%d' % k)
            os.makedirs(sc, exist_ok=True)
            cov = os.path.join(sc, 'cov.txt')
            open(cov, 'w').close()
            t = time.time()
            st = run_sub(pid, name, quick, qs, '/repo', sc, cov)
            got = sorted(set(open(cov).read().split('\n')) - {''})
            with lock:
                res['%s/%s' % (pid, name)] = dict(pid=pid, name=name, quick=quick, qshards=qs,
                                                  time=time.time() - t, lines=got, status=st)
            shutil.rmtree(sc)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    json.dump(res, open(os.path.join(BASE, 'cover.json'), 'w'))
    for k, v in sorted(res.items()):
        print('%-30s %-6s %5.1f s %5d lines' % (k, v['status'], v['time'], len(v['lines'])))


def stable(path):
    junit = path + '.xml'
    env = dict(os.environ, PYTHONPATH=path, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               LANG='C.UTF-8')
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-o', 'junit_family=xunit2',
                    '--continue-on-collection-errors', '--junitxml=' + junit, 'test'], cwd=path,
                   env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ok = set()
    for case in ET.parse(junit).iter('testcase'):
        if not [c for c in case if c.tag in ('failure', 'error', 'skipped')]:
            ok.add('%s::%s' % (case.get('classname'), case.get('name')))
    os.unlink(junit)
    return STABLE - ok


def stable_ok(repo):
    return not stable(repo)


def wanted(specs):
    res = []
    for f in files():
        for s in specs or [f]:
            name, _, rng = s.partition(':')
            if f == name or f == 'xylem/' + name:
                a, b = (rng.split('-') + [rng])[:2] if rng else (0, 10 ** 9)
                res.append((f, int(a), int(b)))
    return res


def main():
    args = sys.argv[1:]
    if args[0] == 'cover':
        return cover()
    if args[0] == 'profile':
        return profile()
    sample, seed = None, 1
    if '--sample' in args:
        i = args.index('--sample')
        sample = int(args[i + 1])
        del args[i:i + 2]
    if '--seed' in args:
        i = args.index('--seed')
        seed = int(args[i + 1])
        del args[i:i + 2]
    wrap = '--wrap' in args
    if wrap:
        # functions with changed inputs or outputs, instead of changed expressions
        args.remove('--wrap')
    again = None
    if '--again' in args:
        # only what survived according to that file
        i = args.index('--again')
        again = set((r['file'], r['what']) for r in map(json.loads, open(args[i + 1]))
                    if r['result'] not in ('violation', 'tests'))
        del args[i:i + 2]
    todo = []
    for f, a, b in wanted(args[1:] if args[0] == 'list' else args[2:]):
        source = open('/repo/' + f, encoding='utf-8').read()
        for line, what, new in wrapped(source, f) if wrap else mutants(source):
            if a <= line <= b and (again is None or (f, what) in again):
                todo.append((f, line, what, new))
    if sample and sample < len(todo):
        todo = random.Random(seed).sample(todo, sample)
        todo.sort(key=lambda t: t[:3])
    if args[0] == 'list':
        for f, line, what, new in todo:
            print('%s:%d %s' % (f, line, what))
        print(len(todo))
        return
    cov = json.load(open(os.path.join(BASE, 'cover.json')))
    by_line = {}
    for k, v in cov.items():
        for l in v['lines']:
            by_line.setdefault(l, []).append(k)
    own = dict((k, [l for l in v['lines'] if len(by_line[l]) < 0.9 * len(cov)])
               for k, v in cov.items())
    out = open(args[1], 'a')
    done = set()
    for l in open(args[1]):
        r = json.loads(l)
        done.add((r['file'], r['line'], r['what']))
    todo = [t for t in todo if t[:3] not in done]
    print(len(todo), 'mutants')
    lock = threading.Lock()

    def work(k):
        sc = os.path.join(BASE, 'm%d' % k)
        while True:
            with lock:
                if not todo:
                    return
                f, line, what, new = todo.pop(0)
            repo = os.path.join(sc, 'repo')
            shutil.rmtree(sc, ignore_errors=True)
            shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('.git'))
            with open(os.path.join(repo, f), 'w', encoding='utf-8') as fh:
                fh.write(new)
            r = dict(file=f, line=line, what=what)
            try:
                if not stable_ok(repo):
                    r['result'] = 'tests'
                else:
                    # sub-checks that execute the lines around, the narrowest first
                    near = set()
                    for d in range(0, 3):
                        for s in (line - d, line + d):
                            near.update(by_line.get('%s:%d' % (f, s), ()))
                        if near:
                            break
                    # those that execute most of the neighbourhood and file, the fast ones first
                    rel = {}
                    for kk in near:
                        ls = [int(l.split(':')[1]) for l in own[kk] if l.startswith(f + ':')]
                        rel[kk] = (1 + 5 * sum(abs(l - line) < 12 for l in ls) + len(ls)) / (
                            3 + cov[kk]['time'])
                    order = sorted(near, key=lambda kk: -rel[kk])
                    total = 0
                    for n, kk in enumerate(order):
                        total += cov[kk]['time']
                        if total > 260 and n >= 6:
                            order = order[:n]
                            break
                    r['result'] = 'survived' if order else 'uncovered'
                    r['tried'] = []
                    for kk in order:
                        c = cov[kk]
                        st = run_sub(c['pid'], c['name'], c['quick'], c['qshards'], repo, sc)
                        if st == 'ok':
                            r['tried'].append(kk)
                            continue
                        r['result'] = st
                        r['by'] = kk
                        if st == 'violation':
                            break
            except Exception as e:
                import traceback
                r['result'] = 'tool: ' + traceback.format_exc()[-400:]
            with lock:
                out.write(json.dumps(r) + '\n')
                out.flush()
            shutil.rmtree(sc, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(int(os.environ.get('JOBS', 8)))]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == '__main__':
    main()
