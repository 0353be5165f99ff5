#!/usr/bin/env python3
"""Translates the Python-2 sources of /repo to Python 3 (semantics preserving for what they use).

translate(src) -> str;  tree(dst) writes /repo/*.py and /repo/dyson/**/*.py translated into dst
(dst/, dst/dyson/), plus the runtime helper _py2rt.py and stubs (hickle, matplotlib)."""
import ast, io, os, re, shutil, sys, tokenize, warnings
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = sys.argv[2] if len(sys.argv) > 2 else '/repo'
SKIP = {tokenize.COMMENT, tokenize.NL, tokenize.INDENT, tokenize.DEDENT}

def _tabs(src):
    out = []
    for line in src.split('\n'):
        m = re.match(r'[ \t]*', line)
        out.append(m.group(0).expandtabs(8) + line[m.end():])
    return '\n'.join(out)

def _stmts(toks):
    """Yields (start,end) token index ranges of simple statements (end exclusive, NEWLINE/';' not included)."""
    i, n = 0, len(toks)
    start, depth, lam = None, 0, 0
    for i, t in enumerate(toks):
        if t.type in SKIP:
            continue
        if t.type in (tokenize.NEWLINE, tokenize.ENDMARKER):
            if start is not None:
                yield start, i
            start, depth, lam = None, 0, 0
            continue
        if start is None:
            start = i
        if t.type == tokenize.OP:
            if t.string in '([{':
                depth += 1
            elif t.string in ')]}':
                depth -= 1
            elif t.string == ';' and depth == 0:
                yield start, i
                start = None
            elif t.string == ':' and depth == 0:
                if lam:
                    lam -= 1
                else:
                    first = toks[start].string
                    if first in ('if', 'else', 'elif', 'for', 'while', 'try', 'except', 'finally', 'def', 'class', 'with'):
                        yield start, i
                        start = None
        elif t.type == tokenize.NAME and t.string == 'lambda' and depth == 0:
            lam += 1

def _syntax(src):
    src = re.sub(r'(?<![\w.])0([0-7]+)(?![\w.])', r'0o\1', src) if re.search(r'(?<![\w.\'"])0[0-7]{2,}(?![\w.])', src) else src
    lines = src.split('\n')
    toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    edits = []  # (pos_start, pos_end, text)
    def text(a, b):  # source between token a start and token b-1 end
        s, e = toks[a].start, toks[b - 1].end
        if s[0] == e[0]:
            return lines[s[0] - 1][s[1]:e[1]]
        return '\n'.join([lines[s[0] - 1][s[1]:]] + lines[s[0]:e[0] - 1] + [lines[e[0] - 1][:e[1]]])
    def split(a, b):  # split at top-level commas
        depth, cur, parts = 0, a, []
        for i in range(a, b):
            s = toks[i].string
            if toks[i].type == tokenize.OP:
                if s in '([{': depth += 1
                elif s in ')]}': depth -= 1
                elif s == ',' and depth == 0:
                    parts.append((cur, i)); cur = i + 1
        parts.append((cur, b))
        return parts
    for a, b in _stmts(toks):
        while b > a and toks[b - 1].type in SKIP:
            b -= 1
        first = toks[a]
        if first.type != tokenize.NAME:
            continue
        if first.string == 'print':
            if b == a + 1:
                edits.append((first.start, first.end, 'print()')); continue
            nxt = toks[a + 1]
            if nxt.string == '(':
                depth = 0
                for i in range(a + 1, b):
                    if toks[i].string in ('(', '[', '{'): depth += 1
                    elif toks[i].string in (')', ']', '}'): depth -= 1
                    if depth == 0: break
                if i == b - 1:
                    continue
            if nxt.type == tokenize.OP and nxt.string in ('=', '.'):
                continue
            if nxt.string == '>>':
                parts = split(a + 2, b)
                f = text(*parts[0])
                rest = [text(*p) for p in parts[1:] if p[1] > p[0]]
                new = 'print(%s)' % ', '.join(rest + ['file=' + f])
            else:
                parts = split(a + 1, b)
                trail = parts[-1][1] <= parts[-1][0]
                new = 'print(%s%s)' % (', '.join(text(*p) for p in parts if p[1] > p[0]), ', end=" "' if trail else '')
            edits.append((first.start, toks[b - 1].end, new))
        elif first.string == 'except':
            parts = split(a + 1, b)
            if len(parts) == 2:
                edits.append((toks[parts[0][1]].start, toks[parts[0][1]].end, ' as'))
        elif first.string == 'raise':
            parts = split(a + 1, b)
            if len(parts) == 2:
                edits.append((toks[a + 1].start, toks[b - 1].end, '%s(%s)' % (text(*parts[0]), text(*parts[1]))))
        elif first.string == 'exec' and toks[a + 1].string != '(':
            edits.append((first.start, toks[b - 1].end, 'exec(%s)' % text(a + 1, b)))
    # '<>' operator
    for s, e, new in sorted(edits, reverse=True):
        head = lines[s[0] - 1][:s[1]]
        tail = lines[e[0] - 1][e[1]:]
        lines[s[0] - 1:e[0]] = (head + new + tail).split('\n')
    return '\n'.join(lines)

def _call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])

class _T(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(_call('_py2div', n.left, n.right), n)
        return n
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            import copy
            load = copy.deepcopy(n.target)
            load.ctx = ast.Load()
            return ast.copy_location(ast.Assign(targets=[n.target], value=_call('_py2idiv', load, n.value)), n)
        return n
    def visit_Compare(self, n):
        self.generic_visit(n)
        ops = []
        left = n.left
        for op, right in zip(n.ops, n.comparators):
            lit = any(isinstance(x, ast.Constant) and isinstance(x.value, (str, int, float)) and not isinstance(x.value, bool) for x in (left, right))
            if lit and isinstance(op, ast.Is): op = ast.Eq()
            elif lit and isinstance(op, ast.IsNot): op = ast.NotEq()
            ops.append(op)
            left = right
        n.ops = ops
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        for k in n.keywords: # old numpy took order=['F']
            if k.arg == 'order' and isinstance(k.value, ast.List) and len(k.value.elts) == 1: k.value = k.value.elts[0]
        if isinstance(n.func, ast.Attribute):
            if n.func.attr == 'has_key' and len(n.args) == 1:
                return ast.copy_location(_call('_py2haskey', n.func.value, n.args[0]), n)
            if n.func.attr in ('keys', 'values', 'items', 'iterkeys', 'itervalues', 'iteritems') and not n.args and not n.keywords:
                f = n.func
                attr = f.attr[4:] if f.attr.startswith('iter') else f.attr
                return ast.copy_location(_call('_py2list', f.value, ast.Constant(value=attr)), n)
        return n

def translate(src, name='<py2>'):
    src = _syntax(_tabs(src.replace('\r\n', '\n')))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(src, name)
    tree = ast.fix_missing_locations(_T().visit(tree))
    return 'from _py2rt import *\nfrom _py2rt import _py2div, _py2idiv, _py2haskey, _py2list\n' + ast.unparse(tree) + '\n'

def emit(path, dst):
    with open(path, encoding='utf-8', errors='surrogateescape') as f:
        out = translate(f.read(), path)
    with open(dst, 'w', encoding='utf-8', errors='surrogateescape') as f:
        f.write(out)

def runtime(dst):
    stubs = os.path.join(VERIF)
    for f in os.listdir(stubs):
        if f in ('_py2rt.py', 'hickle.py', 'matplotlib.py'):
            shutil.copy(os.path.join(stubs, f), dst)

def io_only(dst):
    os.makedirs(dst, exist_ok=True)
    runtime(dst)
    emit(os.path.join(REPO, 'IO.py'), os.path.join(dst, 'IO.py'))

def tree(dst):
    """Layout: dst/*.py (top level) and dst/dyson/*.py, dst/dyson/solver/*.py"""
    os.makedirs(dst, exist_ok=True)
    for base, rel in (('', ''), ('dyson', 'dyson'), ('dyson/solver', 'dyson/solver')):
        d = os.path.join(REPO, base)
        if not os.path.isdir(d):
            continue
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in sorted(os.listdir(d)):
            if not f.endswith('.py') or f == 'hickle.py' or f.startswith('.'):
                continue
            try:
                emit(os.path.join(d, f), os.path.join(dst, rel, f))
            except SyntaxError as e:
                sys.stderr.write('py2: cannot translate %s: %s\n' % (f, e))
    runtime(dst)

if __name__ == '__main__':
    tree(sys.argv[1])
