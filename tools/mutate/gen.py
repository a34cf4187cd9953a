#!/usr/bin/env python3
"""gen.py: all single mutants of /repo/sudachipy as JSON lines (file, line, operator, start byte, end byte, replacement)."""
import ast, json, os, re, sys
R = os.environ.get('VERIF_REPO', '/repo')
OPS = {ast.Lt: ['<', '<='], ast.LtE: ['<=', '<'], ast.Gt: ['>', '>='], ast.GtE: ['>=', '>'], ast.Eq: ['==', '!='], ast.NotEq: ['!=', '=='],
       ast.In: ['in', 'not in'], ast.NotIn: ['not in', 'in'], ast.Is: ['is', 'is not'], ast.IsNot: ['is not', 'is']}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '+'), ast.LShift: ('<<', '>>'), ast.RShift: ('>>', '<<'), ast.BitAnd: ('&', '|'),
       ast.BitOr: ('|', '&'), ast.FloorDiv: ('//', '*'), ast.Div: ('/', '*')}


class Src:
    def __init__(self, path):
        self.path = path
        self.data = open(os.path.join(R, path), 'rb').read()
        self.lines = [0]
        for l in self.data.split(b'\n'):
            self.lines.append(self.lines[-1] + len(l) + 1)

    def at(self, line, col):
        return self.lines[line - 1] + col

    def span(self, n):
        return self.at(n.lineno, n.col_offset), self.at(n.end_lineno, n.end_col_offset)

    def text(self, n):
        a, b = self.span(n)
        return self.data[a:b].decode()


def mutants(path):
    s = Src(path)
    tree = ast.parse(s.data)
    out = []

    def add(n, op, a, b, new):
        if s.data[a:b].decode() != new:
            out.append(dict(file=path, line=n.lineno, op=op, a=a, b=b, new=new, old=s.data[a:b].decode()))

    def between(n, left, right, old, new, op):
        a, b = s.span(left)[1], s.span(right)[0]
        t = s.data[a:b].decode()
        if t.count(old) == 1:
            k = a + len(t[:t.index(old)].encode())
            add(n, op, k, k + len(old), new)

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(n.body[0].value)
        if isinstance(n, ast.FunctionDef):
            for a in n.args.args + [n]:
                for x in ast.walk(getattr(a, 'annotation', None) or ast.Pass()):
                    skip.add(x)
                for x in ast.walk(getattr(a, 'returns', None) or ast.Pass()):
                    skip.add(x)
        if isinstance(n, ast.Raise):
            for x in ast.walk(n):
                skip.add(x)
        if isinstance(n, ast.JoinedStr):
            for x in ast.walk(n):
                skip.add(x)
    drop = set()        # no behaviour to lose: abstract methods, class-level defaults, help and log texts
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) and 'NotImplementedError' in s.text(n):
            drop.add(n)
        if isinstance(n, ast.ClassDef):
            drop.update(x for x in n.body if isinstance(x, ast.Assign))
        if isinstance(n, ast.Call) and re.search(r'logger|warn|print|add_argument|help|set_defaults|ArgumentParser|add_parser', s.text(n.func)):
            for x in ast.walk(n):
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    drop.add(x)
            if 'logger' in s.text(n.func):
                drop.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in drop or isinstance(n, ast.Expr) and n.value in drop:
            continue
        if n in skip:
            if isinstance(n, ast.Raise):
                a, b = s.span(n)
                add(n, 'del', a, b, 'pass')
            continue
        if isinstance(n, ast.Compare) and len(n.ops) >= 1:
            left = n.left
            for o, r in zip(n.ops, n.comparators):
                between(n, left, r, OPS[type(o)][0], OPS[type(o)][1], 'cmp')
                left = r
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            between(n, n.left, n.right, *BIN[type(n.op)], 'bin')
        elif isinstance(n, ast.BoolOp):
            for x, y in zip(n.values, n.values[1:]):
                o, w = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
                between(n, x, y, o, w, 'bool')
            for x in n.values:
                a, b = s.span(x)
                add(n, 'operand', a, b, 'True' if isinstance(n.op, ast.And) else 'False')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = s.span(n)
            add(n, 'not', a, b, s.text(n.operand))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            a, b = s.span(n)
            add(n, 'neg', a, b, s.text(n.operand))
        elif isinstance(n, ast.Constant):
            a, b = s.span(n)
            if n.value is True or n.value is False:
                add(n, 'const', a, b, str(not n.value))
            elif isinstance(n.value, int):
                add(n, 'const', a, b, str(n.value + 1))
                if n.value > 0:
                    add(n, 'const', a, b, str(n.value - 1))
            elif isinstance(n.value, str) and b > a and s.data[a:a + 1] in b'\'"':
                add(n, 'str', a, b, repr(n.value + 'X') if n.value else "'X'")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, b = s.span(n.test)
            if not isinstance(n, ast.While):
                add(n, 'cond', a, b, 'True')
            add(n, 'cond', a, b, 'False')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)) or isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield)):
            a, b = s.span(n)
            add(n, 'del', a, b, 'pass')
            if isinstance(n, ast.AugAssign):
                for x, y in (('+=', '-='), ('-=', '+=')):
                    between(n, n.target, n.value, x, y, 'aug')
        elif isinstance(n, ast.Break):
            add(n, 'jump', *s.span(n), 'continue')
        elif isinstance(n, ast.Continue):
            add(n, 'jump', *s.span(n), 'break')
            add(n, 'jump', *s.span(n), 'pass')
        elif isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                if x is not None:
                    add(x, 'slice', *s.span(x), '')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(n, 'ret', *s.span(n.value), 'None')
        elif isinstance(n, ast.Call):
            for f, g in (('min', 'max'), ('max', 'min'), ('sorted', 'list'), ('all', 'any'), ('any', 'all'), ('reversed', 'list'), ('strip', 'lstrip'), ('strip', 'rstrip'),
                         ('rstrip', 'strip'), ('lstrip', 'strip'), ('extend', 'append')):
                fn = n.func
                if isinstance(fn, ast.Name) and fn.id == f:
                    add(n, 'call', *s.span(fn), g)
                elif isinstance(fn, ast.Attribute) and fn.attr == f:
                    e = s.span(fn)[1]
                    add(n, 'call', e - len(f), e, g)
    return out


PYX = [(r'(?<![<>=!])<(?![<=])', '<='), (r'<=', '<'), (r'(?<![-<>])>(?![>=])', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r' \+ ', ' - '), (r' - ', ' + '),
       (r' \* ', ' + '), (r'\band\b', 'or'), (r'\bor\b', 'and'), (r'\bnot ', ''), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'), (r'\bcontinue\b', 'pass'), (r'\+=', '-='),
       (r'\bis not\b', 'is'), (r'\bis\b(?! not)', 'is not'), (r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?!\w)', lambda m: str(int(m.group(1), 0) + 1)), (r'>>', '<<')]


def pyx(path):
    s = Src(path)
    out = []
    pos = 0
    doc = False
    for k, line in enumerate(s.data.split(b'\n')):
        t = line.decode()
        if '"""' in t:
            doc = not doc if t.count('"""') == 1 else doc
        elif not doc and t.strip() and not t.strip().startswith(('#', 'import', 'from', '@')):
            code = re.sub(r'\s#.*', lambda m: ' ' * len(m.group(0)), t)
            for pat, new in PYX:
                for m in re.finditer(pat, code):
                    r = new(m) if callable(new) else new
                    a = pos + len(t[:m.start()].encode())
                    out.append(dict(file=path, line=k + 1, op='re', a=a, b=a + len(m.group(0).encode()), new=r, old=m.group(0)))
            st = t.strip()
            if re.match(r'[\w.\[\]]+(\s*[-+]?=[^=]|\(|\.)', st) and not st.startswith(('def', 'cdef', 'cpdef', 'class', 'if', 'for', 'else', 'return', 'raise')) and not st.endswith(('(', ',', ':')):
                a = pos + len(t) - len(t.lstrip())
                out.append(dict(file=path, line=k + 1, op='del', a=a, b=pos + len(line), new='pass', old=st))
            m = re.match(r'\s*if (.*):$', code.rstrip())
            if m:
                for v in ('True', 'False'):
                    out.append(dict(file=path, line=k + 1, op='cond', a=pos + m.start(1), b=pos + m.end(1), new=v, old=m.group(1)))
        pos += len(line) + 1
    return out


allm = []
for d, dirs, fs in sorted(os.walk(os.path.join(R, 'sudachipy'))):
    for f in sorted(fs):
        p = os.path.relpath(os.path.join(d, f), R)
        if f.endswith('.py'):
            allm += mutants(p)
        elif f.endswith('.pyx'):
            allm += pyx(p)
for i, m in enumerate(allm):
    m['id'] = i
    print(json.dumps(m, ensure_ascii=False))
