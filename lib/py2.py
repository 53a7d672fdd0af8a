"""The repository's Python is Python 2, and only Python 3 is here.  This brings
its text up to date without changing what it does: print statements, except
clauses, has_key, xrange, lists returned by range, map, filter, zip and keys,
integer division, tabs."""
import ast, os, re, warnings
import build, core

PRELUDE = '''
import builtins as _b, numbers as _n
def _py2whole(a):
    return isinstance(a, _n.Integral) or getattr(getattr(a, "dtype", None), "kind", "") in "iu" and hasattr(a, "dtype")
def _py2div(a, b):
    if _py2whole(a) and _py2whole(b):
        return a // b
    return a / b
def _py2range(*a):
    return _b.list(_b.range(*a))
def _py2map(*a):
    return _b.list(_b.map(*a))
def _py2filter(*a):
    return _b.list(_b.filter(*a))
def _py2zip(*a):
    return _b.list(_b.zip(*a))
def _py2cmp(a, b):
    return (a > b) - (a < b)
def _py2sorted(it, cmp=None, key=None, reverse=False):
    return _b.sorted(it, key=_py2key(cmp, key), reverse=reverse)
def _py2key(cmp, key):
    if cmp is None:
        return key
    import functools
    k = functools.cmp_to_key(cmp)
    return k if key is None else (lambda x: k(key(x)))
def _py2sort(l, *a, **k):
    if not isinstance(l, _b.list):
        return l.sort(*a, **k)
    cmp, key, reverse = (a + (None, None, False)[len(a):])
    l.sort(key=_py2key(k.get("cmp", cmp), k.get("key", key)), reverse=k.get("reverse", reverse))
def _py2has(d, k):
    return d.has_key(k) if hasattr(d, "has_key") else k in d
def _py2next(it):
    return it.next() if hasattr(it, "next") else _b.next(it)
import functools as _f, itertools as _i, sys as _s, os as _o
reduce, long, unicode, basestring, unichr, cmp = _f.reduce, int, str, str, chr, _py2cmp
_i.izip, _i.imap, _i.ifilter, _i.izip_longest = zip, map, filter, _i.zip_longest
_s.maxint, _o.getcwdu = _s.maxsize, _o.getcwd
'''
RENAME = {"xrange": "_py2range", "range": "_py2range", "map": "_py2map", "filter": "_py2filter", "zip": "_py2zip",
          "raw_input": "input", "sorted": "_py2sorted", "file": "open"}


def _scan(text, depth, quote):
    """Brackets open and string open at the end of a line."""
    i = 0
    while i < len(text):
        c = text[i]
        if quote:
            if c == "\\":
                i += 2
                continue
            if text.startswith(quote, i):
                i += len(quote)
                quote = None
                continue
            i += 1
            continue
        if c == "#":
            break
        if text.startswith('"""', i) or text.startswith("'''", i):
            quote = text[i:i + 3]
            i += 3
            continue
        if c in "\"'":
            quote = c
        elif c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
        i += 1
    if quote and len(quote) == 1 and not text.endswith("\\"):
        quote = None
    return depth, quote


def _code_end(text):
    """Where a comment begins on a line that starts outside of a string."""
    q = None
    i = 0
    while i < len(text):
        c = text[i]
        if q:
            if c == "\\":
                i += 1
            elif c == q:
                q = None
        elif c in "\"'":
            q = c
        elif c == "#":
            return i
        i += 1
    return len(text)


def lines(text):
    """Text of Python 2 as text Python 3 can parse."""
    function = re.search(r"^\s*from\s+__future__\s+import\b.*\bprint_function\b", text, re.M)
    out, depth, quote, inprint = [], 0, None, False
    for l in text.split("\n"):
        l = l.rstrip("\r")
        start = depth == 0 and quote is None
        if quote is None:
            m = re.match(r"[ \t]*", l)
            l = m.group(0).expandtabs(8) + l[m.end():]
        if start:
            l = re.sub(r"\bexcept\s+([\w.]+(?:\s*,\s*[\w.]+)*)\s*,\s*(\w+)\s*:",
                       lambda m: "except (%s) as %s:" % (m.group(1), m.group(2)) if "," in m.group(1) else "except %s as %s:" % (m.group(1), m.group(2)), l)
            l = re.sub(r"\bexcept\s+(\([^()]*\))\s*,\s*(\w+)\s*:", r"except \1 as \2:", l)
            l = re.sub(r"^(\s*raise\s+[\w.]+)\s*,\s*(.+)$", r"\1(\2)", l)
            m = re.match(r"^(\s*(?:(?:if|else|elif|for|while|try|except|finally|with)\b[^#\"']*:\s*)?)print\b(?!\s*=)\s*(.*)$", l)
            if m and not function:
                rest = m.group(2)
                e = _code_end(rest)
                rest, comment = rest[:e].rstrip(), rest[e:]
                if rest.startswith(">>"):
                    f, _, r = rest[2:].partition(",")
                    rest = "%s%sfile=%s" % (r, ", " if r.strip() else "", f.strip())
                d, q = _scan(rest, 0, None)
                if d == 0 and q is None and not rest.endswith("\\"):
                    l = m.group(1) + "print(" + rest + ") " + comment
                else:
                    l, inprint = m.group(1) + "print(" + rest, True
                    depth, quote = d, q
                    out.append(l)
                    continue
        depth, quote = _scan(l, depth, quote)
        if inprint and depth == 0 and quote is None and not l.endswith("\\"):
            l, inprint = l + ")", False
        if quote is None:
            e = _code_end(l)
            code = l[:e]
            if "'" not in code and '"' not in code:
                code = re.sub(r"\b(\d+)[lL]\b", r"\1", code)
                code = re.sub(r"(?<![\w.])(?<![eE][-+])0([0-7]+)\b(?!\.)", r"0o\1", code).replace("<>", "!=")
                l = code + l[e:]
        out.append(l)
    return "\n".join(out)


class _Tr(ast.NodeTransformer):
    def __init__(self, true=False):
        self.true = true        # from __future__ import division

    def visit_ImportFrom(self, n):
        if n.module == "__future__":
            return ast.Pass()
        if n.module == "itertools":
            n.names = [ast.alias({"izip": "zip", "imap": "map", "ifilter": "filter"}.get(a.name, a.name), a.asname or a.name) for a in n.names]
            builtin = [a for a in n.names if a.name in ("zip", "map", "filter")]
            if builtin:
                rest = [a for a in n.names if a not in builtin]
                return ([ast.ImportFrom("itertools", rest, 0)] if rest else []) + [ast.ImportFrom("builtins", builtin, 0)]
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and not self.true:
            return ast.copy_location(ast.Call(ast.Name("_py2div", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_Compare(self, n):
        # Python 2 keeps one object for every string of at most one character
        self.generic_visit(n)
        if len(n.ops) == 1 and any(isinstance(x, ast.Constant) and isinstance(x.value, str) and len(x.value) < 2 for x in [n.left] + n.comparators):
            if isinstance(n.ops[0], ast.Is):
                n.ops = [ast.Eq()]
            elif isinstance(n.ops[0], ast.IsNot):
                n.ops = [ast.NotEq()]
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and not self.true:
            import copy
            load = copy.deepcopy(n.target)
            for x in ast.walk(load):
                if hasattr(x, "ctx") and x is load:
                    x.ctx = ast.Load()
            # numpy arrays divide in place: so does the original
            f = ast.Call(ast.Name("_py2div", ast.Load()), [load, n.value], [])
            return ast.copy_location(ast.Assign([n.target], f), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in RENAME:
            n.func.id = RENAME[n.func.id]      # names of the functions, not arguments called so
        if isinstance(n.func, ast.Attribute) and n.func.attr == "has_key" and len(n.args) == 1:
            return ast.copy_location(ast.Call(ast.Name("_py2has", ast.Load()), [n.func.value] + n.args, []), n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "sort" and (n.args or any(k.arg == "cmp" for k in n.keywords)):
            return ast.copy_location(ast.Call(ast.Name("_py2sort", ast.Load()), [n.func.value] + n.args, n.keywords), n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "next" and not n.args and not n.keywords:
            return ast.copy_location(ast.Call(ast.Name("_py2next", ast.Load()), [n.func.value], []), n)
        if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
            if n.func.attr in ("keys", "values", "items"):
                return ast.copy_location(ast.Call(ast.Name("list", ast.Load()), [n], []), n)
            if n.func.attr in ("iteritems", "itervalues", "iterkeys"):
                n.func.attr = n.func.attr[4:]
        return n


def module(text, name):
    """Python 3 text that does what this Python 2 text does."""
    t = lines(text)
    # what numpy has called otherwise since
    t = re.sub(r"\bnp\.(int|float|bool|complex|object)\b(?!_)", r"\1", t)
    t = re.sub(r"""\border\s*=\s*\[(['"]\w['"])\]""", r"order=\1", t)
    t = t.replace("from numpy.core import intc", "from numpy import intc")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(t)
    except SyntaxError as e:
        raise core.CheckError("cannot bring %s up to date: %s: %s" % (name, e, t.split("\n")[(e.lineno or 1) - 1]))
    true = any(isinstance(x, ast.ImportFrom) and x.module == "__future__" and any(a.name == "division" for a in x.names) for x in tree.body)
    tree = ast.fix_missing_locations(_Tr(true).visit(tree))
    return PRELUDE + ast.unparse(tree) + "\n"


ANY = '''
# no pictures
class _Any(object):
    def __getattr__(self, n):
        return _Any()
    def __call__(self, *a, **k):
        return _Any()
    def __iter__(self):
        return iter(())
    def __getitem__(self, k):
        return _Any()
def __getattr__(n):
    if n.startswith("__"):
        raise AttributeError(n)
    return _Any()
'''
STUBS = {
    "matplotlib/__init__.py": ANY,
    "matplotlib/pyplot.py": ANY,
}


def install(d, modules=None):
    """The repository's modules in the directory d, laid out as in the repository."""
    import pyio
    pyio.install(d)
    for m in modules or dyson():
        src = os.path.join(build.REPO, m)
        with open(src, errors="replace") as f:
            try:
                t = module(f.read(), m)
            except core.CheckError:
                if modules:
                    raise
                continue        # nothing may need it
        os.makedirs(os.path.dirname(os.path.join(d, m)) or d, exist_ok=True)
        with open(os.path.join(d, m), "w") as f:
            f.write(t)
    for n, t in STUBS.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(t)
    try:
        os.makedirs(os.path.join(d, "dyson"), exist_ok=True)
        open(os.path.join(d, "dyson", "__init__.py"), "a").close()
    except OSError:
        pass


def dyson():
    """The coordinator's modules, whatever they are."""
    out = []
    for top in ("", "dyson", "dyson/solver"):
        for n in sorted(os.listdir(os.path.join(build.REPO, top))):
            if n.endswith(".py") and n[0] != "." and n not in ("inlist.py", "IO.py", "hickle.py", "test.py", "setup.py", "alternative_calc_gamma3.py"):
                out.append(os.path.join(top, n))
    return out
