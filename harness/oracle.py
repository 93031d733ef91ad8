"""What Python computes: answers to the questions of the specification (see Ask in YExpr.tla).

Python itself is the reference: a built-in function taken over from Python is what the Python of this
machine makes of it, an infix expression is what eval makes of it. Nothing of yupp is used.
"""
import ast, json, math, operator, re, signal, string, types, zlib, codecs


class Unknown(Exception):
    pass


class S(str):       # a string literal, quotes included
    pass


class A(str):       # a name
    pass


class L(list):      # how a list is written out is left open
    def __repr__(self):
        raise Unknown
    __str__ = __repr__

    def __format__(self, spec):
        raise Unknown

    def __getitem__(self, k):
        v = list.__getitem__(self, k)
        return L(v) if isinstance(k, slice) else v

    def __add__(self, o):
        return L(list.__add__(self, o)) if isinstance(o, list) else NotImplemented

    def __mul__(self, n):
        return L(list.__mul__(self, n))


def back(a):
    k, v = a
    if k == "S":
        return S(v)
    if k == "A":
        return A(v)
    if k == "s":
        return str(v)
    if k == "i":
        return int(v)
    if k == "b":
        return v == "1"
    if k == "f":
        return float(v) if re.search(r"[.einf]", v) else int(v)
    if k == "l":
        return L(back(x) for x in v)
    return None


def forth(v, d=0):
    if v is None:
        return ["n", ""]
    if isinstance(v, bool):
        return ["b", 1 if v else 0]
    if isinstance(v, int):
        return ["i", v] if abs(v) < 10 ** 9 else ["f", str(v)]
    if isinstance(v, float):
        return ["f", repr(v)]
    if isinstance(v, Text):
        return ["s", str(v)]
    if isinstance(v, str):
        if not all(32 <= ord(c) < 127 or c in "\n\t\r\x0b\x0c" for c in v) or len(v) > 2000:
            raise Unknown
        return ["S" if isinstance(v, S) else "A" if isinstance(v, A) else "s", str(v)]
    if isinstance(v, list) and d < 5 and len(v) < 300:
        return ["l", [forth(x, d + 1) for x in v]]
    raise Unknown


def quoted(s):
    return len(s) >= 2 and s[0] == s[-1] and s[0] in "'\""


def unq(s):
    if s[:1] in ("'", '"'):
        if not quoted(s) or "\n" in s:
            raise Unknown
        s = s[1:-1]
    if not s.isascii():
        raise Unknown
    if re.search(r'\\(?![nrt\\\'"abfv]|x[0-9a-fA-F]{2}|[0-7]{1,3}|u[0-9a-fA-F]{4})', s):
        raise Unknown
    return codecs.decode(s, "unicode_escape")


def unique(l):
    out = []
    for x in l:
        hash(x)
        if x not in out:
            out.append(x)
    return out


def translate(s, table, deletions=""):
    if table.startswith("<MT:"):
        n, _, q = table[4:-1].partition(":")
        table = str.maketrans(q[:int(n)], q[int(n):])
    return "".join(c for c in s if c not in deletions).translate(table)


def maketrans(x, y):
    if not (x + y).isascii():
        raise Unknown
    str.maketrans(x, y)
    return "<MT:%d:%s%s>" % (len(x), x, y)     # stands for the table of 256 characters


def rindex(l, v):
    if isinstance(l, str) and (not isinstance(v, str) or len(v) != 1):
        raise Unknown
    return max(k for k in range(len(l)) if l[k] == v) if v in l else -1


def typeof(v):
    if isinstance(v, S):
        return A("STR")
    if isinstance(v, A):
        return A("ATOM")
    raise Unknown


FN = {k: v for m in (operator, math) for k, v in vars(m).items() if callable(v) and not k.startswith("_")}
FN.update({
    "lower": str.lower, "upper": str.upper, "swapcase": str.swapcase, "capitalize": str.capitalize, "capwords": string.capwords,
    "strip": lambda s, c=None: str.strip(s, c), "lstrip": lambda s, c=None: str.lstrip(s, c), "rstrip": lambda s, c=None: str.rstrip(s, c),
    "split": lambda s, sep=None, n=-1: str.split(s, sep, n), "rsplit": lambda s, sep=None, n=-1: str.rsplit(s, sep, n),
    "join": lambda w, sep=" ": str.join(sep, w), "count": lambda s, *a: s.count(*a), "find": lambda s, *a: str.find(s, *a), "rfind": lambda s, *a: str.rfind(s, *a),
    "atof": lambda s: float(s), "atoi": lambda s, base=10: int(s, base), "atol": lambda s, base=10: int(s, base),
    "ljust": lambda s, w, *a: str.ljust(s, w, *a), "rjust": lambda s, w, *a: str.rjust(s, w, *a), "center": lambda s, w, *a: str.center(s, w, *a),
    "expandtabs": lambda s, t=8: str.expandtabs(s, t), "replace": lambda s, a, b, n=-1: str.replace(s, a, b, n), "translate": translate, "maketrans": maketrans,
    "zfill": lambda x, w: str.zfill(x, w) if isinstance(x, str) else str.zfill(str(x), w),
    "abs": abs, "and": operator.and_, "or": operator.or_, "not": operator.not_, "chr": chr, "round": round, "sum": sum, "len": len, "hex": hex, "oct": oct, "div": operator.truediv,
    "car": lambda l: l[:1], "cdr": lambda l: l[1:], "cmp": lambda x, y: (x > y) - (x < y), "inc": lambda v: v + 1, "dec": lambda v: v - 1,
    "crc32": lambda s: zlib.crc32(bytes(s, "utf8")) & 0xffffffff, "getslice": lambda l, *q: l[slice(*[None if x == "" else x for x in q])],
    "index": lambda l, v: l.index(v) if v in l else -1, "rindex": rindex,
    "int_": lambda *a: int(*a), "isdigit": lambda v: str(v).isdigit(), "islist": lambda l: isinstance(l, list), "list": lambda *l: list(l), "str": lambda *a: str(*a),
    "ord": lambda v: ord(v) if isinstance(v, str) else ord(str(v)), "q": lambda v: S('"%s"' % esc(str(v))), "qs": lambda v: S("'%s'" % esc(str(v))),
    "range": lambda *l: list(range(*l)), "reversed": lambda v: v[::-1], "re-split": lambda r, v: [x for x in re.split(r, v) if x is not None],
    "strlen": lambda v: len(unq(v) if isinstance(v, S) else str(v)), "unique": unique, "unq": lambda v: unq(v) if isinstance(v, str) else str(v), "typeof": typeof,
    "repeat": lambda s, i: s * i, "modf": lambda x: list(math.modf(x)), "pow": math.pow,
})
for k in ("is_", "is_not", "itemgetter", "attrgetter", "methodcaller", "setitem", "delitem", "nextafter", "ulp", "cbrt", "exp2", "sumprod", "fma", "call", "perm", "comb", "dist", "prod", "lcm", "length_hint", "frexp", "trunc_"):
    FN.pop(k, None)
CONST = {k: v for k, v in list(vars(string).items()) + list(vars(math).items()) if isinstance(v, (str, float, int)) and not k.startswith("_")}


def esc(s):
    return codecs.unicode_escape_encode(s)[0].decode()


# names of an infix expression: the built-in functions win over Python's own
PY = {k: __builtins__[k] if isinstance(__builtins__, dict) else getattr(__builtins__, k)
      for k in ("min", "max", "int", "bool", "float", "sorted", "bin", "divmod", "all", "any", "tuple", "isinstance", "True", "False", "None") if k not in FN}
NODES = (ast.Expression, ast.BoolOp, ast.BinOp, ast.UnaryOp, ast.IfExp, ast.Compare, ast.Call, ast.Constant, ast.Name, ast.Subscript, ast.Slice, ast.List, ast.Tuple,
         ast.operator, ast.unaryop, ast.boolop, ast.cmpop, ast.expr_context, ast.Attribute, ast.keyword)
METHODS = {"upper", "lower", "strip", "split", "replace", "join", "startswith", "endswith", "find", "count", "title", "format", "zfill", "ljust", "rjust", "index", "lstrip", "rstrip", "capitalize"}


def maxsize(n):
    return isinstance(n, ast.Attribute) and n.attr == "maxsize" and isinstance(n.value, ast.Name) and n.value.id == "sys"


def tree(code):
    if "\0" in code or len(code) > 400:
        raise Unknown
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            t = ast.parse(code, mode="eval")
        except (SyntaxError, IndentationError):
            if re.search(r"[^\x00-\x7f]|\bmatch\b|:=|f'|f\"", code):
                raise Unknown
            raise
    for n in ast.walk(t):
        if not isinstance(n, NODES) or (isinstance(n, ast.Attribute) and n.attr not in METHODS and not maxsize(n)):
            raise Unknown
        if isinstance(n, ast.Constant) and isinstance(n.value, (bytes, complex)):
            raise Unknown
        if isinstance(n, ast.Constant) and n.value is Ellipsis:
            raise Unknown
        if isinstance(n, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops):
            raise Unknown
    return t


def listed(f):
    def g(*a, **k):
        v = f(*a, **k)
        return L(v) if type(v) is list else v
    return g


def names(code):
    return [A(n.id) for n in ast.walk(tree(code)) if isinstance(n, ast.Name)]


def with_scripts(scripts, code, *q):
    more = {}
    for s in scripts:
        more.update(namespace(s))
    return evaluate(code, *q, more=more)


def evaluate(code, *q, more={}):
    t = tree(code)
    env = {str(q[k]): q[k + 1] for k in range(0, len(q), 2)}
    known = {id(n.value) for n in ast.walk(t) if maxsize(n)}
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and id(n) not in known and n.id not in env and n.id not in more and n.id not in FN and n.id not in PY and n.id not in CONST and not n.id.startswith("undef"):
            raise Unknown
    g = dict(PY, sys=types.SimpleNamespace(maxsize=2 ** 63 - 1))
    g.update(CONST)
    g.update({k: listed(f) for k, f in FN.items()})
    g["sorted"] = listed(sorted)
    g.update({k: listed(v) if callable(v) else v for k, v in more.items()})
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return eval(compile(t, "", "eval"), {"__builtins__": {}, **g}, env)


def plain(v):
    return float(v) if re.search(r"[.eE]", v) else int(v)


def codec(name):
    """[name of an encoding, what it makes of two characters]; an error if there is none"""
    i = codecs.lookup(name)
    try:
        return L([i.name, i.encode("a\xe9", "replace")[0].hex()])
    except Exception:
        raise Unknown


def namespace(text):
    g = {"__name__": "script"}
    exec(compile(text, "script", "exec"), g)
    return {k: v for k, v in g.items() if not k.startswith("__")}


def script(text):
    """[names of the functions, names of the constants] of a script"""
    g = namespace(text)
    for v in g.values():
        if not callable(v):
            forth(v)
        elif type(v) is not types.FunctionType:
            raise Unknown
    return L([L(k for k in g if callable(g[k])), L(k for k in g if not callable(g[k]))])


def call(text, name, *q):
    return namespace(text)[name](*q)


def value(text, name):
    return namespace(text)[name]


def parses(code):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ast.parse(code)
    return True


def runs(name, code):
    """[status, what is printed, the traceback] of a program"""
    import os, shutil, subprocess, sys, tempfile
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from worker import traceback_of
    d = tempfile.mkdtemp(prefix="yur-")
    try:
        with open(os.path.join(d, name), "w") as h:
            h.write(code)
        p = subprocess.run([sys.executable, name], cwd=d, timeout=20, capture_output=True, stdin=subprocess.DEVNULL)
        return L([p.returncode, p.stdout.decode(), traceback_of(p.stderr.decode())])
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Text(str):
    """may be any text"""


def recode(hexa, enc):
    return Text(bytes.fromhex(hexa).decode(enc))


OPS = {"script": script, "call": call, "value": value, "evals": with_scripts, "codec": codec, "parses": parses, "runs": runs, "recode": recode, "+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod, "**": operator.pow, "<<": operator.lshift,
       ">>": operator.rshift, "&": operator.and_, "|": operator.or_, "^": operator.xor, "==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge,
       "truth": bool, "int": int, "num": plain, "names": names, "eval": evaluate, "abs": abs, "neg": operator.neg}


def too_big(name, q):
    n = [x for x in q if isinstance(x, (int, float)) and not isinstance(x, bool)]
    if any(abs(x) > 10 ** 30 for x in n):
        return True
    if name in ("**", ".pow") and len(n) == 2:
        return abs(n[1]) > 200
    if name in ("<<", ".lshift", ".ldexp", ".factorial", "*", ".mul", ".repeat", ".comb", ".perm", ".range", ".gamma"):
        return any(abs(x) > 10 ** 6 for x in n) and name != "*" and name != ".mul" or (name in ("<<", ".lshift") and len(n) > 1 and n[1] > 300) or (name == ".factorial" and n and n[0] > 200)
    return False


def alarm(*_):
    raise Unknown


def answer(key):
    """["e", ""] for an error, ["u", ""] if it is not known, otherwise the value"""
    name, q = json.loads(key)
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(30 if name == "runs" else 3)
    try:
        q = [back(x) for x in q]
        if too_big(name, q):
            return ["u", ""]
        if name[0] == "=" and name != "==":
            if name[1:] not in CONST:
                return ["u", ""]
            return forth(CONST[name[1:]])
        if name[0] == ".":
            f = FN.get(name[1:])
            if f is None:
                return ["u", ""]
        else:
            f = OPS[name]
        try:
            v = f(*q)
        except (Unknown, RecursionError, MemoryError):
            return ["u", ""]
        except Exception:
            return ["e", ""]
        try:
            return forth(v)
        except Unknown:
            return ["u", ""]
    except Unknown:
        return ["u", ""]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


if __name__ == "__main__":
    import sys
    json.dump([answer(k) for k in json.load(sys.stdin)], sys.stdout)
