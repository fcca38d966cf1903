"""Loading /repo/pads: natively for replay, instrumented for symbolic execution.

The instrumented copy is compiled from the working tree's source on every run.
Two rewrites keep symbolic truth values from being collapsed by CPython:
`not x` and `x in y` / `x not in y` go through functions that know the proxies.
A few builtins (isinstance, id, object, int, ord, len, str methods on symbolic
characters) get versions that know the proxies and are otherwise the originals.
"""
import ast
import builtins
import importlib
import importlib.util
import os
import re
import sys
import types

from . import vals

REPO = os.environ.get("PADS_REPO", "/repo")
SYM = "pads_sym"


class Messages(ast.NodeTransformer):
    """The text of an exception is not worth a decision on the symbolic values it mentions."""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name("__sx_fmt__", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_FormattedValue(self, n):
        self.generic_visit(n)
        n.value = ast.copy_location(ast.Call(ast.Name("__sx_msg__", ast.Load()), [n.value], []), n.value)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("repr", "str") and len(n.args) == 1:
            n.args = [ast.copy_location(ast.Call(ast.Name("__sx_msg__", ast.Load()), n.args, []), n)]
        return n


def _symbolic(x):
    if isinstance(x, (tuple, list)):
        return any(_symbolic(y) for y in x)
    return isinstance(x, vals.SYMBOLIC_INTS + (vals.SymBool, SymChar, SymStr, SymWord, SymLine))


def sx_fmt(a, b):
    return a if isinstance(a, str) and _symbolic(b) else a % b


def sx_msg(x):
    return "<symbolic>" if _symbolic(x) else x


class Rewrite(ast.NodeTransformer):
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(ast.Call(ast.Name("__sx_not__", ast.Load()), [n.operand], []), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name("__sx_in__", ast.Load()), [n.left, n.comparators[0]], [])
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.Call(ast.Name("__sx_not__", ast.Load()), [c], [])
            return ast.copy_location(c, n)
        return n


    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(ast.Name("__sx_mod__", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "int" and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(ast.Call(ast.Name("__sx_int__", ast.Load()), n.args, []), n)
        return n

    def visit_Raise(self, n):
        n = Messages().visit(n)
        self.generic_visit(n)
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.name in ("__bool__", "__len__", "__hash__"):      # CPython insists on the exact type of these results
            for r in ast.walk(n):
                if isinstance(r, ast.Return) and r.value is not None:
                    r.value = ast.copy_location(ast.Call(ast.Name("__sx_plain__", ast.Load()), [r.value], []), r.value)
        return n


class Containers(Rewrite):
    """Also replaces dict and set displays and comprehensions."""

    def _call(self, n, name, arg):
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), [arg], []), n)

    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys):
            return n
        return self._call(n, "__sx_dict__", ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)],
                                                     ast.Load()))

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return self._call(n, "__sx_dict__", ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators))

    def visit_Set(self, n):
        self.generic_visit(n)
        return self._call(n, "__sx_set__", ast.List(n.elts, ast.Load()))

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return self._call(n, "__sx_set__", ast.GeneratorExp(n.elt, n.generators))


def sx_plain(x):
    if isinstance(x, vals.SymBool):
        return bool(x)
    if isinstance(x, vals.SYMBOLIC_INTS):
        return int(x)
    return x


def sx_in(x, y):
    if isinstance(y, str) and isinstance(x, SymChar):
        return any_char(x, y)
    return x in y


class SymChar:
    """One symbolic character (code point is an SMT integer restricted to a small alphabet)."""
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z                       # SymInt or BVInt code point

    def __eq__(self, o):
        if isinstance(o, SymChar):
            return self.z == o.z
        if isinstance(o, str):
            return self.z == ord(o) if len(o) == 1 else False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else vals.sym_not(r)

    def __hash__(self): return 7 if vals.CONST_HASH else hash(chr(int(self.z)))
    def __str__(self): return chr(int(self.z))
    def __repr__(self): return repr(str(self))
    def __len__(self): return 1
    def __add__(self, o): return str(self) + str(o)
    def __radd__(self, o): return str(o) + str(self)
    def __lt__(self, o): return str(self) < str(o)
    def __getattr__(self, n): return getattr(str(self), n)


def any_char(x, s):
    import z3
    return vals.mkbool(z3.Or([vals.zbool(x == ch) for ch in s] + [z3.BoolVal(False)]))


class SymStr:
    """String of fixed length made of symbolic and concrete characters."""

    def __init__(self, chars):
        self.chars = list(chars)

    def __len__(self): return len(self.chars)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr(self.chars[i])
        return self.chars[i]

    def __iter__(self): return iter(list(self.chars))
    def __bool__(self): return bool(self.chars)

    def startswith(self, p, *a):
        if a or not isinstance(p, str):
            return str(self).startswith(p, *a)
        if len(p) > len(self.chars):
            return False
        for c, q in zip(self.chars, p):
            if not (c == q):
                return False
        return True

    def rstrip(self, cs=None):
        if not isinstance(cs, str):
            return str(self).rstrip(cs)
        k = len(self.chars)
        while k and any_char(self.chars[k - 1], cs):
            k -= 1
        return SymStr(self.chars[:k])

    def __str__(self): return "".join(str(c) for c in self.chars)
    def __repr__(self): return repr(str(self))
    def __eq__(self, o): return str(self) == str(o) if isinstance(o, (str, SymStr)) else NotImplemented
    def __hash__(self): return hash(str(self))
    def __add__(self, o): return SymStr(self.chars + list(o))
    def __radd__(self, o): return SymStr(list(o) + self.chars)
    def __contains__(self, c): return str(c) in str(self)
    def __getattr__(self, n): return getattr(str(self), n)


class SymWord:
    """A word of a text: a name ("n" and a number; equal names have equal numbers) or a decimal number."""
    __slots__ = ("z", "name")

    def __init__(self, z, name):
        self.z, self.name = z, name      # SymInt; whether it is a name

    def __eq__(self, o):
        if isinstance(o, SymWord):
            return self.z == o.z if self.name == o.name else False
        if isinstance(o, str):
            d = o[1:] if self.name and o[:1] == "n" else "" if self.name else o
            return self.z == int(d) if d.isdecimal() and str(int(d)) == d else False
        if isinstance(o, SymLine):
            return NotImplemented
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else vals.sym_not(r)

    def __hash__(self): return 7 if vals.CONST_HASH else hash(str(self))
    def __str__(self): return ("n%d" if self.name else "%d") % int(self.z)
    def __repr__(self): return repr(str(self))
    def __bool__(self): return True
    def split(self, *a): return [self] if not a else str(self).split(*a)
    def strip(self, *a): return self if not a else str(self).strip(*a)
    lstrip = rstrip = strip

    def startswith(self, p, *a):
        if a or not isinstance(p, str) or (p[:1].isdigit() or p[:1] in "n"):
            return str(self).startswith(p, *a)
        return False

    def __getattr__(self, n): return getattr(str(self), n)
    def __len__(self): return len(str(self))
    def __iter__(self): return iter(str(self))
    def __getitem__(self, i): return str(self)[i]
    def __add__(self, o): return str(self) + str(o)
    def __radd__(self, o): return str(o) + str(self)
    def __contains__(self, c): return str(c) in str(self)
    def __lt__(self, o): return str(self) < str(o)


class SymLine:
    """Words separated by single spaces, some of them symbolic."""
    __slots__ = ("words",)

    def __init__(self, words):
        self.words = list(words)

    def split(self, *a): return list(self.words) if not a or a == (None,) else str(self).split(*a)
    def strip(self, *a): return self if not a else str(self).strip(*a)
    lstrip = rstrip = strip

    def startswith(self, p, *a):
        if not a and isinstance(p, str) and " " not in p and not isinstance(self.words[0], str):
            return self.words[0].startswith(p)
        return str(self).startswith(p, *a)

    def __eq__(self, o):
        if isinstance(o, str) and len(o.split(" ")) != len(self.words):
            return False
        return str(self) == str(o) if isinstance(o, (str, SymLine)) else NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self): return hash(str(self))
    def __str__(self): return " ".join(str(w) for w in self.words)
    def __repr__(self): return repr(str(self))
    def __bool__(self): return True
    def __getattr__(self, n): return getattr(str(self), n)
    def __len__(self): return len(str(self))
    def __iter__(self): return iter(str(self))
    def __getitem__(self, i): return str(self)[i]
    def __contains__(self, c): return str(c) in str(self)


class DetObject:
    """Stand-in for object(): hash (hence set order) is the creation order, not the address."""
    _n = 0

    def __new__(cls, *a, **k):
        o = super().__new__(cls)
        DetObject._n += 1
        o._sx_serial = DetObject._n
        return o

    def __hash__(self):
        return self._sx_serial * 1000003 % 8191


_ids = {}


def det_id(o):
    k = builtins.id(o)
    e = _ids.get(k)
    if e is None:
        e = _ids[k] = (o, 1000 + len(_ids))
    return e[1]


_globals = {}          # instrumented module -> (module, code, [(global container, copy of its contents)])


def reset_path():
    """Every path starts from the same module state."""
    DetObject._n = 0
    _ids.clear()
    for module, code, snap in builtins.list(_globals.values()):
        for x, old in snap:
            new = builtins.list(x.items()) if isinstance(x, dict) else builtins.list(x)
            if len(new) != len(old) or not all(p is q or isinstance(p, tuple) and len(p) == 2 == len(q) and p[0] is q[0]
                                               and p[1] is q[1] for p, q in zip(new, old)):
                _execute(module, code)           # in place: functions already imported elsewhere see the new globals
                break


def _execute(module, code):
    exec(code, module.__dict__)
    _globals[module.__name__] = (module, code, [
        (x, builtins.list(x.items()) if isinstance(x, dict) else builtins.list(x)) for k, x in vars(module).items()
        if isinstance(x, (dict, list, set)) and not k.startswith("__")])


def sx_isinstance(x, t):
    if builtins.isinstance(x, t):
        return True
    ts = t if builtins.isinstance(t, tuple) else (t,)
    if CONTAINERS:
        ts = tuple(builtins.dict(_plain).get(u, u) if builtins.isinstance(u, type) else u for u in ts)
        if builtins.isinstance(x, ts):
            return True
    if DetObject in ts:
        return True
    for u in ts:
        if builtins.isinstance(u, tuple):
            if sx_isinstance(x, u):
                return True
        elif u is int:
            if builtins.isinstance(x, vals.SYMBOLIC_INTS) or builtins.isinstance(x, vals.SymBool):
                return True
        elif u is bool:
            if builtins.isinstance(x, vals.SymBool):
                return True
        elif u is str:
            if builtins.isinstance(x, (SymStr, SymChar, SymWord, SymLine)):
                return True
        elif u is dict:
            if builtins.isinstance(x, vals.SymGraph) or (builtins.isinstance(x, vals.SymNbrs) and x._g.kind == "dict"):
                return True
        elif u in (set, list, tuple, frozenset):
            if builtins.isinstance(x, vals.SymNbrs) and x._g.kind == u.__name__:
                return True
    return False


def sx_ord(c):
    if builtins.isinstance(c, SymChar):
        return c.z
    return builtins.ord(c)


class _IntMeta(type(int)):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, int)


def sx_int(*a):
    """int(word) stays symbolic."""
    if len(a) == 1 and builtins.isinstance(a[0], SymWord):
        if a[0].name:
            raise ValueError("invalid literal for int()")
        return a[0].z
    return builtins.int(*a)


def _merged(plain, less):
    """min or max; of symbolic integers, one term instead of a decision per comparison."""
    def f(*a, **k):
        if k or not a:
            return plain(*a, **k)
        xs = a
        if len(a) == 1:
            xs = a = (builtins.list(a[0]),)
            xs = a[0]
        if len(xs) > 1 and any(builtins.isinstance(x, vals.SymInt) for x in xs) \
                and all(builtins.isinstance(x, vals.SymInt) or type(x) is int for x in xs):
            import z3
            r = vals.zint(xs[0])
            for x in xs[1:]:
                x = vals.zint(x)
                r = z3.If(less(x, r), x, r)
            return vals.mkint(r)
        if len(xs) > 1 and any(builtins.isinstance(x, vals.BVInt) for x in xs) \
                and all(builtins.isinstance(x, vals.BVInt) or type(x) is int for x in xs):
            import z3
            bs = [vals.BVInt.of(x) for x in xs]
            lo, hi = plain(b[1] for b in bs), plain(b[2] for b in bs)
            w = max(b[0].size() for b in bs)
            ts = [vals.BVInt.ext(b[0], w) for b in bs]
            r = ts[0]
            for x in ts[1:]:
                r = z3.If(less(x, r), x, r)
            return vals.BVInt.make(r, lo, hi)
        if len(xs) > 1 and any(type(x) is vals.SymReal for x in xs):
            import z3
            ts = [vals.SymReal.of(x) for x in xs]
            if all(t is not None for t in ts):
                r = ts[0]
                for x in ts[1:]:
                    r = z3.If(less(x, r), x, r)
                return vals.SymReal(z3.simplify(r))
        return plain(*a)
    return f


_SPEC = re.compile(r"%(?:%|[-+ #0]*\d*(?:\.\d+)?[a-zA-Z])")


def sx_mod(f, x):
    """text % values with symbolic reals among the values"""
    args = x if builtins.isinstance(x, tuple) else (x,)
    if not any(builtins.isinstance(a, vals.SymReal) for a in args) or not vals.FORMAT:
        return f % x
    out, at, args = "", 0, builtins.list(args)
    for m in _SPEC.finditer(f):
        out += f[at:m.start()]
        at = m.end()
        if m.group() == "%%":
            out += "%"
            continue
        a = args.pop(0)
        t = vals.FORMAT[0](a, m.group()[1:]) if builtins.isinstance(a, vals.SymReal) else m.group() % (a,)
        out = t if out == "" else out + t
    return out + f[at:] if f[at:] else out


sx_min = _merged(min, lambda x, r: x < r)
sx_max = _merged(max, lambda x, r: x > r)

OVERRIDES = dict(min=sx_min, max=sx_max, isinstance=sx_isinstance, id=det_id, object=DetObject, ord=sx_ord)


CONTAINERS = False          # set before the first instrumented module is loaded
_plain = []


def use_containers():
    global CONTAINERS
    from . import containers as C
    CONTAINERS = vals.CONST_HASH = True
    _plain[:] = [(C.SxDict, dict), (C.SxSet, set), (C.SxFrozen, frozenset)]


def _builtins():
    b = dict(vars(builtins))
    b.update(OVERRIDES)
    if CONTAINERS:
        from . import containers as C
        b.update(dict=C.SxDict, set=C.SxSet, frozenset=C.SxFrozen, __sx_dict__=C.SxDict, __sx_set__=C.SxSet)
    b["__sx_not__"] = vals.sym_not
    b["__sx_in__"] = sx_in
    b["__sx_plain__"] = sx_plain
    b["__sx_int__"] = sx_int
    b["__sx_mod__"] = sx_mod
    b["__sx_fmt__"] = sx_fmt
    b["__sx_msg__"] = sx_msg
    return b


class SymLoader:
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        tree = (Containers if CONTAINERS else Rewrite)().visit(ast.parse(src, self.path))
        ast.fix_missing_locations(tree)
        module.__dict__["__builtins__"] = _builtins()
        _execute(module, compile(tree, self.path, "exec", dont_inherit=True))


class SymFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != SYM and not name.startswith(SYM + "."):
            return None
        rel = name.split(".")[1:]
        base = os.path.join(REPO, "pads", *rel)
        if not rel or os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            if os.path.exists(init):
                spec = importlib.util.spec_from_file_location(name, init, loader=SymLoader(init),
                                                              submodule_search_locations=[base])
            else:
                spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
                spec.submodule_search_locations = [base]
            return spec
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=SymLoader(f))
        return None


def install():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if SymFinder not in sys.meta_path:
        sys.meta_path.insert(0, SymFinder)


def module(name, symbolic):
    return importlib.import_module((SYM if symbolic else "pads") + "." + name)
