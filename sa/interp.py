"""Abstract interpretation of the package to value terms (gated SSA form).

The source is read from /repo on every run, parsed with ast and interpreted over
symbolic values: branches on undecided conditions are both followed and merged with
`ite`, loops are summarized by phi terms with an initial and a next value (closed
forms where the recurrence has one), every package function is inlined, numpy and the
parallel libraries are modelled.  No code of the repository is executed.
"""
import ast
import os
from collections import OrderedDict
from fractions import Fraction

from . import terms as tm
from .order import Facts, NOFACTS, assume, decide, facts, le0, nonneg, pos
from .terms import *

UNDEF = mk("undef", (), None)


class Unsupported(Exception):
    def __init__(self, msg, src=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.src = src


# ---------------------------------------------------------------- values
class Value:
    pass


class Ref(Value):
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __eq__(self, o):
        return isinstance(o, Ref) and o.loc == self.loc

    def __hash__(self):
        return hash(("ref", self.loc))

    def __repr__(self):
        return "Ref(%s)" % self.loc


class View(Value):
    __slots__ = ("loc", "path")

    def __init__(self, loc, path):
        self.loc = loc
        self.path = tuple(path)

    def __eq__(self, o):
        return isinstance(o, View) and o.loc == self.loc and o.path == self.path

    def __hash__(self):
        return hash(("view", self.loc, self.path))

    def __repr__(self):
        return "View(%s,%s)" % (self.loc, self.path)


class Tup(Value):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __hash__(self):
        return hash(("tup", self.items))

    def __repr__(self):
        return "Tup%s" % (self.items,)


class PSet(Tup):
    pass


class Star(Value):
    """*value of unknown length inside an argument list."""

    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value

    def __eq__(self, o):
        return isinstance(o, Star) and o.value == self.value

    def __hash__(self):
        return hash(("star", self.value))


class Fn(Value):
    def __init__(self, node, env, module, name, defaults, kwdefaults, loc):
        self.node, self.env, self.module, self.name = node, env, module, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.loc = loc
        self.owner = None
        self.doc = None

    def __repr__(self):
        return "<Fn %s>" % self.name


class Ext(Value):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))

    def __repr__(self):
        return "Ext(%s)" % self.name


class Bound(Value):
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __eq__(self, o):
        return isinstance(o, Bound) and o.obj == self.obj and o.name == self.name

    def __hash__(self):
        return hash(("bound", self.name))


class Mod(Value):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<Mod %s>" % self.name


class Cls(Value):
    def __init__(self, name, bases, env, module, node):
        self.name, self.bases, self.env, self.module, self.node = name, bases, env, module, node

    def __repr__(self):
        return "<Cls %s>" % self.name


class Choice(Value):
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __eq__(self, o):
        return isinstance(o, Choice) and (o.cond, o.a, o.b) == (self.cond, self.a, self.b)

    def __hash__(self):
        return hash(("choice", self.cond))

    def __repr__(self):
        return "Choice(%s,%s,%s)" % (self.cond, self.a, self.b)


class UFn(Value):
    """A callable supplied by the caller (objective, gradient, callback)."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, UFn) and o.name == self.name

    def __hash__(self):
        return hash(("ufn", self.name))

    def __repr__(self):
        return "UFn(%s)" % self.name


class Iterable(Value):
    """Abstract iterable: count term and element getter."""

    def __init__(self, count, get, kind="iter"):
        self.count, self.get, self.kind = count, get, kind


class Gen(Value):
    """A generator expression, evaluated where it is consumed."""

    def __init__(self, node, envid, module, fname):
        self.node, self.envid, self.module, self.fname = node, envid, module, fname


class TaskList(Exception):
    """A comprehension builds deferred calls."""


def _solve_eq(e, q):
    """i such that e is i == q."""
    p = e.args[0]
    for i in (sub(q, p), add(q, p)):
        if not depends(i, q) and eq(q, i) is e:
            return i
    return None


class Super(Value):
    """super() of a method."""

    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class Delayed(Value):
    def __init__(self, fn):
        self.fn = fn


class Task(Value):
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Partial(Value):
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Obj:
    """Immutable heap cell."""

    __slots__ = ("kind", "data", "meta")

    def __init__(self, kind, data, meta=None):
        self.kind, self.data, self.meta = kind, data, meta

    def __eq__(self, o):
        return isinstance(o, Obj) and self.kind == o.kind and self.data == o.data and self.meta == o.meta

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return "Obj(%s,%s)" % (self.kind, self.data)


def Arr(t, dt="f"):
    return Obj("arr", t, dt)


class State:
    __slots__ = ("heap", "envs", "pc", "gate", "alive")

    def __init__(self):
        self.heap = {}
        self.envs = {}
        self.pc = ()
        self.gate = ()
        self.alive = True

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.pc = self.pc
        s.gate = self.gate
        s.alive = self.alive
        return s


class Event:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return "<%s %s>" % (self.kind, {k: v for k, v in self.__dict__.items() if k in ("src", "data")})

    @property
    def where(self):
        f, l, fn_ = self.src if self.src else ("?", 0, "?")
        return "%s:%s (%s)" % (f, l, fn_)


class Frame:
    def __init__(self, fn, envid, module, name):
        self.fn, self.envid, self.module, self.name = fn, envid, module, name
        self.returns = []
        self.globals_ = set()
        self.nonlocals = set()


class LoopCtx:
    def __init__(self):
        self.breaks = []
        self.continues = []
        self.returns = []


class LoopInfo:
    def __init__(self, lid):
        self.id = lid
        self.phis = {}
        self.cond = TRUE
        self.count = None
        self.exits = []
        self.pc = ()
        self.src = None
        self.kind = ""
        self.body_pc = ()
        self.end_pc = ()
        self.names = {}
        self.back = TRUE


LOOPS = {}
_lid = [0]
_loc = [0]


def new_loc():
    _loc[0] += 1
    return _loc[0]


def reset():
    pass


# ---------------------------------------------------------------- interpreter
BUILTIN_EXC = {
    "Exception", "BaseException", "ValueError", "TypeError", "KeyError", "AttributeError", "ImportError",
    "ModuleNotFoundError", "RuntimeError", "IndexError", "NotImplementedError", "AssertionError",
    "StopIteration", "ZeroDivisionError", "ArithmeticError", "LookupError", "OSError", "NameError",
    "FloatingPointError", "OverflowError", "KeyboardInterrupt", "SystemExit", "Warning", "UserWarning",
    "DeprecationWarning", "RuntimeWarning", "FileNotFoundError", "IOError", "UnicodeError",
}
EXC_PARENT = {
    "ModuleNotFoundError": "ImportError", "KeyError": "LookupError", "IndexError": "LookupError",
    "ZeroDivisionError": "ArithmeticError", "FloatingPointError": "ArithmeticError",
    "OverflowError": "ArithmeticError", "NotImplementedError": "RuntimeError", "FileNotFoundError": "OSError",
    "IOError": "OSError", "UnicodeError": "ValueError", "KeyboardInterrupt": "BaseException",
    "SystemExit": "BaseException", "UnboundLocalError": "NameError",
}


def exc_isa(name, handler):
    while name is not None:
        if name == handler:
            return True
        if name == "BaseException":
            return False
        name = EXC_PARENT.get(name, "Exception" if name != "Exception" else "BaseException")
    return False


class Interp:
    def __init__(self, root, package="stochopy"):
        self.root = root
        self.package = package
        self.modules = {}
        self.st = State()
        self.frames = []
        self.loopstack = []
        self.loopctx = []
        self.tries = []
        self.events = []
        self.origin = {}
        self.library = set()
        self.src = None
        self.funcs_seen = set()
        self.calls_seen = 0
        self.stmts_seen = 0
        self.depth = 0
        self.notes = []
        self.nenv = 0
        self.files = []
        self.asts = {}
        self.loop_hint = {}
        from . import models

        self.models = models
        self.st.heap["$rng"] = Arr(sym("rng0"))
        for g, v in (("$nfev", ZERO), ("$ncb", ZERO), ("$best", INF), ("$ngrad", ZERO), ("$ndraw", ZERO)):
            self.st.heap[g] = Arr(v)
        self.importing = False

    # ------------------------------------------------------------ modules
    def path_of(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        path, pkg = self.path_of(name)
        if path is None:
            return None
        rel = os.path.relpath(path, self.root)
        with open(path, encoding="utf-8") as f:
            text = f.read()
        tree = ast.parse(text, filename=path)
        self.files.append(rel)
        self.asts[name] = tree
        envid = "mod:" + name
        self.st.envs[envid] = {"__name__": const(name), "__file__": const(path)}
        m = Mod(name)
        m.pkg = pkg
        m.env = envid
        m.file = rel
        self.modules[name] = m
        if name.endswith("__about__"):
            # Reads the version file: executed at import only, not modelled
            self.st.envs[envid]["__version__"] = sym("version")
        else:
            fr = Frame(None, envid, m, "<module>")
            self.frames.append(fr)
            old = self.src
            self.exec_block(tree.body)
            self.src = old
            self.frames.pop()
        if "." in name:
            parent, child = name.rsplit(".", 1)
            penv = self.st.envs["mod:" + parent]
            if child not in penv or isinstance(penv[child], Mod):
                penv[child] = m
            # A name bound explicitly by the parent takes precedence afterwards; the
            # import system sets the attribute when the submodule is loaded.
            else:
                penv[child] = m
        return m

    def import_package(self):
        self.importing = True
        self.load(self.package)
        self.importing = False
        self.library = set(self.st.heap)
        self.lib_envs = {k for k in self.st.envs}
        return self.st.copy()

    # ------------------------------------------------------------ state helpers
    def where(self):
        return self.src

    def emit(self, kind, **kw):
        e = Event(
            kind,
            pc=self.st.pc,
            loops=tuple(self.loopstack),
            src=self.src,
            stack=tuple(f.name for f in self.frames),
            tries=tuple(self.tries),
            **kw,
        )
        self.events.append(e)
        return e

    def facts(self):
        return facts(self.st.pc)

    def resolve(self, c):
        if c is TRUE or c is FALSE:
            return c
        d = decide(c, self.facts())
        if d is None:
            return c
        return TRUE if d else FALSE

    def alloc(self, obj, origin=None):
        l = new_loc()
        self.st.heap[l] = obj
        if origin:
            self.origin[l] = origin
        return Ref(l)

    def new(self, t, dt=None):
        """Result of an array expression."""
        t = boxed(t)
        if t.shape == ():
            return t
        return self.alloc(Arr(t, dt or ("b" if is_bool(t) else "f")))

    def ghost(self, name):
        return self.st.heap[name].data

    def set_ghost(self, name, t):
        self.st.heap[name] = Arr(t)

    # ------------------------------------------------------------ reading values
    def read_path(self, t, path):
        for p in path:
            if p[0] == "at":
                t = at(t, p[1], p[2])
            elif p[0] == "slc":
                t = slc(t, p[1], p[2], p[3], p[4])
            elif p[0] == "expand":
                t = expand(t, p[1])
            elif p[0] == "tr":
                t = tr(t)
            elif p[0] == "msk":
                t = self.select(t, p[1])
            elif p[0] == "take":
                t = take(t, p[1], p[2])
            elif p[0] == "take2":
                t = self.take2(t, p[1])
            elif p[0] == "reshape":
                t = mk("reshape", (t, p[1]), p[1])
            else:
                raise Unsupported("index " + p[0], self.src)
        return t

    def take2(self, t, idx):
        arrs = [i for i in idx if i.shape != ()]
        n = None
        for a in arrs:
            if a.shape is None or len(a.shape) != 1:
                raise Unsupported("multi-dimensional advanced index", self.src)
            n = a.shape[0]
        k = fresh("i")
        x = t
        for i in idx:
            x = at(x, 0, at(i, 0, k) if i.shape else i)
        return mapt(n, k, x)

    def val(self, v):
        """Value term of a runtime value."""
        if isinstance(v, T):
            return v
        if isinstance(v, Ref):
            o = self.st.heap.get(v.loc)
            if o is None:
                raise Unsupported("dangling reference", self.src)
            if o.kind == "arr":
                return o.data
            if o.kind == "lst":
                if isinstance(o.data, T):
                    return o.data
                return stack(*[self.val(x) for x in o.data])
            if o.kind == "dct":
                items = []
                for k, x in o.data:
                    items.append((repr(k), self.val(x)))
                return mk("struct", tuple(items), ())
            if o.kind == "inst":
                return mk("inst", (v.loc,), ())
        if isinstance(v, View):
            return self.read_path(self.st.heap[v.loc].data, v.path)
        if isinstance(v, Tup):
            items = []
            for x in v.items:
                if isinstance(x, Star):
                    items.append(mk("starred", (self.val(x.value),), None))
                else:
                    items.append(self.val(x))
            return stack(*items)
        if isinstance(v, Choice):
            return ite(v.cond, self.val(v.a), self.val(v.b))
        if isinstance(v, Iterable):
            k = fresh("i")
            return mapt(v.count, k, self.val(v.get(k)))
        if isinstance(v, Gen):
            return self.val(self.consume_gen(v))
        if isinstance(v, (Ext, Fn, UFn, Cls, Mod, Bound, Delayed, Task, Partial)):
            return mk("pyobj", (repr(v),), ())
        raise Unsupported("value %r" % (v,), self.src)

    def dtype(self, v):
        if isinstance(v, Ref):
            o = self.st.heap[v.loc]
            return o.meta if o.kind == "arr" else "f"
        if isinstance(v, View):
            o = self.st.heap[v.loc]
            return o.meta if o.kind == "arr" else "f"
        if isinstance(v, Choice):
            a, b = self.dtype(v.a), self.dtype(v.b)
            return a if a == b else "f"
        if isinstance(v, T):
            if is_bool(v):
                return "b"
            if is_int(v) and v.op != "num":
                return "i"
            if v.op == "num":
                return "n"
        return "f"

    def dist(self, v, f):
        """Apply f to every alternative of a choice (forking the state)."""
        if isinstance(v, Choice):
            c = self.resolve(v.cond)
            if c is TRUE:
                return self.dist(v.a, f)
            if c is FALSE:
                return self.dist(v.b, f)
            return self.fork(c, lambda: self.dist(v.a, f), lambda: self.dist(v.b, f))
        return f(v)

    def fork(self, c, fa, fb):
        c = self.resolve(c)
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        s0 = self.st.copy()
        pc, gate = s0.pc, s0.gate
        self.st.pc = pc + (c,)
        self.st.gate = gate + (c,)
        n1 = self.nexits()
        va = fa()
        sa = self.st
        ea = self.nexits() != n1
        self.st = s0
        nc = bnot(c)
        self.st.pc = pc + (nc,)
        self.st.gate = gate + (nc,)
        n1 = self.nexits()
        vb = fb()
        sb = self.st
        eb = self.nexits() != n1
        return self.join(c, sa, va, ea, sb, vb, eb, pc, gate)

    def nexits(self):
        n = 0
        for f in self.frames:
            n += len(f.returns)
        for l in self.loopctx:
            n += len(l.breaks) + len(l.continues) + len(l.returns)
        for t in self.tries:
            n += len(t.excs)
        return n

    def join(self, c, sa, va, ea, sb, vb, eb, pc, gate):
        if not sa.alive and not sb.alive:
            self.st = sa
            return va
        if not sa.alive:
            self.st = sb
            if not ea:  # only raised: the negation is simply a fact from here on
                self.st.gate = gate
            return vb
        if not sb.alive:
            self.st = sa
            if not eb:
                self.st.gate = gate
            return va
        st = self.merge_states(c, sa, sb)
        ia = [x for x in sa.pc[len(pc) + 1:]]
        ib = [x for x in sb.pc[len(pc) + 1:]]
        extra = [x for x in ia if x in ib]
        # facts established on one side only stay available as implications
        nc = bnot(c)
        extra += [bor(nc, x) for x in ia if x not in ib and len(ia) <= 4]
        extra += [bor(c, x) for x in ib if x not in ia and len(ib) <= 4]
        st.pc = pc + tuple(e for e in extra if e is not TRUE)
        st.gate = gate
        # exits taken inside a branch must stay visible in the gate
        ga = [x for x in sa.gate[len(gate) + 1:]]
        gb = [x for x in sb.gate[len(gate) + 1:]]
        if ga or gb:
            g = ite(c, band(*ga) if ga else TRUE, band(*gb) if gb else TRUE)
            if g is not TRUE:
                st.gate = gate + (g,)
                st.pc = st.pc + (g,)
        self.st = st
        return self.merge(c, va, vb, st, sa, sb)

    def merge(self, c, a, b, st=None, sa=None, sb=None):
        if a is b:
            return a
        if a is None:
            a = UNDEF
        if b is None:
            b = UNDEF
        if isinstance(a, T) and isinstance(b, T):
            if b is UNDEF and a is not UNDEF:
                return ite(c, a, UNDEF)
            return ite(c, a, b)
        if type(a) is type(b) and not isinstance(a, T) and a == b:
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and type(a) is type(b) and len(a.items) == len(b.items):
            return type(a)([self.merge(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Choice) and a.cond is c:
            a = a.a
        if isinstance(b, Choice) and b.cond is c:
            b = b.b
        if isinstance(a, Choice) and a.b == b:
            return self.merge(band(c, a.cond), a.a, b)
        if isinstance(b, Choice) and b.a == a:
            return self.merge(bor(c, b.cond), a, b.b)
        if isinstance(b, Choice) and b.b == a:
            return self.merge(band(bnot(c), b.cond), b.a, a)
        if a == b:
            return a
        return Choice(c, a, b)

    def merge_obj(self, c, x, y):
        if x is y or x == y:
            return x
        if x is None or y is None:
            return x or y
        if x.kind == y.kind == "arr":
            return Obj("arr", self.merge(c, x.data, y.data), x.meta if x.meta == y.meta else "f")
        if x.kind == y.kind == "lst":
            if not isinstance(x.data, T) and not isinstance(y.data, T) and len(x.data) == len(y.data):
                return Obj("lst", tuple(self.merge(c, p, q) for p, q in zip(x.data, y.data)), x.meta)
            xt = x.data if isinstance(x.data, T) else stack(*[self.val(i) for i in x.data])
            yt = y.data if isinstance(y.data, T) else stack(*[self.val(i) for i in y.data])
            return Obj("lst", ite(c, xt, yt), x.meta)
        if x.kind == y.kind and x.kind in ("dct", "inst"):
            kx, ky = dict(x.data), dict(y.data)
            out = []
            for k in list(kx) + [k for k in ky if k not in kx]:
                out.append((k, self.merge(c, kx.get(k, UNDEF), ky.get(k, UNDEF))))
            return Obj(x.kind, tuple(out), x.meta)
        raise Unsupported("merge of %s and %s" % (x.kind, y.kind), self.src)

    def merge_states(self, c, sa, sb):
        st = State()
        for k in list(sa.heap) + [k for k in sb.heap if k not in sa.heap]:
            x, y = sa.heap.get(k), sb.heap.get(k)
            st.heap[k] = x if x is y else self.merge_obj(c, x, y)
        for e in list(sa.envs) + [k for k in sb.envs if k not in sa.envs]:
            x, y = sa.envs.get(e), sb.envs.get(e)
            if x is None or y is None:
                st.envs[e] = dict(x or y)
                continue
            d = {}
            for k in list(x) + [k for k in y if k not in x]:
                p, q = x.get(k), y.get(k)
                d[k] = p if p is q else self.merge(c, p, q)
            st.envs[e] = d
        return st

    # ------------------------------------------------------------ truth
    def truth(self, v):
        """Boolean term for the truth value of v."""
        if isinstance(v, T):
            if is_bool(v):
                if v.shape not in ((), None):
                    if all(d is ONE for d in v.shape):
                        while v.shape:
                            v = at(v, 0, ZERO)
                        return v
                    return mk("truth", (v,), ())
                return v
            if v.op == "num":
                return boolc(v.args[0] != 0)
            if v.op == "const":
                return boolc(bool(v.args[1]))
            if v is UNDEF:
                return mk("bsym", ("undef",), ())
            if v.op == "ite" and v.shape == ():
                return ite(v.args[0], self.truth(v.args[1]), self.truth(v.args[2]))
            if v.op == "sym" and v.args[0].startswith("opt:"):
                return mk("truth", (v,), ())
            if is_numeric(v) and v.shape == ():
                return bnot(eq(v, ZERO))
            return mk("truth", (v,), ())
        if isinstance(v, Ref):
            o = self.st.heap[v.loc]
            if o.kind == "lst" and not isinstance(o.data, T):
                return boolc(len(o.data) > 0)
            if o.kind == "lst":
                return lt(ZERO, dim(o.data))
            if o.kind == "dct":
                if o.meta and o.meta[0] == "opaque":
                    return mk("truth", (sym("obj%s" % v.loc),), ())
                return boolc(len(o.data) > 0)
            if o.kind == "inst":
                return TRUE
            return self.truth(o.data)
        if isinstance(v, View):
            return self.truth(self.val(v))
        if isinstance(v, Tup):
            if any(isinstance(x, Star) for x in v.items):
                return mk("bsym", ("startruth",), ())
            return boolc(len(v.items) > 0)
        if isinstance(v, Choice):
            return ite(v.cond, self.truth(v.a), self.truth(v.b))
        if isinstance(v, (Fn, UFn, Ext, Bound, Cls, Mod, Delayed, Partial)):
            return TRUE
        if isinstance(v, Iterable):
            return lt(ZERO, v.count)
        raise Unsupported("truth of %r" % (v,), self.src)

    def isnone(self, v):
        if isinstance(v, T):
            return isnone(v)
        if isinstance(v, Choice):
            return ite(v.cond, self.isnone(v.a), self.isnone(v.b))
        return FALSE

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if not self.st.alive:
                return
            self.exec(s)

    def exec(self, s):
        self.stmts_seen += 1
        fr = self.frames[-1]
        self.src = (fr.module.file, s.lineno, fr.name)
        tm.CUR_SRC[0] = self.src
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__, self.src)
        m(s)

    def x_Expr(self, s):
        self.ev(s.value)

    def x_Pass(self, s):
        pass

    def x_Global(self, s):
        self.frames[-1].globals_ |= set(s.names)

    def x_Nonlocal(self, s):
        self.frames[-1].nonlocals |= set(s.names)

    def x_Import(self, s):
        for a in s.names:
            if a.name.split(".")[0] == self.package:
                m = self.load(a.name)
                self.bind(a.asname or a.name.split(".")[0], m if a.asname else self.modules[self.package])
            else:
                self.bind(a.asname or a.name.split(".")[0], Ext(a.name if a.asname else a.name.split(".")[0]))

    def x_ImportFrom(self, s):
        fr = self.frames[-1]
        if s.level:
            base = fr.module.name if fr.module.pkg else fr.module.name.rsplit(".", 1)[0]
            for _ in range(s.level - 1):
                base = base.rsplit(".", 1)[0]
            name = base + ("." + s.module if s.module else "")
        else:
            name = s.module
        if name.split(".")[0] != self.package:
            for a in s.names:
                self.bind(a.asname or a.name, Ext(name + "." + a.name))
            return
        m = self.load(name)
        if m is None:
            raise Unsupported("module %s not found" % name, self.src)
        for a in s.names:
            env = self.st.envs[m.env]
            if a.name == "*":
                names = env.get("__all__")
                if names is not None:
                    names = [cval(x) for x in self.seq(names)]
                else:
                    names = [k for k in env if not k.startswith("_")]
                for n in names:
                    self.bind(n, env[n])
                continue
            if a.name not in env:
                sub_ = self.load(name + "." + a.name)
                if sub_ is None:
                    raise Unsupported("name %s not in %s" % (a.name, name), self.src)
                self.bind(a.asname or a.name, sub_)
                continue
            self.bind(a.asname or a.name, env[a.name])

    def seq(self, v):
        """Concrete list of elements."""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            o = self.st.heap[v.loc]
            if o.kind == "lst" and not isinstance(o.data, T):
                return list(o.data)
        return None

    def x_FunctionDef(self, s):
        f = self.make_fn(s)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            v = self.call(dv, [v], {}, s)
        self.bind(s.name, v)

    def make_fn(self, s, name=None):
        fr = self.frames[-1]
        a = s.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.ev(d)
        r = self.alloc(Obj("inst", (), ("function",)))
        f = Fn(s, fr.envid, fr.module, name or s.name, defaults, kwd, r.loc)
        self.capture(fr.envid)
        return f

    captured = set()

    def capture(self, envid):
        while envid is not None:
            self.captured.add(envid)
            envid = self.env_parent.get(envid)

    def x_ClassDef(self, s):
        fr = self.frames[-1]
        bases = [self.ev(b) for b in s.bases]
        self.nenv += 1
        envid = "cls:%s:%d" % (s.name, self.nenv)
        self.st.envs[envid] = {}
        cfr = Frame(None, envid, fr.module, s.name)
        cfr.is_class = True
        cfr.parent = fr.envid
        self.frames.append(cfr)
        self.env_parent[envid] = fr.envid
        self.exec_block(s.body)
        self.frames.pop()
        c = Cls(s.name, bases, envid, fr.module, s)
        for v in self.st.envs[envid].values():
            if isinstance(v, Fn):
                v.owner = c
        for d in reversed(s.decorator_list):
            raise Unsupported("class decorator", self.src)
        self.bind(s.name, c)

    env_parent = {}

    def x_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        if not self.st.alive:
            return
        fr = self.frames[-1]
        self.do_return(fr, v)

    def do_return(self, fr, v):
        if self.loopctx and self.loopctx[-1].frame is fr:
            self.loopctx[-1].returns.append((self.st, v))
        else:
            fr.returns.append((self.st, v))
        self.kill()

    def kill(self):
        s = self.st.copy()
        s.alive = False
        self.st = s

    def x_Break(self, s):
        self.loopctx[-1].breaks.append(self.st)
        self.kill()

    def x_Continue(self, s):
        self.loopctx[-1].continues.append(self.st)
        self.kill()

    def x_Raise(self, s):
        name, args = "Exception", None
        if s.exc is None:
            name = "<reraise>"
            if self.cur_exc:
                name = self.cur_exc[-1]
            self.raise_(name, None, reraise=True)
            return
        e = s.exc
        v = None
        if isinstance(e, ast.Call):
            f = self.ev(e.func)
            v = [self.ev(a) for a in e.args]
            name = f.name.split(".")[-1] if isinstance(f, (Ext, Cls)) else "Exception"
        else:
            f = self.ev(e)
            if isinstance(f, (Ext, Cls)):
                name = f.name.split(".")[-1]
            elif isinstance(f, Ref):
                o = self.st.heap[f.loc]
                name = o.meta[1] if o.meta and o.meta[0] == "exc" else "Exception"
        self.raise_(name, v)

    cur_exc = []

    def raise_(self, name, value, reraise=False, implicit=False):
        if not self.st.alive:
            return
        for t in reversed(self.tries):
            if t.active and any(any(exc_isa(name, h) for h in hs) for hs in t.types):
                t.excs.append((self.st, name, value))
                self.kill()
                return
        self.emit("raise", exc=name, value=value, implicit=implicit, reraise=reraise,
                  before=(self.ghost("$nfev"), self.ghost("$ncb")))
        self.kill()

    def x_Assert(self, s):
        c = self.truth(self.ev(s.test))
        self.branch(c, lambda: None, lambda: self.raise_("AssertionError", None))

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env = self.st.envs[self.frames[-1].envid]
                env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev(t.slice)
                self.del_item(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                self.del_attr(o, t.attr)

    def del_item(self, o, k, raw=False):
        if isinstance(o, Ref) and self.st.heap[o.loc].kind == "dct" and isinstance(k, T) and is_const(k):
            ob = self.st.heap[o.loc]
            if not raw and ob.meta and ob.meta[0] == "inst":
                f, ok = self.models.cls_lookup(self, ob.meta[1], "__delitem__")
                if ok and isinstance(f, Fn):
                    self.call(f, [o, k], {})
                    return
            key = cval(k)
            self.write_event(o.loc, "del", k)
            if key not in dict(ob.data):
                self.raise_("KeyError", [k], implicit=True)
                return
            self.st.heap[o.loc] = Obj("dct", tuple((a, b) for a, b in ob.data if a != key), ob.meta)
            return
        raise Unsupported("del", self.src)

    def del_attr(self, o, name):
        self.models.delattr_(self, o, name)

    def branch(self, c, fa, fb):
        self.fork(c, lambda: (fa(), NONE)[1], lambda: (fb(), NONE)[1])

    def x_If(self, s):
        c = self.truth(self.ev(s.test))
        if not self.st.alive:
            return
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def x_With(self, s):
        closers = []
        for it in s.items:
            v = self.ev(it.context_expr)
            e = self.enter(v, s)
            closers.append((v, e))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, e)
        self.exec_block(s.body)
        for v, e in reversed(closers):
            if self.st.alive:
                self.exit(v, e, s)

    def enter(self, v, node):
        return self.models.enter(self, v, node)

    def exit(self, v, e, node):
        return self.models.exit_(self, v, e, node)

    def x_Try(self, s):
        t = TryCtx()
        t.node = s
        t.types = []
        t.reraises = []
        for h in s.handlers:
            t.types.append(self.handler_types(h))
            t.reraises.append(any(isinstance(x, ast.Raise) and x.exc is None for x in ast.walk(h)))
        t.has_finally = bool(s.finalbody)
        s0 = self.st.copy()
        self.tries.append(t)
        only_import = all(isinstance(x, (ast.Import, ast.ImportFrom)) for x in s.body)
        self.exec_block(s.body)
        t.active = False
        self.tries.pop()
        pc, gate = s0.pc, s0.gate
        outs = []
        base = len(gate)
        if self.st.alive:
            self.exec_block(s.orelse)
            if self.st.alive:
                outs.append(self.st)
        normal = list(outs)
        hs = []
        excs = list(t.excs)
        if only_import and s.handlers:
            c = mk("bsym", ("importfail:%s" % (self.src,),), ())
            st = s0.copy()
            st.pc = pc + (c,)
            st.gate = gate + (c,)
            excs.append((st, "ImportError", None))
            for o in outs:
                o.pc = o.pc + (bnot(c),)
                o.gate = o.gate + (bnot(c),)
        for st, name, val in excs:
            for h, types in zip(s.handlers, t.types):
                if any(exc_isa(name, x) for x in types):
                    self.st = st
                    if h.name:
                        self.bind(h.name, self.alloc(Obj("inst", (), ("exc", name))))
                    Interp.cur_exc.append(name)
                    self.exec_block(h.body)
                    Interp.cur_exc.pop()
                    if self.st.alive:
                        outs.append(self.st)
                    break
        if not outs:
            self.st = s0.copy()
            self.st.alive = False
        else:
            acc = outs[-1]
            for st in reversed(outs[:-1]):
                c = band(*st.gate[base:]) if len(st.gate) > base else TRUE
                if c is TRUE:
                    acc = st
                else:
                    acc2 = self.merge_states(c, st, acc)
                    acc2.pc, acc2.gate = pc, gate
                    acc = acc2
            if len(outs) == 1 and not any(True for e in t.excs):
                acc.gate = gate if only_import else acc.gate
            self.st = acc
        if s.finalbody:
            if self.st.alive:
                self.exec_block(s.finalbody)

    def handler_types(self, h):
        if h.type is None:
            return ["BaseException"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for x in ts:
            v = self.ev(x)
            out.append(v.name.split(".")[-1] if isinstance(v, (Ext, Cls)) else "BaseException")
        return out

    # ------------------------------------------------------------ assignment
    def bind(self, name, v):
        fr = self.frames[-1]
        if name in fr.globals_:
            self.emit("global_write", name=name)
            self.st.envs[fr.module.env][name] = v
            return
        if name in fr.nonlocals:
            e = self.env_parent.get(fr.envid)
            while e is not None:
                if name in self.st.envs[e]:
                    self.st.envs[e][name] = v
                    return
                e = self.env_parent.get(e)
        self.st.envs[fr.envid][name] = v

    def x_Assign(self, s):
        v = self.ev(s.value)
        if not self.st.alive:
            return
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, n, star)
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            ix = self.index(t.slice)
            if self.st.alive:
                self.setitem(o, ix, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        else:
            raise Unsupported("assignment target", self.src)

    def unpack(self, v, n, star=()):
        if isinstance(v, Choice):
            a, b = self.unpack(v.a, n, star), self.unpack(v.b, n, star)
            return [self.merge(v.cond, x, y) for x, y in zip(a, b)]
        s = self.seq(v)
        if s is not None:
            if star:
                k = star[0]
                m = len(s) - (n - 1)
                s = s[:k] + [self.alloc(Obj("lst", tuple(s[k:k + m])))] + s[k + m:]
            if len(s) != n:
                self.raise_("ValueError", None, implicit=True)
                return [UNDEF] * n
            return s
        if star:
            raise Unsupported("starred unpacking", self.src)
        if isinstance(v, (Ref, View, T)):
            try:
                t = self.val(v)
            except Unsupported:
                t = None
            if isinstance(t, T) and t.shape is not None and (not t.shape or decide(eq(t.shape[0], num(n)), self.facts()) is False):
                self.raise_("ValueError" if t.shape else "TypeError", None, implicit=True)
                return [UNDEF] * n
        if isinstance(v, (Ref, View)):
            return [self.getitem(v, [("i", num(k))]) for k in range(n)]
        if isinstance(v, T) and v.shape is not None and len(v.shape) >= 1:
            return [at(v, 0, num(k)) for k in range(n)]
        if isinstance(v, Iterable):
            return [v.get(num(k)) for k in range(n)]
        raise Unsupported("unpacking %r" % (v,), self.src)

    def x_AugAssign(self, s):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id)
            v = self.ev(s.value)
            new = self.inplace(op, cur, v)
            if new is not cur:
                self.bind(s.target.id, new)
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value)
            ix = self.index(s.target.slice)
            v = self.ev(s.value)
            cur = self.getitem(o, ix)
            if isinstance(cur, T):
                self.setitem(o, ix, self.binop(op, cur, v))
            else:
                new = self.binop(op, cur, v)
                self.setitem(o, ix, new)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value)
            v = self.ev(s.value)
            cur = self.getattr(o, s.target.attr)
            if isinstance(cur, T):
                self.setattr(o, s.target.attr, self.binop(op, cur, v))
            else:
                self.setattr(o, s.target.attr, self.inplace(op, cur, v))

    def inplace(self, op, cur, v):
        if isinstance(cur, Choice):
            out = self.dist(cur, lambda x: self.inplace(op, x, v))
            return out if out != cur else cur
        if isinstance(cur, (Ref, View)):
            o = self.st.heap[cur.loc]
            if o.kind == "lst":
                if op == "Add":
                    self.list_extend(cur, v)
                    return cur
                return self.binop(op, cur, v)
            if o.kind == "arr":
                if self.val(cur).shape == ():
                    return self.binop(op, cur, v)
                t = self.val(self.binop(op, cur, v))
                self.write(cur, (), t, dt=self.res_dtype(op, cur, v))
                return cur
            if o.kind == "dct":
                self.models.dict_update(self, cur, v)
                return cur
        return self.binop(op, cur, v)

    def res_dtype(self, op, a, b):
        da, db = self.dtype(a), self.dtype(b)
        if op in ("Div", "Pow"):
            return "f"
        if "f" in (da, db) or "?" in (da, db):
            return "f"
        return da

    def write_event(self, loc, path, value):
        self.emit("write", loc=loc, origin=self.origin.get(loc), path=path, value=value,
                  lib=(loc in self.library))

    def write(self, target, path, v, dt=None):
        """In place write of term v at target[path]."""
        if isinstance(target, View):
            path = tuple(target.path) + tuple(path)
            loc = target.loc
        else:
            loc = target.loc
        o = self.st.heap[loc]
        self.write_event(loc, path, v)
        if o.kind == "arr" and o.meta in ("i", "b", "?") and dt == "f" and not is_int(v):
            self.emit("lossy", loc=loc, value=v, dt=o.meta)
        data = o.data
        if o.kind == "lst" and not isinstance(data, T):
            data = self.val(Ref(loc))
        self.st.heap[loc] = Obj(o.kind, self.wr(data, tuple(path), v), o.meta)

    def wr(self, A, path, v):
        if not path:
            if A.shape is not None and v.shape is not None and len(v.shape) < len(A.shape):
                return bcast_to(v, A.shape)
            return v
        p, rest = path[0], path[1:]
        if p[0] == "at":
            return sto(A, p[1], p[2], self.wr(at(A, p[1], p[2]), rest, v) if rest else v)
        if p[0] == "slc":
            _, ax, lo, n, step = p
            sub_ = self.wr(slc(A, ax, lo, n, step), rest, v) if rest else v
            return stos(A, ax, lo, n, step, sub_)
        if p[0] == "expand":
            return at(self.wr(expand(A, p[1]), rest, v), p[1], ZERO)
        if p[0] == "tr":
            return tr(self.wr(tr(A), rest, v))
        if p[0] == "msk":
            m = p[1]
            if rest:
                raise Unsupported("index after a mask", self.src)
            w = self.spread(v, m)
            if w is None:
                return mk("mset", (A, m, v), A.shape)
            c = m
            if A.shape is not None and m.shape is not None:
                for k in range(len(A.shape) - len(m.shape)):
                    c = expand(c, len(m.shape) + k)
            return ite(c, w, A)
        if p[0] == "take":
            if rest:
                raise Unsupported("index after an index array", self.src)
            if p[1] == 0:
                return scat(A, p[2], v)
            return mk("scatx", (A, p[1], p[2], v), A.shape)
        if p[0] == "take2":
            return self.put2(A, p[1], v)
        raise Unsupported("write through " + p[0], self.src)

    def put2(self, A, idx, v):
        if len(idx) == 2 and idx[0].shape and len(idx[0].shape) == 1:
            I = idx[0]
            n = I.shape[0]
            k = fresh("i")
            if at(I, 0, k) is k and A.shape is not None and A.shape[0] is n:
                j = idx[1]
                jk = at(j, 0, k) if j.shape else j
                vk = at(v, 0, k) if v.shape else v
                return mapt(n, k, sto(at(A, 0, k), 0, jk, vk))
        return mk("put2", (A, tuple(idx), v), A.shape)

    def spread(self, v, m):
        """Full-size term w with w[m] == v."""
        if v.shape == ():
            return v
        ok = [True]

        def f(x):
            if x.op == "msel" and x.args[1] is m:
                return x.args[0]
            if x.shape == ():
                return x
            if x.op in ELEMENTWISE:
                return tm._push(x, f)
            if x.op == "full" and x.args[1].shape == ():
                return x.args[1]
            ok[0] = False
            return x

        w = f(v)
        return w if ok[0] else None

    # ------------------------------------------------------------ loops
    def x_For(self, s):
        it = self.ev(s.iter)
        if not self.st.alive:
            return
        if isinstance(it, Choice):
            self.dist(it, lambda x: (self.for_loop(s, x), NONE)[1])
            return
        self.for_loop(s, it)

    def for_loop(self, s, it):
        items = self.concrete_items(it)
        if items is not None and len(items) <= 64:
            self.unroll(s, items)
            return
        mask = self.chosen_places(it)
        if mask is not None:
            # the places where a mask holds, in order: every place is passed, those where it does not hold change nothing
            def at_place(k):
                def go():
                    self.assign(s.target, k)
                    self.exec_block(s.body)
                self.branch(self.truth(at(mask, 0, k)), go, lambda: None)

            self.run_loop(s, at_place, count=mask.shape[0], orelse=s.orelse)
            return
        it = self.iterable(it)

        def body(k):
            self.assign(s.target, it.get(k))
            self.exec_block(s.body)

        self.run_loop(s, body, count=it.count, orelse=s.orelse)

    def chosen_places(self, it):
        if isinstance(it, (Ref, View, T)):
            t = self.val(it)
            if t.op == "nonzero" and t.args[0].shape is not None and len(t.args[0].shape) == 1:
                return t.args[0]
        return None

    def concrete_items(self, it):
        s = self.seq(it)
        if s is not None:
            if any(isinstance(x, Star) for x in s):
                return None
            return s
        if isinstance(it, Ref):
            o = self.st.heap[it.loc]
            if o.kind == "dct":
                return [const(k) if not isinstance(k, (int, Fraction)) or isinstance(k, bool) else num(k) for k, v in o.data]
            if o.kind == "lst" and isinstance(o.data, T) and o.data.op == "stack":
                return list(o.data.args)
        if isinstance(it, Iterable):
            if it.kind == "concrete":
                return it.items
            if is_num(it.count) and it.count.args[0].denominator == 1 and 0 <= it.count.args[0] <= 16:
                return [it.get(num(k)) for k in range(int(it.count.args[0]))]
        if isinstance(it, (Ref, View, T)):
            t = self.val(it)
            if t.op == "const" and t.args[0] == "str":
                return [const(c) for c in t.args[1]]
            if t.shape and is_num(t.shape[0]) and t.shape[0].args[0] <= 16:
                return [self.getitem(it, [("i", num(k))]) for k in range(int(t.shape[0].args[0]))]
        return None

    def unroll(self, s, items):
        fr = self.frames[-1]
        gate, pc = self.st.gate, self.st.pc
        brk = []
        for x in items:
            if not self.st.alive:
                break
            ctx = LoopCtx()
            ctx.frame = fr
            self.loopctx.append(ctx)
            base = len(self.st.gate)
            pc0, g0 = self.st.pc, self.st.gate
            self.assign(s.target, x)
            self.exec_block(s.body)
            self.loopctx.pop()
            for st, v in ctx.returns:
                self.requeue_return(fr, st, v)
            brk += ctx.breaks
            outs = list(ctx.continues)
            if self.st.alive:
                outs.append(self.st)
            if not outs:
                self.kill()
                break
            self.st = self.merge_outs(outs, base, pc0, g0, keep_gate=bool(ctx.breaks or ctx.returns))
        outs = brk
        if self.st.alive:
            self.exec_block(s.orelse)
            if self.st.alive:
                outs = brk + [self.st]
        if brk:
            self.st = self.merge_outs(outs, len(gate), pc, gate)

    def requeue_return(self, fr, st, v):
        if self.loopctx and self.loopctx[-1].frame is fr:
            self.loopctx[-1].returns.append((st, v))
        else:
            fr.returns.append((st, v))

    def merge_outs(self, outs, base, pc, gate, keep_gate=False):
        acc = outs[-1]
        if len(outs) == 1:
            if not keep_gate:
                acc.gate = gate
            return acc
        for st in reversed(outs[:-1]):
            c = band(*st.gate[base:]) if len(st.gate) > base else TRUE
            m = self.merge_states(c, st, acc)
            m.pc, m.gate = pc, gate
            acc = m
        if keep_gate:
            g = bor(*[band(*o.gate[base:]) for o in outs])
            if g is not TRUE:
                acc.gate = gate + (g,)
                acc.pc = pc + (g,)
        return acc

    def x_While(self, s):
        def body(k):
            self.exec_block(s.body)

        self.run_loop(s, body, test=s.test, orelse=s.orelse)

    def x_AsyncFor(self, s):
        raise Unsupported("async", self.src)

    def run_loop(self, node, body, count=None, test=None, orelse=(), collect=None):
        from .loops import run_loop

        return run_loop(self, node, body, count, test, orelse, collect)

    # ------------------------------------------------------------ iteration
    def iterable(self, v):
        if isinstance(v, Iterable):
            return v
        if isinstance(v, Gen):
            return self.iterable(self.consume_gen(v))
        if isinstance(v, (Ref, View)):
            if isinstance(v, Ref) and self.st.heap[v.loc].kind == "lst":
                o = self.st.heap[v.loc]
                t = self.val(v)
                return Iterable(dim(t), lambda k: at(t, 0, k))
            t = self.val(v)
            if t.shape == ():
                raise Unsupported("iteration over a scalar", self.src)
            return Iterable(dim(t), lambda k: self.getitem(v, [("i", k)]))
        if isinstance(v, T):
            if v.shape == () and v.op not in ("sym",):
                raise Unsupported("iteration over a scalar", self.src)
            return Iterable(dim(v), lambda k: at(v, 0, k))
        s = self.seq(v)
        if s is not None:
            def get(k):
                if is_num(k):
                    return s[int(k.args[0])]
                return self.new(at(stack(*[self.val(x) for x in s]), 0, k))
            it = Iterable(num(len(s)), get, "concrete")
            it.items = s
            return it
        raise Unsupported("iteration over %r" % (v,), self.src)

    def comprehension(self, node, gens, elt):
        """List built by a comprehension: Ref to a list."""
        if len(gens) > 1:
            return self.comp_nested(node, gens, elt)
        g = gens[0]
        itv = self.ev(g.iter)
        fr = self.frames[-1]
        if isinstance(itv, Choice):
            return self.dist(itv, lambda x: self.comp1(node, g, elt, x))
        return self.comp1(node, g, elt, itv)

    def comp_scope(self):
        fr = self.frames[-1]
        self.nenv += 1
        envid = "comp:%d" % self.nenv
        self.st.envs[envid] = {}
        self.env_parent[envid] = fr.envid
        f2 = Frame(fr.fn, envid, fr.module, fr.name)
        self.frames.append(f2)
        return envid

    def end_scope(self):
        fr = self.frames.pop()
        self.drop_env(fr.envid)

    def comp1(self, node, g, elt, itv):
        items = self.concrete_items(itv)
        if items is not None:
            self.comp_scope()
            out = []
            try:
                for x in items:
                    self.assign(g.target, x)
                    cond = TRUE
                    for c in g.ifs:
                        cond = band(cond, self.resolve(self.truth(self.ev(c))))
                    cond = self.resolve(cond)
                    if cond is FALSE:
                        continue
                    if cond is not TRUE:
                        raise Unsupported("comprehension with an undecided filter", self.src)
                    out.append(self.ev(elt))
                    if not self.st.alive:
                        break
            finally:
                self.frames.pop()
            return self.alloc(Obj("lst", tuple(out)))
        it = self.iterable(itv)
        if g.ifs:
            return self.comp_filter(node, g, elt, it)
        self.comp_scope()
        res = {}

        def body(k):
            self.assign(g.target, it.get(k))
            v = self.ev(elt)
            if isinstance(v, Task) and not getattr(self, "in_pool", 0):
                raise TaskList()
            res["v"] = self.models.run_task(self, v)

        st, nev, nfr = self.st.copy(), len(self.events), len(self.frames)
        try:
            t = self.run_loop(node, body, count=it.count, collect=res)
        except TaskList:
            # a list of deferred calls: evaluated where it is handed over
            self.st = st
            del self.events[nev:]
            fr = self.frames[nfr - 2]
            self.capture(fr.envid)
            return Gen(node, fr.envid, fr.module, fr.name)
        finally:
            self.end_scope()
        return self.alloc(Obj("lst", t))

    def select(self, A, m):
        """A[m] for a boolean mask; leaving out one index is a deletion."""
        if A.shape and m.shape is not None and len(m.shape) == 1:
            q = fresh("i")
            b = at(m, 0, q)
            if b.op == "not" and b.args[0].op == "eq" and depends(b, q):
                i = _solve_eq(b.args[0], q)
                f = self.facts()
                if i is not None and decide(le(ZERO, i), f) is True and decide(lt(i, m.shape[0]), f) is True:
                    return delete(A, i, 0)
        return msel(A, m)

    def comp_filter(self, node, g, elt, it):
        """[e(x) for x in it if c(x)]: selection by a boolean mask."""
        self.comp_scope()
        res = {}

        def body(k):
            self.assign(g.target, it.get(k))
            c = TRUE
            for x in g.ifs:
                c = band(c, self.truth(self.ev(x)))
            v = self.ev(elt)
            res["v"] = Tup([c, v])

        try:
            k, v = self.run_loop(node, body, count=it.count, collect=res, )
        finally:
            self.end_scope()
        mask, vals = k, v
        return self.alloc(Obj("lst", self.select(vals, mask)))

    def comp_nested(self, node, gens, elt):
        raise Unsupported("nested comprehension", self.src)

    def consume_gen(self, g):
        fr = Frame(None, g.envid, g.module, g.fname)
        self.frames.append(fr)
        try:
            return self.comprehension(g.node, g.node.generators, g.node.elt)
        finally:
            self.frames.pop()

    # ------------------------------------------------------------ names
    def lookup(self, name):
        fr = self.frames[-1]
        e = fr.envid
        while e is not None:
            env = self.st.envs.get(e)
            if env is not None and name in env:
                v = env[name]
                if v is UNDEF:
                    break
                return self.defined(v, name)
            e = self.env_parent.get(e)
        v = self.st.envs[fr.module.env].get(name)
        if v is not None:
            return v
        if name in self.models.BUILTINS or name in BUILTIN_EXC:
            return Ext(name)
        self.raise_("NameError", [const(name)], implicit=True)
        return UNDEF

    def undef_cond(self, v, c=TRUE, d=4):
        """Condition under which a variable is still unassigned."""
        if v is UNDEF:
            return c
        if d == 0:
            return FALSE
        if isinstance(v, T):
            if v.op == "ite" and v.args[0].shape == ():
                return bor(self.undef_cond(v.args[1], band(c, v.args[0]), d - 1),
                           self.undef_cond(v.args[2], band(c, bnot(v.args[0])), d - 1))
            return FALSE
        if isinstance(v, Choice):
            return bor(self.undef_cond(v.a, band(c, v.cond), d - 1),
                       self.undef_cond(v.b, band(c, bnot(v.cond)), d - 1))
        return FALSE

    def strip_undef(self, v, d=4):
        if d == 0:
            return v
        if isinstance(v, T) and v.op == "ite" and v.args[0].shape == ():
            a, b = self.strip_undef(v.args[1], d - 1), self.strip_undef(v.args[2], d - 1)
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            return v if a is v.args[1] and b is v.args[2] else ite(v.args[0], a, b)
        if isinstance(v, Choice):
            a, b = self.strip_undef(v.a, d - 1), self.strip_undef(v.b, d - 1)
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            return v if a is v.a and b is v.b else Choice(v.cond, a, b)
        return v

    def defined(self, v, name):
        if not (isinstance(v, Choice) or isinstance(v, T) and v.op == "ite"):
            return v
        u = self.undef_cond(v)
        if u is FALSE:
            return v

        def bad():
            self.raise_("UnboundLocalError", [const(name)], implicit=True)
            return UNDEF

        return self.fork(u, bad, lambda: self.strip_undef(v))

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__, self.src)
        if hasattr(e, "lineno"):
            fr = self.frames[-1]
            self.src = (fr.module.file, e.lineno, fr.name)
            tm.CUR_SRC[0] = self.src
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is None or isinstance(v, (bool, str, bytes)) or v is Ellipsis:
            return const(v)
        if isinstance(v, (int, float)):
            return num(v)
        raise Unsupported("constant %r" % (v,), self.src)

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        return Tup(self.elts(e.elts))

    def e_List(self, e):
        return self.alloc(Obj("lst", tuple(self.elts(e.elts))))

    def e_Set(self, e):
        return PSet(self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                s = self.seq(v)
                if s is None:
                    out.append(Star(v))
                else:
                    out.extend(s)
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v)
                for a, b in self.dict_items(d):
                    items = [(p, q) for p, q in items if p != a] + [(a, b)]
                continue
            kv = self.ev(k)
            if not (isinstance(kv, T) and is_const(kv)):
                raise Unsupported("dictionary key", self.src)
            key = self.pykey(kv)
            val = self.ev(v)
            items = [(p, q) for p, q in items if p != key] + [(key, val)]
        return self.alloc(Obj("dct", tuple(items), None))

    def pykey(self, kv):
        v = cval(kv)
        if kv.op == "num" and v.denominator == 1:
            v = int(v)
        return v

    def dict_items(self, d):
        if isinstance(d, Ref) and self.st.heap[d.loc].kind == "dct":
            return list(self.st.heap[d.loc].data)
        raise Unsupported("mapping expansion of %r" % (d,), self.src)

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                parts.append(self.models.to_str(self, self.ev(x.value), x.conversion, self.ev(x.format_spec) if x.format_spec else None))
        return self.models.strcat(parts)

    def e_FormattedValue(self, e):
        return self.models.to_str(self, self.ev(e.value), e.conversion, self.ev(e.format_spec) if e.format_spec else None)

    def e_Lambda(self, e):
        return self.make_fn(e, "<lambda>")

    def e_ListComp(self, e):
        return self.comprehension(e, e.generators, e.elt)

    def e_SetComp(self, e):
        r = self.comprehension(e, e.generators, e.elt)
        s = self.seq(r)
        if s is None:
            raise Unsupported("set comprehension", self.src)
        return PSet(s)

    def e_GeneratorExp(self, e):
        fr = self.frames[-1]
        self.capture(fr.envid)
        return Gen(e, fr.envid, fr.module, fr.name)

    def e_DictComp(self, e):
        g = e.generators[0]
        if len(e.generators) > 1:
            raise Unsupported("dict comprehension", self.src)
        items = self.concrete_items(self.ev(g.iter))
        if items is None:
            raise Unsupported("dict comprehension", self.src)
        self.comp_scope()
        out = []
        try:
            for x in items:
                self.assign(g.target, x)
                c = band(*[self.truth(self.ev(i)) for i in g.ifs]) if g.ifs else TRUE
                c = self.resolve(c)
                if c is FALSE:
                    continue
                if c is not TRUE:
                    raise Unsupported("dict comprehension filter", self.src)
                k = self.pykey(self.ev(e.key))
                v = self.ev(e.value)
                out = [(a, b) for a, b in out if a != k] + [(k, v)]
        finally:
            self.end_scope()
        return self.alloc(Obj("dct", tuple(out), None))

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.fork(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(k):
            v = self.ev(e.values[k])
            if k == len(e.values) - 1 or not self.st.alive:
                return v
            c = self.truth(v)
            if isand:
                if isinstance(v, T) and is_bool(v) and v.shape == ():
                    return self.fork(c, lambda: go(k + 1), lambda: FALSE)
                return self.fork(c, lambda: go(k + 1), lambda: v)
            if isinstance(v, T) and is_bool(v) and v.shape == ():
                return self.fork(c, lambda: TRUE, lambda: go(k + 1))
            return self.fork(c, lambda: v, lambda: go(k + 1))

        return go(0)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return bnot(self.truth(v))
        t = self.val(v)
        if isinstance(e.op, ast.USub):
            return self.new(neg(t))
        if isinstance(e.op, ast.UAdd):
            return self.new(t)
        if isinstance(e.op, ast.Invert):
            return self.new(bnot(t)) if is_bool(t) else self.new(sub(num(-1), t))
        raise Unsupported("unary", self.src)

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Choice) and not self.arrayish(a) or isinstance(b, Choice) and not self.arrayish(b):
            if isinstance(a, Choice) and not self.arrayish(a):
                return self.dist(a, lambda x: self.binop(op, x, b))
            return self.dist(b, lambda x: self.binop(op, a, x))
        la, lb = self.islist(a), self.islist(b)
        if op == "Add" and la and lb:
            sa, sb = self.seq(a), self.seq(b)
            if sa is not None and sb is not None:
                if isinstance(a, Tup):
                    return Tup(sa + sb)
                return self.alloc(Obj("lst", tuple(sa + sb)))
            return self.alloc(Obj("lst", concat(self.val(a), self.val(b))))
        if op == "Mult" and (la and not lb or lb and not la) and not (isinstance(b if la else a, (Ref, View))):
            lst, n = (a, b) if la else (b, a)
            s = self.seq(lst)
            n = self.val(n)
            if s is not None and is_num(n):
                r = s * int(n.args[0])
                return Tup(r) if isinstance(lst, Tup) else self.alloc(Obj("lst", tuple(r)))
            if s is not None and len(s) == 1:
                k = fresh("i")
                return self.alloc(Obj("lst", mapt(n, k, self.val(s[0]))))
            raise Unsupported("sequence repetition", self.src)
        if self.models.is_str(a):
            if op in ("Add",):
                bv = self.val(b)
                if not self.models.is_str(bv) and bv.op != "ite":
                    self.raise_("TypeError", None, implicit=True)
                    return UNDEF
                return self.models.strcat([a, bv])
            if op == "Mod":
                if a.op == "const":
                    r = self.models.percent_str(self, a.args[1], b)
                    if r is not None:
                        return r
                return mk("strfmt", (a, self.val(b)), ())
            if op == "Mult" and a.op == "const" and isinstance(b, T) and is_num(b):
                return const(a.args[1] * int(b.args[0]))
        if isinstance(a, PSet) or isinstance(b, PSet):
            raise Unsupported("set operation", self.src)
        x, y = self.val(a), self.val(b)
        return self.new(self.arith(op, x, y))

    def arrayish(self, v):
        if isinstance(v, Choice):
            return self.arrayish(v.a) and self.arrayish(v.b)
        if isinstance(v, Ref):
            return self.st.heap[v.loc].kind == "arr"
        if isinstance(v, View):
            return True
        return isinstance(v, T) and v is not NONE

    def islist(self, v):
        if isinstance(v, Tup):
            return True
        return isinstance(v, Ref) and self.st.heap[v.loc].kind == "lst"

    def arith(self, op, x, y):
        for t in (x, y):
            if t.op == "const" and t.args[0] in ("NoneType", "str"):
                self.raise_("TypeError", None, implicit=True)
                return UNDEF
        if op == "Add":
            if is_bool(x) and is_bool(y):
                return bor(x, y) if x.shape or y.shape else add(x, y)
            return add(x, y)
        if op == "Sub":
            return sub(x, y)
        if op == "Mult":
            if is_bool(x) and is_bool(y):
                return band(x, y)
            return mul2(x, y)
        if op == "Div":
            return div(x, y)
        if op == "FloorDiv":
            return fn("floor", div(x, y))
        if op == "Mod":
            return fn("mod", x, y)
        if op == "Pow":
            return power(x, y)
        if op == "MatMult":
            return dot(x, y)
        if op == "BitAnd" and is_bool(x) and is_bool(y):
            return band(x, y)
        if op == "BitOr" and is_bool(x) and is_bool(y):
            return bor(x, y)
        if op == "BitXor" and is_bool(x) and is_bool(y):
            return bor(band(x, bnot(y)), band(bnot(x), y))
        raise Unsupported("operator " + op, self.src)

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = TRUE
        first = True
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c)
            r = self.compare(type(op).__name__, left, right)
            if first:
                res = r
            else:
                res = band(self.truth(res), self.truth(r))
            first = False
            left = right
        if isinstance(res, T) and res.shape != ():
            return self.new(res, "b")
        return res

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            return r if op == "Is" else bnot(r)
        if op in ("In", "NotIn"):
            r = self.contains(a, b)
            return r if op == "In" else bnot(r)
        if op in ("Eq", "NotEq"):
            if isinstance(a, (Tup,)) and isinstance(b, (Tup,)):
                if len(a.items) != len(b.items):
                    r = FALSE
                else:
                    r = band(*[self.compare("Eq", x, y) for x, y in zip(a.items, b.items)])
            elif isinstance(a, (Fn, UFn, Ext, Cls, Mod)) or isinstance(b, (Fn, UFn, Ext, Cls, Mod)):
                r = self.is_(a, b)
            elif isinstance(a, Choice) and not self.arrayish(a):
                r = ite(a.cond, self.compare("Eq", a.a, b), self.compare("Eq", a.b, b))
            elif isinstance(b, Choice) and not self.arrayish(b):
                r = ite(b.cond, self.compare("Eq", a, b.a), self.compare("Eq", a, b.b))
            else:
                r = eq(self.val(a), self.val(b))
            return r if op == "Eq" else bnot(r)
        x, y = self.val(a), self.val(b)
        for t in (x, y):
            if t is NONE:
                self.raise_("TypeError", None, implicit=True)
                return UNDEF
        f = {"Lt": lt, "LtE": le, "Gt": gt, "GtE": ge}[op]
        return f(x, y)

    def is_(self, a, b):
        if isinstance(b, T) and b is NONE:
            return self.isnone(a)
        if isinstance(a, T) and a is NONE:
            return self.isnone(b)
        if isinstance(a, Choice):
            return ite(a.cond, self.is_(a.a, b), self.is_(a.b, b))
        if isinstance(b, Choice):
            return ite(b.cond, self.is_(a, b.a), self.is_(a, b.b))
        if isinstance(a, T) and isinstance(b, T):
            if a.op == "const" and b.op == "const":
                return boolc(a is b)
            return eq(a, b)
        if isinstance(a, (Fn, Cls, Mod)):
            return boolc(a is b)
        return boolc(a == b)

    def contains(self, a, b):
        if isinstance(b, Choice):
            return ite(b.cond, self.contains(a, b.a), self.contains(a, b.b))
        s = self.seq(b)
        if s is None and isinstance(b, Ref):
            o = self.st.heap[b.loc]
            if o.kind == "dct":
                s = [const(k) if not isinstance(k, int) or isinstance(k, bool) else num(k) for k, v in o.data]
        if s is not None:
            return bor(*[self.compare("Eq", a, x) for x in s]) if s else FALSE
        if isinstance(b, Iterable) and b.kind == "concrete":
            return bor(*[self.compare("Eq", a, x) for x in b.items]) if b.items else FALSE
        if isinstance(b, Iterable) and b.kind == "range":
            lo, n, step = b.info
            x = self.val(a)
            if step is ONE:
                return band(le(lo, x), lt(x, add(lo, n)))
        if isinstance(b, T) and b.op == "const" and b.args[0] == "str" and isinstance(a, T) and a.op == "const":
            return boolc(a.args[1] in b.args[1])
        if isinstance(b, Ref) or isinstance(b, T) or isinstance(b, View):
            t = self.val(b)
            if t.shape is not None and len(t.shape) == 1:
                return mem(self.val(a), t)
        raise Unsupported("membership test", self.src)

    # ------------------------------------------------------------ subscripts
    def index(self, node):
        """Index components: list of ('i', v), ('s', lo, hi, step), ('new',), ('...',)."""
        parts = node.elts if isinstance(node, ast.Tuple) else [node]
        out = []
        for p in parts:
            if isinstance(p, ast.Slice):
                f = lambda x: None if x is None else self.val(self.ev(x))
                lo, hi, st = f(p.lower), f(p.upper), f(p.step)
                lo = None if lo is NONE else lo
                hi = None if hi is NONE else hi
                st = None if st is NONE else st
                out.append(("s", lo, hi, st))
            elif isinstance(p, ast.Starred):
                raise Unsupported("starred index", self.src)
            else:
                out.extend(self.index_value(self.ev(p)))
        return out

    def index_value(self, v):
        if isinstance(v, Tup):
            out = []
            for x in v.items:
                out.extend(self.index_value(x))
            return out
        if isinstance(v, T):
            if v is NONE:
                return [("new",)]
            if v.op == "const" and v.args[1] is Ellipsis:
                return [("...",)]
            if v.op == "slice":
                lo, hi, st = [None if x is NONE else x for x in v.args]
                return [("s", lo, hi, st)]
            return [("i", v)]
        if isinstance(v, (Ref, View, Choice, Iterable, Gen)):
            return [("i", v)]
        if isinstance(v, Ext) and v.name.endswith("newaxis"):
            return [("new",)]
        raise Unsupported("index %r" % (v,), self.src)

    def slice_norm(self, n, lo, hi, step):
        """(lo, length, step) of a slice of an axis of length n."""
        f = self.facts()
        step = ONE if step is None else step
        if not is_num(step):
            raise Unsupported("symbolic slice step", self.src)

        def wrap(x):
            if x.op == "num":
                return add(n, x) if x.args[0] < 0 else x
            if decide(lt(x, ZERO), f) is True:
                return add(n, x)
            if decide(le(ZERO, x), f) is True:
                return x
            # sign unknown: negative coefficients only suggest a negative index
            return ite(lt(x, ZERO), add(n, x), x)

        if step.args[0] > 0:
            lo = ZERO if lo is None else wrap(lo)
            if hi is None:
                hi = n
            else:
                hi = wrap(hi)
                d = decide(le(hi, n), f)
                if d is not True:
                    hi = min_(hi, n)
            if decide(le(lo, hi), f) is True or lo is ZERO:
                ln = sub(hi, lo)
            else:
                ln = max_(ZERO, sub(hi, lo))
            if step is not ONE:
                ln = fn("ceil", div(ln, step))
            return lo, ln, step
        lo = sub(n, ONE) if lo is None else wrap(lo)
        if hi is None:
            hi = num(-1)
        else:
            hi = wrap(hi)
        ln = sub(lo, hi)
        s = -step.args[0]
        if s != 1:
            ln = fn("ceil", div(ln, num(s)))
        return lo, ln, step

    def to_path(self, t, comps):
        """Translate index components to a path over the term t."""
        path = []
        ax = 0
        if any(c[0] == "..." for c in comps):
            k = [i for i, c in enumerate(comps) if c[0] == "..."][0]
            used = sum(1 for c in comps if c[0] in ("i", "s"))
            r = rank(t)
            if r is None:
                raise Unsupported("ellipsis on unknown rank", self.src)
            comps = comps[:k] + [("s", None, None, None)] * (r - used) + comps[k + 1:]
        adv = [c for c in comps if c[0] == "i" and self.is_adv(c[1])]
        if len(adv) > 1:
            idx = [self.val(c[1]) for c in comps]
            if all(c[0] == "i" for c in comps):
                return [("take2", tuple(idx))]
            raise Unsupported("several index arrays", self.src)
        if len(adv) == 1 and any(c[0] == "i" and c is not adv[0] for c in comps):
            pass
        for c in comps:
            if c[0] == "new":
                path.append(("expand", ax))
                ax += 1
            elif c[0] == "s":
                cur = self.read_path(t, path)
                n = dim(cur, ax)
                lo, ln, step = self.slice_norm(n, c[1], c[2], c[3])
                if not (lo is ZERO and ln is n and step is ONE):
                    path.append(("slc", ax, lo, ln, step))
                ax += 1
            else:
                v = self.val(c[1])
                if is_bool(v) and v.shape != ():
                    if ax != 0:
                        path.append(("takemask", ax, v))
                        raise Unsupported("mask on a trailing axis", self.src)
                    path.append(("msk", v))
                    ax += 1
                elif v.shape == ():
                    if v.op == "num" and v.args[0] < 0:
                        cur = self.read_path(t, path)
                        v = add(dim(cur, ax), v)
                    elif v.op != "num" and decide(lt(v, ZERO), self.facts()) is True:
                        v = add(dim(self.read_path(t, path), ax), v)
                    path.append(("at", ax, v))
                else:
                    path.append(("take", ax, v))
                    ax += 1 if v.shape is None else len(v.shape)
        return path

    def is_adv(self, v):
        t = self.val(v)
        return t.shape != ()

    def e_Subscript(self, e):
        o = self.ev(e.value)
        ix = self.index(e.slice)
        if not self.st.alive:
            return UNDEF
        return self.getitem(o, ix)

    def getitem(self, o, ix):
        if isinstance(o, Choice) and not self.arrayish(o):
            return self.dist(o, lambda x: self.getitem(x, ix))
        if len(ix) == 1 and ix[0][0] == "i" and isinstance(ix[0][1], Choice) and not self.arrayish(ix[0][1]):
            return self.dist(ix[0][1], lambda i: self.getitem(o, [("i", i)]))
        if isinstance(o, Ref):
            ob = self.st.heap[o.loc]
            if ob.kind == "dct" and ob.meta and ob.meta[0] == "inst":
                f, ok = self.models.cls_lookup(self, ob.meta[1], "__getitem__")
                if ok and isinstance(f, Fn):
                    return self.call(f, [o, NONE if ix[0][0] == "new" else ix[0][1]], {})
            if ob.kind == "dct":
                return self.dict_get(o, NONE if ix[0][0] == "new" else ix[0][1])
            if ob.kind == "lst" and not isinstance(ob.data, T):
                return self.seq_get(list(ob.data), ix, o)
            if ob.kind == "lst":
                t = ob.data
                r = self.read_path(t, self.to_path(t, ix))
                if ix[0][0] == "s":
                    return self.alloc(Obj("lst", r))
                return self.new(r)
        if isinstance(o, Tup):
            return self.seq_get(list(o.items), ix, o)
        if isinstance(o, Iterable):
            if ix[0][0] == "i":
                return o.get(self.val(ix[0][1]))
            if o.kind == "range":
                lo0, n0, step0 = o.info
                lo, ln, st = self.slice_norm(n0, *ix[0][1:])
                return self.models.make_range(self, add(lo0, mul2(lo, step0)), ln, mul2(step0, st))
            raise Unsupported("slice of an iterable", self.src)
        if isinstance(o, Choice):
            c = self.resolve(o.cond)
            if c is TRUE:
                return self.getitem(o.a, ix)
            if c is FALSE:
                return self.getitem(o.b, ix)
            return self.merge(c, self.getitem(o.a, ix), self.getitem(o.b, ix))
        if isinstance(o, (Ref, View)):
            base = self.val(o)
            path = self.to_path(base, ix)
            t = self.read_path(base, path)
            if t.shape == () and not any(p[0] == "expand" for p in path):
                return t
            if any(p[0] in ("msk", "take", "take2") for p in path):
                return self.alloc(Arr(t, self.dtype(o)))
            full_path = tuple(o.path if isinstance(o, View) else ()) + tuple(path)
            return View(o.loc, full_path)
        if isinstance(o, T):
            if o.op == "const" and o.args[0] == "str":
                i = ix[0]
                if i[0] == "i" and is_num(self.val(i[1])):
                    return const(o.args[1][int(self.val(i[1]).args[0])])
            if o is NONE:
                self.raise_("TypeError", None, implicit=True)
                return UNDEF
            return self.new(self.read_path(o, self.to_path(o, ix)))
        if isinstance(o, Mod) or isinstance(o, Ext):
            return Ext("%s[]" % getattr(o, "name", "?"))
        raise Unsupported("subscript of %r" % (o,), self.src)

    def seq_get(self, s, ix, o):
        c = ix[0]
        if len(ix) > 1:
            t = self.val(o)
            return self.new(self.read_path(t, self.to_path(t, ix)))
        if c[0] == "s":
            f = lambda x: None if x is None else int(cval(x))
            if all(x is None or is_num(x) for x in c[1:]):
                r = s[slice(f(c[1]), f(c[2]), f(c[3]))]
                return Tup(r) if isinstance(o, Tup) else self.alloc(Obj("lst", tuple(r)))
            t = self.val(o)
            return self.alloc(Obj("lst", self.read_path(t, self.to_path(t, ix))))
        i = self.val(c[1])
        if is_num(i):
            k = int(i.args[0])
            if -len(s) <= k < len(s):
                return s[k]
            self.raise_("IndexError", None, implicit=True)
            return UNDEF
        if is_bool(i) and i.shape == ():
            return self.fork(i, lambda: s[1], lambda: s[0])
        if all(isinstance(x, T) for x in s):
            return self.new(at(stack(*s), 0, i))
        # finite choice
        out = s[-1]
        for k in range(len(s) - 2, -1, -1):
            out = self.merge(eq(i, num(k)), s[k], out)
        return out

    def dict_get(self, o, key, default=None, missing="KeyError"):
        ob = self.st.heap[o.loc]
        if ob.meta and ob.meta[0] == "opaque":
            raise Unsupported("lookup in an unknown dictionary", self.src)
        k = key if isinstance(key, T) else None
        if k is None:
            raise Unsupported("dictionary key %r" % (key,), self.src)
        if is_const(k):
            pk = self.pykey(k)
            for a, b in ob.data:
                if a == pk and isinstance(a, bool) == isinstance(pk, bool):
                    return b
            if default is not None:
                return default
            if ob.meta and ob.meta[0] == "inst":
                pass
            self.raise_(missing, [k], implicit=True)
            return UNDEF
        if k.op == "ite":
            return self.fork(k.args[0], lambda: self.dict_get(o, k.args[1], default, missing),
                             lambda: self.dict_get(o, k.args[2], default, missing))
        # symbolic key: one alternative per entry
        vals = list(ob.data)
        if all(isinstance(b, T) for a, b in vals):
            keys = tuple((const(a) if not isinstance(a, int) or isinstance(a, bool) else num(a), b) for a, b in vals)
            self.emit("lookup", key=k, table=keys)
            return mk("lookup", (k, keys), ())
        # unknown key: the entries that may match
        cs = [(self.compare("Eq", k, const(a) if not isinstance(a, int) or isinstance(a, bool) else num(a)), b) for a, b in vals]

        def go(i):
            if i == len(cs):
                if default is not None:
                    return default
                self.raise_(missing, [k], implicit=True)
                return UNDEF
            return self.fork(cs[i][0], lambda: cs[i][1], lambda: go(i + 1))

        return go(0)

    def setitem(self, o, ix, v, raw=False):
        if isinstance(o, Choice):
            c = self.resolve(o.cond)
            self.fork(c, lambda: (self.setitem(o.a, ix, v), NONE)[1], lambda: (self.setitem(o.b, ix, v), NONE)[1])
            return
        if isinstance(o, Ref):
            ob = self.st.heap[o.loc]
            if ob.kind == "dct" and ob.meta and ob.meta[0] == "inst" and not raw:
                f, ok = self.models.cls_lookup(self, ob.meta[1], "__setitem__")
                if ok and isinstance(f, Fn):
                    self.call(f, [o, NONE if ix[0][0] == "new" else ix[0][1], v], {})
                    return
            if ob.kind == "dct":
                k = NONE if ix[0][0] == "new" else self.val(ix[0][1])
                if not is_const(k):
                    raise Unsupported("store under a symbolic key", self.src)
                key = self.pykey(k)
                self.write_event(o.loc, key, None)
                d = [(a, (v if a == key else b)) for a, b in ob.data]
                if key not in dict(ob.data):
                    d.append((key, v))
                self.st.heap[o.loc] = Obj("dct", tuple(d), ob.meta)
                return
            if ob.kind == "lst" and not isinstance(ob.data, T):
                i = self.val(ix[0][1]) if ix[0][0] == "i" else None
                if i is not None and is_num(i) and len(ix) == 1:
                    l = list(ob.data)
                    k = int(i.args[0])
                    if not -len(l) <= k < len(l):
                        self.raise_("IndexError", None, implicit=True)
                        return
                    l[k] = v
                    self.write_event(o.loc, k, None)
                    self.st.heap[o.loc] = Obj("lst", tuple(l), ob.meta)
                    return
                self.st.heap[o.loc] = Obj("lst", self.val(o), ob.meta)
        if isinstance(o, (Ref, View)):
            base = self.val(o)
            path = self.to_path(base, ix)
            self.write(o, path, self.val(v), dt=self.dtype(v))
            return
        if isinstance(o, T) and o is NONE or isinstance(o, Tup):
            self.raise_("TypeError", None, implicit=True)
            return
        raise Unsupported("item assignment on %r" % (o,), self.src)

    def list_extend(self, o, v):
        ob = self.st.heap[o.loc]
        s = self.seq(v)
        self.write_event(o.loc, "extend", None)
        if s is not None and not isinstance(ob.data, T):
            self.st.heap[o.loc] = Obj("lst", tuple(ob.data) + tuple(s), ob.meta)
            return
        self.st.heap[o.loc] = Obj("lst", concat(self.val(o), self.val(v)), ob.meta)

    # ------------------------------------------------------------ attributes
    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def getattr(self, o, name):
        return self.models.getattr_(self, o, name)

    def setattr(self, o, name, v):
        return self.models.setattr_(self, o, name, v)

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                s = self.seq(v)
                if s is not None:
                    args.extend(s)
                elif isinstance(v, Choice):
                    return self.dist(v, lambda x: self.call_star(e, f, args, x))
                elif isinstance(v, Gen):
                    s = self.seq(self.consume_gen(v))
                    if s is None:
                        raise Unsupported("star expansion", self.src)
                    args.extend(s)
                elif isinstance(v, Ref) and self.st.heap[v.loc].kind == "lst":
                    args.append(Star(self.val(v)))
                else:
                    t = self.val(v)
                    if t.shape and is_num(t.shape[0]) and t.shape[0].args[0] <= 16:
                        args.extend(self.concrete_items(v))
                    elif t.op == "const" or (t.op != "sym" and t.shape == ()):
                        self.raise_("TypeError", None, implicit=True)
                        return UNDEF
                    else:
                        args.append(Star(v))
            else:
                args.append(self.ev(a))
        kwargs = OrderedDict()
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if isinstance(v, Choice):
                    def go(x, kw=dict(kwargs)):
                        kw = OrderedDict(kw)
                        for a, b in self.dict_items(x):
                            kw[a] = b
                        return self.call(f, args, kw, e)
                    return self.dist(v, go)
                for a, b in self.dict_items(v):
                    if a in kwargs:
                        self.raise_("TypeError", None, implicit=True)
                        return UNDEF
                    kwargs[a] = b
            else:
                kwargs[k.arg] = v
        if not self.st.alive:
            return UNDEF
        self.src = (self.frames[-1].module.file, e.lineno, self.frames[-1].name)
        tm.CUR_SRC[0] = self.src
        return self.call(f, args, kwargs, e)

    def call_star(self, e, f, args, x):
        s = self.seq(x)
        if s is None:
            raise Unsupported("star expansion", self.src)
        return self.call(f, args + s, {}, e)

    def call(self, f, args, kwargs, node=None):
        self.calls_seen += 1
        if isinstance(f, Choice):
            return self.dist(f, lambda x: self.call(x, args, kwargs, node))
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, Partial):
            kw = OrderedDict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.fn, list(f.args) + list(args), kw, node)
        return self.models.call_model(self, f, args, kwargs, node)

    def call_fn(self, f, args, kwargs):
        self.depth += 1
        nrec = sum(1 for fr in self.frames if fr.fn is f)
        if nrec > 3 or self.depth > 80:
            self.depth -= 1
            self.emit("recursion", name=f.name)
            raise Unsupported("unbounded recursion in %s" % f.name, self.src)
        self.nenv += 1
        envid = "fn:%s:%d" % (f.name, self.nenv)
        env = {}
        self.st.envs[envid] = env
        self.env_parent[envid] = f.env
        fr = Frame(f, envid, f.module, f.name)
        self.funcs_seen.add((f.module.file, getattr(f.node, "lineno", 0), f.name))
        saved_src = self.src
        ok = self.bind_args(f, env, args, kwargs)
        if not ok:
            self.depth -= 1
            self.raise_("TypeError", [const("arguments of %s" % f.name)], implicit=True)
            return UNDEF
        gate, pc = self.st.gate, self.st.pc
        base = len(gate)
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                res = self.ev(f.node.body)
                fr.lambda_result = True
                if self.st.alive:
                    fr.returns.append((self.st, res))
            else:
                if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in self.own_nodes(f.node)):
                    raise Unsupported("generator function", self.src)
                self.exec_block(f.node.body)
                if self.st.alive:
                    fr.returns.append((self.st, NONE))
        finally:
            self.frames.pop()
            self.depth -= 1
        self.src = saved_src
        tm.CUR_SRC[0] = saved_src
        outs = fr.returns
        if not outs:
            s = self.st.copy()
            s.alive = False
            self.st = s
            return UNDEF
        st, v = outs[-1]
        if len(outs) == 1:
            if len(st.gate) > base and self.only_raised(st, base):
                st.gate = gate
            elif len(st.gate) > base:
                # other paths left through an outer exit: keep the gate
                pass
            self.st = st
            self.drop_env(envid)
            return v
        # conditions under which some path returned at all
        acc, av = st, v
        for s2, v2 in reversed(outs[:-1]):
            c = band(*s2.gate[base:]) if len(s2.gate) > base else TRUE
            if c is TRUE:
                acc, av = s2, v2
                continue
            m = self.merge_states(c, s2, acc)
            av = self.merge(c, v2, av)
            m.pc, m.gate = pc, gate
            acc = m
        # facts that hold on every path
        common = None
        for s2, _ in outs:
            extra = [x for x in s2.pc[len(pc):]]
            common = extra if common is None else [x for x in common if x in extra]
        acc.pc = pc + tuple(common or ())
        acc.gate = gate
        self.st = acc
        self.drop_env(envid)
        return av

    def only_raised(self, st, base):
        return True

    def drop_env(self, envid):
        if envid not in self.captured:
            self.st.envs.pop(envid, None)

    def own_nodes(self, fnode):
        stack_ = list(fnode.body)
        while stack_:
            n = stack_.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                continue
            stack_.extend(ast.iter_child_nodes(n))

    def bind_args(self, f, env, args, kwargs):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kwargs = OrderedDict(kwargs)
        pos_ = []
        for i, x in enumerate(args):
            if isinstance(x, Star) and len(pos_) < len(params) and not a.vararg:
                raise Unsupported("star argument of unknown length", self.src)
            pos_.append(x)
        if len(pos_) > len(params):
            if a.vararg is None:
                return False
            env[a.vararg.arg] = Tup(pos_[len(params):])
            pos_ = pos_[: len(params)]
        elif a.vararg is not None:
            env[a.vararg.arg] = Tup([])
        for p, v in zip(params, pos_):
            if isinstance(v, Star):
                raise Unsupported("star argument bound to a parameter", self.src)
            env[p] = v
        ndef = len(f.defaults)
        for i, p in enumerate(params[len(pos_):], start=len(pos_)):
            if p in kwargs:
                env[p] = kwargs.pop(p)
            else:
                k = i - (len(params) - ndef)
                if k < 0:
                    return False
                env[p] = f.defaults[k]
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                env[p.arg] = kwargs.pop(p.arg)
            elif p.arg in f.kwdefaults:
                env[p.arg] = f.kwdefaults[p.arg]
            else:
                return False
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(Obj("dct", tuple(kwargs.items()), None))
        elif kwargs:
            return False
        return True


class TryCtx:
    def __init__(self):
        self.excs = []
        self.active = True
        self.types = []
        self.reraises = []
        self.node = None
        self.has_finally = False
