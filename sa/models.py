"""Models of the builtins and libraries the package calls (numpy, joblib, mpi4py, functools)."""
from collections import OrderedDict

from . import terms as tm
from .order import decide, facts
from .terms import *
from .interp import (UNDEF, Unsupported, Ref, View, Tup, PSet, Star, Fn, Ext, Bound, Mod, Cls, Choice, UFn,
                     Iterable, Gen, Delayed, Task, Partial, Super, Obj, Arr, BUILTIN_EXC)

BUILTINS = {
    "len", "range", "zip", "enumerate", "min", "max", "sum", "any", "all", "map", "int", "float", "abs", "bool",
    "hasattr", "getattr", "setattr", "callable", "isinstance", "issubclass", "sorted", "reversed", "list", "tuple",
    "dict", "set", "frozenset", "repr", "str", "print", "open", "type", "round", "object", "super", "property",
    "staticmethod", "classmethod", "filter", "iter", "next", "id", "hash", "vars", "dir", "locals", "globals",
    "divmod", "pow", "input", "exec", "eval", "compile", "slice", "bytes", "complex", "format", "delattr",
    "NotImplemented", "__name__", "__file__", "exit", "quit",
}

PI = sym("pi", (), num(3), num(4))

ARR_METHODS = {
    "copy", "sum", "min", "max", "argmin", "argmax", "argsort", "any", "all", "mean", "dot", "astype", "reshape",
    "ravel", "flatten", "transpose", "tolist", "fill", "sort", "item", "prod", "std", "var", "clip", "nonzero",
    "squeeze", "cumsum", "round", "take", "repeat", "conj", "view", "put", "resize", "tobytes", "diagonal", "trace",
    "setflags", "ptp", "partition", "argpartition", "searchsorted", "swapaxes", "itemset", "byteswap", "real",
}
DICT_METHODS = {"update", "keys", "items", "values", "get", "pop", "copy", "setdefault", "clear", "popitem"}
LIST_METHODS = {"append", "extend", "index", "count", "insert", "pop", "copy", "sort", "reverse", "clear", "remove"}


# ---------------------------------------------------------------- context managers
def enter(I, v, node):
    if isinstance(v, Ref) and I.st.heap[v.loc].kind == "inst":
        o = I.st.heap[v.loc]
        if o.meta and o.meta[0] == "pool":
            I.emit("pool_enter", loc=v.loc, scoped=True)
        return v
    if isinstance(v, Ext) or isinstance(v, Tup):
        I.emit("extern", name="with " + str(v))
    return v


def exit_(I, v, e, node):
    if isinstance(v, Ref) and I.st.heap[v.loc].kind == "inst":
        o = I.st.heap[v.loc]
        if o.meta and o.meta[0] == "pool":
            I.emit("pool_exit", loc=v.loc)


# ---------------------------------------------------------------- strings
def to_str(I, v, conv=-1, spec=None):
    r = to_str0(I, v, conv)
    if spec is not None and spec is not const(""):
        return pad_spec(r, spec)
    return r


def pad_spec(r, spec):
    """Format specification applied to a string."""
    if r.op == "const" and spec.op == "const":
        try:
            return const(format(r.args[1], spec.args[1]))
        except ValueError:
            pass
    return mk("strfmt", (r, spec), ())


def is_str(t):
    return isinstance(t, T) and (t.op in ("strcat", "str", "strfmt", "strop") or t.op == "const" and t.args[0] == "str")


def to_str0(I, v, conv=-1):
    try:
        t = I.val(v)
    except Unsupported:
        t = mk("pyobj", (repr(v),), ())
    if is_str(t) and conv in (-1, None, 115):
        return t
    conv = {"r": 114, 97: 114, "s": -1, 115: -1, None: -1}.get(conv, conv)
    if t.op == "num" and t.args[0].denominator == 1:
        return const(str(int(t.args[0])))
    return mk("str", (t, conv), ())


PURE_STR = ("lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "split", "replace", "rjust", "ljust",
            "center", "zfill", "title", "capitalize", "count", "find", "isidentifier", "isalpha", "isdigit", "isupper", "islower",
            "casefold", "removeprefix", "removesuffix", "swapcase")


def format_str(I, text, args):
    """str.format with positional fields."""
    import string

    parts, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(text):
            if lit:
                parts.append(const(lit))
            if field is None:
                continue
            if field == "":
                i = auto
                auto += 1
            else:
                i = int(field)
            def sub_(s):
                nonlocal auto
                out = ""
                for l, f, sp, c in string.Formatter().parse(s):
                    out += l
                    if f is not None:
                        j = auto if f == "" else int(f)
                        auto += f == ""
                        v = I.val(args[j])
                        out += str(int(cval(v)) if is_num(v) else cval(v))
                return out
            spec = sub_(spec or "")
            parts.append(to_str(I, args[i], {None: -1, "r": 114, "s": 115}.get(conv, 114), const(spec)))
    except Exception:
        return None
    return strcat(parts)


def percent_str(I, text, v):
    """'...' % values"""
    import re as _re

    vals = list(v.items) if isinstance(v, Tup) else [v]
    parts, pos, k = [], 0, 0
    for m in _re.finditer(r"%(-?)(\*|\d*)([srd%])", text):
        parts.append(const(text[pos:m.start()]))
        pos = m.end()
        if m.group(3) == "%":
            parts.append(const("%"))
            continue
        w = m.group(2)
        if w == "*":
            x = I.val(vals[k])
            k += 1
            if not is_num(x):
                return None
            w = str(int(x.args[0]))
        if k >= len(vals):
            return None
        r = to_str(I, vals[k], {"s": 115, "d": 115, "r": 114}[m.group(3)])
        k += 1
        if w:
            r = pad_spec(r, const(("<" if m.group(1) else ">") + w))
        parts.append(r)
    if k != len(vals) or "%" in text[pos:]:
        return None
    parts.append(const(text[pos:]))
    return strcat([p for p in parts if p is not const("")])


def strcat(parts):
    out = []
    for p in parts:
        if p.op == "strcat":
            out.extend(p.args)
        elif p.op == "const" and p.args[0] == "str" and out and out[-1].op == "const":
            out[-1] = const(out[-1].args[1] + p.args[1])
        else:
            out.append(p)
    if not out:
        return const("")
    if len(out) == 1:
        return out[0]
    return mk("strcat", tuple(out), ())


# ---------------------------------------------------------------- attributes
def cls_lookup(I, cls, name):
    """(value, found) of a class attribute along the bases."""
    if isinstance(cls, Cls):
        env = I.st.envs.get(cls.env, {})
        if name in env:
            return env[name], True
        for b in cls.bases:
            v, ok = cls_lookup(I, b, name)
            if ok:
                return v, True
    elif isinstance(cls, Ext) and cls.name == "dict":
        if hasattr(dict, name):
            return Ext("dict." + name), True
    return None, False


def is_dict_cls(cls):
    if isinstance(cls, Ext):
        return cls.name in ("dict", "collections.OrderedDict")
    return isinstance(cls, Cls) and any(is_dict_cls(b) for b in cls.bases)


def shape_of(I, t):
    if t.shape is None:
        raise Unsupported("shape of an array of unknown rank", I.src)
    return Tup(t.shape)


def getattr_(I, o, name):
    if isinstance(o, Choice):
        if I.arrayish(o):
            t = I.val(o)
            if name == "shape":
                return fake_shape(I, t)
            if name == "ndim":
                return np_ndim(I, t)
            if name == "T":
                return I.dist(o, lambda x: getattr_(I, x, name))
            if name not in ARR_METHODS or name == "real":
                return I.dist(o, lambda x: getattr_(I, x, name))
            return Bound(o, name)
        return I.dist(o, lambda x: getattr_(I, x, name))
    if isinstance(o, Mod):
        env = I.st.envs.get(o.env, {})
        if name in env:
            return env[name]
        m = I.load(o.name + "." + name)
        if m is not None:
            return m
        I.raise_("AttributeError", [const(name)], implicit=True)
        return UNDEF
    if isinstance(o, Ext):
        full_ = o.name + "." + name
        if full_ in ("numpy.inf", "numpy.Inf", "math.inf", "numpy.infty"):
            return INF
        if full_ in ("numpy.nan", "numpy.NaN", "math.nan"):
            return NAN
        if full_ in ("numpy.pi", "math.pi"):
            return PI
        if full_ == "numpy.newaxis":
            return NONE
        if full_ in ("numpy.e", "math.e"):
            return fn("exp", ONE)
        if name == "__name__":
            return const(o.name.split(".")[-1])
        return Ext(full_)
    if isinstance(o, T) and o.op == "slice" and name in ("start", "stop", "step"):
        return o.args[("start", "stop", "step").index(name)]
    if isinstance(o, Super):
        for b in o.cls.bases:
            v, ok = cls_lookup(I, b, name)
            if ok:
                return Partial(v, [o.obj], {}) if isinstance(v, (Fn, Ext)) else v
        I.raise_("AttributeError", [const(name)], implicit=True)
        return UNDEF
    if isinstance(o, Ext) and o.name == "dict" and (name in DICT_METHODS or name.startswith("__")):
        return Ext("dict." + name)
    if isinstance(o, Ref):
        ob = I.st.heap[o.loc]
        if ob.kind == "dct":
            cls = ob.meta[1] if ob.meta and ob.meta[0] == "inst" else None
            if name == "__class__":
                return cls or Ext("dict")
            if cls is not None:
                g, ok = cls_lookup(I, cls, "__getattribute__")
                if ok and isinstance(g, Fn):
                    raise Unsupported("__getattribute__", I.src)
                v, ok = cls_lookup(I, cls, name)
                if ok:
                    if isinstance(v, Fn):
                        return Partial(v, [o], {})
                    if isinstance(v, Ext) and v.name.startswith("dict."):
                        return Bound(o, name)
                    return v
                g, ok = cls_lookup(I, cls, "__getattr__")
                if ok and isinstance(g, Fn):
                    return I.call(g, [o, const(name)], {})
                I.raise_("AttributeError", [const(name)], implicit=True)
                return UNDEF
            if name in DICT_METHODS:
                return Bound(o, name)
            I.raise_("AttributeError", [const(name)], implicit=True)
            return UNDEF
        if ob.kind == "inst":
            d = dict(ob.data)
            if name in d:
                return d[name]
            if name == "__class__" and ob.meta and isinstance(ob.meta[-1], Cls):
                return ob.meta[-1]
            if ob.meta and ob.meta[0] == "obj":
                v, ok = cls_lookup(I, ob.meta[1], name)
                if ok:
                    return Partial(v, [o], {}) if isinstance(v, Fn) else v
                I.raise_("AttributeError", [const(name)], implicit=True)
                return UNDEF
            return Bound(o, name)
        if ob.kind == "lst":
            return Bound(o, name)
    if isinstance(o, Fn):
        d = dict(I.st.heap[o.loc].data)
        if name in d:
            return d[name]
        if name in ("__doc__", "__name__", "__module__", "__qualname__"):
            return const(o.name) if name != "__doc__" else sym("doc:" + o.name)
        if name == "__call__":
            return o
        if name == "__wrapped__":
            I.raise_("AttributeError", [const(name)], implicit=True)
            return UNDEF
        I.raise_("AttributeError", [const(name)], implicit=True)
        return UNDEF
    if isinstance(o, UFn):
        if name == "__call__":
            return o
        return sym("%s.%s" % (o.name, name))
    if isinstance(o, Cls):
        if name == "__name__":
            return const(o.name)
        v, ok = cls_lookup(I, o, name)
        if ok:
            return v
        I.raise_("AttributeError", [const(name)], implicit=True)
        return UNDEF
    if isinstance(o, (Ref, View)) or isinstance(o, T):
        if isinstance(o, T):
            if o is NONE:
                I.raise_("AttributeError", [const(name)], implicit=True)
                return UNDEF
            if o.op in ("const", "strcat", "str", "strfmt", "strop") and (o.op != "const" or o.args[0] == "str"):
                return Bound(o, name)
        t = I.val(o)
        if name == "shape":
            return fake_shape(I, t)
        if name == "ndim":
            return np_ndim(I, t)
        if name == "size":
            r = ONE
            if t.shape is None:
                if t.op in ("phi", "concat", "ite", "msel", "slc", "fin"):
                    # length known at run time only
                    return mk("size", (t,), ())
                raise Unsupported("size", I.src)
            for d in t.shape:
                r = mul2(r, d)
            return r
        if name == "T":
            if isinstance(o, T):
                return I.new(tr(t))
            if t.shape is not None and len(t.shape) <= 1:
                return o
            return View(o.loc, (o.path if isinstance(o, View) else ()) + (("tr",),))
        if name == "dtype":
            return Ext("dtype")
        if name in ("real",):
            return o
        if name == "flat":
            return I.new(mk("ravel", (t,), None))
        return Bound(o, name)
    if isinstance(o, (Tup, Iterable)):
        return Bound(o, name)
    if isinstance(o, (Bound, Partial)):
        return Ext("attr." + name)
    raise Unsupported("attribute %s of %r" % (name, o), I.src)


def delattr_(I, o, name):
    if isinstance(o, Choice):
        I.dist(o, lambda x: (delattr_(I, x, name), NONE)[1])
        return
    if isinstance(o, Ref):
        ob = I.st.heap[o.loc]
        cls = ob.meta[1] if ob.kind == "dct" and ob.meta and ob.meta[0] == "inst" else None
        if cls is not None:
            f, ok = cls_lookup(I, cls, "__delattr__")
            if ok and isinstance(f, Fn):
                I.call(f, [o, const(name)], {})
                return
            if ok and isinstance(f, Ext) and f.name in ("dict.__delitem__",):
                I.del_item(o, const(name))
                return
            I.raise_("AttributeError", [const(name)], implicit=True)
            return
        if ob.kind == "dct":
            I.raise_("AttributeError", [const(name)], implicit=True)
            return
    raise Unsupported("delattr", I.src)


def setattr_(I, o, name, v):
    if isinstance(o, Choice):
        I.dist(o, lambda x: (setattr_(I, x, name, v), NONE)[1])
        return
    if isinstance(o, Ref):
        ob = I.st.heap[o.loc]
        if ob.kind == "dct":
            cls = ob.meta[1] if ob.meta and ob.meta[0] == "inst" else None
            s, ok = cls_lookup(I, cls, "__setattr__")
            if ok and isinstance(s, Ext) and s.name in ("dict.__setitem__",):
                I.setitem(o, [("i", const(name))], v)
                return
            if ok and isinstance(s, Fn):
                I.call(s, [o, const(name), v], {})
                return
            raise Unsupported("attribute of a dictionary", I.src)
        if ob.kind == "inst":
            I.write_event(o.loc, name, None)
            d = OrderedDict(ob.data)
            d[name] = v
            I.st.heap[o.loc] = Obj("inst", tuple(d.items()), ob.meta)
            return
    if isinstance(o, Fn):
        I.write_event(o.loc, name, None)
        ob = I.st.heap[o.loc]
        d = OrderedDict(ob.data)
        d[name] = v
        I.st.heap[o.loc] = Obj("inst", tuple(d.items()), ob.meta)
        return
    if isinstance(o, Mod):
        I.emit("global_write", name=o.name + "." + name)
        I.st.envs[o.env][name] = v
        return
    if isinstance(o, Cls):
        I.emit("global_write", name=o.name + "." + name)
        I.st.envs[o.env][name] = v
        return
    if isinstance(o, Ext):
        I.emit("extern", name="set " + o.name + "." + name)
        return
    if isinstance(o, UFn):
        I.emit("mutate_arg", name=o.name)
        return
    if name == "shape" and isinstance(o, Ref):
        raise Unsupported("shape assignment", I.src)
    I.raise_("AttributeError", [const(name)], implicit=True)


def fake_shape(I, t):
    f = getattr(I, "fake", {}).get(t)
    if f is not None:
        return f[1]
    return shape_of(I, t)


def np_ndim(I, t):
    f = getattr(I, "fake", {}).get(t)
    if f is not None:
        return f[0]
    if t.shape is None:
        return sym("ndim:%d" % t.id, (), ZERO, None, True)
    return num(len(t.shape))


def length(I, v):
    if isinstance(v, Choice):
        return I.merge(v.cond, length(I, v.a), length(I, v.b))
    if isinstance(v, Tup):
        if any(isinstance(x, Star) for x in v.items):
            return sym("len*", (), ZERO, None, True)
        return num(len(v.items))
    if isinstance(v, Ref):
        o = I.st.heap[v.loc]
        if o.kind in ("dct", "inst"):
            return num(len(o.data))
        if o.kind == "lst" and not isinstance(o.data, T):
            return num(len(o.data))
    if isinstance(v, Iterable):
        return v.count
    t = I.val(v)
    f = getattr(I, "fake", {}).get(t)
    if f is not None:
        return f[2]
    if t.op == "const" and t.args[0] == "str":
        return num(len(t.args[1]))
    if t.shape == ():
        if t.op == "sym":
            return sym("len:" + t.args[0], (), ZERO, None, True)
        if t.op in ("str", "strcat"):
            return sym("strlen:%d" % t.id, (), ZERO, None, True)
        I.raise_("TypeError", None, implicit=True)
        return UNDEF
    return dim(t)


# ---------------------------------------------------------------- iteration helpers
def make_range(I, lo, n, step):
    it = Iterable(n, lambda k: add(lo, mul2(step, k)), "range")
    it.info = (lo, n, step)
    return it


def range_(I, args):
    a = [I.val(x) for x in args]
    for x in a:
        if x is NONE or x.op == "const":
            I.raise_("TypeError", None, implicit=True)
            return UNDEF
    lo, hi, st = ZERO, None, ONE
    if len(a) == 1:
        hi = a[0]
    else:
        lo, hi = a[0], a[1]
        if len(a) > 2:
            st = a[2]
    return make_range(I, lo, range_count(I, lo, hi, st), st)


def range_count(I, lo, hi, st):
    d = sub(hi, lo)
    if st is ONE:
        n = d
    elif is_num(st) and st.args[0] == -1:
        n = neg(d)
    else:
        n = fn("ceil", div(d, st))
    f = I.facts()
    if is_num(n):
        return n if n.args[0] > 0 else ZERO
    if decide(le(ZERO, n), f) is True:
        return n
    if st is not ONE and is_int(d):
        # ceil(d / s) >= 0 when d > -s and s > 0
        if decide(lt(neg(st), d), f) is True and decide(lt(ZERO, st), f) is True:
            return n
    return max_(ZERO, n)


def zip_(I, vs):
    its = []
    for v in vs:
        items = I.concrete_items(v)
        if items is not None:
            it = Iterable(num(len(items)), None, "concrete")
            it.items = items
            its.append(it)
        else:
            its.append(I.iterable(v))
    if all(i.kind == "concrete" for i in its):
        items = [Tup(x) for x in zip(*[i.items for i in its])]
        r = Iterable(num(len(items)), None, "concrete")
        r.items = items
        return r
    n = None
    for i in its:
        if i.kind == "concrete":
            items = list(i.items)
            i.get = (lambda items: lambda k: items[int(k.args[0])] if is_num(k) else pick(I, items, k))(items)
        if n is None:
            n = i.count
        elif n is not i.count:
            n = min_(n, i.count)
    return Iterable(n, lambda k: Tup([i.get(k) for i in its]))


def pick(I, items, k):
    if all(isinstance(x, T) for x in items):
        return at(stack(*items), 0, k)
    out = items[-1]
    for j in range(len(items) - 2, -1, -1):
        out = I.merge(eq(k, num(j)), items[j], out)
    return out


def enumerate_(I, v, start):
    z = zip_(I, [v])
    if z.kind == "concrete":
        r = Iterable(z.count, None, "concrete")
        r.items = [Tup([add(start, num(i)), x.items[0]]) for i, x in enumerate(z.items)]
        return r
    return Iterable(z.count, lambda k: Tup([add(start, k), z.get(k).items[0]]))


def map_(I, f, vs):
    z = zip_(I, vs)
    if z.kind == "concrete":
        r = Iterable(z.count, None, "concrete")
        r.items = [I.call(f, list(x.items), {}) for x in z.items]
        return r
    res = {}

    def body(k):
        res["v"] = run_task(I, I.call(f, list(z.get(k).items), {}))

    t = I.run_loop(I.cur_node, body, count=z.count, collect=res)
    return I.alloc(Obj("lst", t))


def run_task(I, v):
    if isinstance(v, Task) and getattr(I, "in_pool", 0):
        I.emit("task", fn=v.fn)
        return I.call(v.fn, v.args, v.kwargs)
    return v


def run_pool(I, pool, arg):
    I.in_pool = getattr(I, "in_pool", 0) + 1
    I.emit("pool_call", loc=pool.loc, meta=I.st.heap[pool.loc].data)
    try:
        if isinstance(arg, Gen):
            r = I.consume_gen(arg)
        else:
            r = arg
        s = I.seq(r)
        if s is not None:
            return I.alloc(Obj("lst", tuple(run_task(I, x) for x in s)))
        if isinstance(r, Ref):
            return r
        return I.alloc(Obj("lst", I.val(r)))
    finally:
        I.in_pool -= 1


# ---------------------------------------------------------------- random numbers
def rng(I):
    return I.st.heap["$rng"].data


def draw(I, kind, params, shape):
    s = rng(I)
    shape = tuple(shape)
    t = mk("rnd", (kind, params, shape, s), shape)
    nd = ONE
    for d in shape:
        nd = mul2(nd, d)
    n = mk("adv", (s, kind if kind in ("u01", "norm") else kind, params if kind in ("randint", "perm") else (), shape), ())
    I.st.heap["$rng"] = Arr(n)
    I.emit("draw", kind2=kind, state=s, term=t, par=getattr(I, "in_pool", 0))
    return t


def size_shape(I, v):
    if v is None or v is NONE:
        return ()
    if isinstance(v, Tup):
        return tuple(I.val(x) for x in v.items)
    s = I.seq(v)
    if s is not None:
        return tuple(I.val(x) for x in s)
    t = I.val(v)
    if t.shape == ():
        return (t,)
    raise Unsupported("random size", I.src)


def np_random(I, name, args, kwargs, A):
    if name in ("rand",):
        t = draw(I, "u01", (), [I.val(x) for x in args])
        return I.new(t)
    if name in ("random", "random_sample", "ranf", "sample"):
        t = draw(I, "u01", (), size_shape(I, A(0, "size")))
        return I.new(t)
    if name in ("randn",):
        return I.new(draw(I, "norm", (), [I.val(x) for x in args]))
    if name == "standard_normal":
        return I.new(draw(I, "norm", (), size_shape(I, A(0, "size"))))
    if name in ("uniform", "normal"):
        lo = I.val(A(0, "low" if name == "uniform" else "loc", ZERO))
        hi = I.val(A(1, "high" if name == "uniform" else "scale", ONE))
        sz = A(2, "size")
        if sz is None or sz is NONE:
            shape = bshape([lo, hi])
        else:
            shape = size_shape(I, sz)
        if shape is None:
            raise Unsupported("random size", I.src)
        u = draw(I, "u01" if name == "uniform" else "norm", (), shape)
        if name == "uniform":
            return I.new(add(lo, mul2(sub(hi, lo), u)))
        return I.new(add(lo, mul2(hi, u)))
    if name == "randint":
        lo = I.val(A(0, "low"))
        hi = A(1, "high")
        if hi is None or hi is NONE:
            lo, hi = ZERO, lo
        else:
            hi = I.val(hi)
        return I.new(draw(I, "randint", (lo, hi), size_shape(I, A(2, "size"))), "i")
    if name in ("permutation", "shuffle"):
        v = A(0, "x")
        t = I.val(v)
        n = t if t.shape == () else dim(t)
        s = rng(I)
        p = mk("rperm", (n, s), (n,))
        I.st.heap["$rng"] = Arr(mk("adv", (s, "perm", (n,), (n,)), ()))
        I.emit("draw", kind2="perm", state=s, term=p, par=getattr(I, "in_pool", 0))
        if name == "shuffle":
            I.write(v, (), take(t, 0, p))
            return NONE
        return I.new(p if t.shape == () else take(t, 0, p), "i" if t.shape == () else None)
    if name == "choice":
        v = A(0, "a")
        t = I.val(v)
        n = t if t.shape == () else dim(t)
        p = A(3, "p")
        rep = A(2, "replace")
        kind = "randint"
        if p is not None and p is not NONE:
            kind = "choicep"
        if rep is not None and I.truth(rep) is not TRUE:
            kind = "choicewr"
        shape = size_shape(I, A(1, "size"))
        d = draw(I, kind, (ZERO, n), shape)
        return I.new(d if t.shape == () else (take(t, 0, d) if d.shape else at(t, 0, d)))
    if name == "seed":
        v = A(0, "seed")
        t = NONE if v is None else I.val(v)
        I.emit("seed", value=t, nfev=I.ghost("$nfev"))
        I.st.heap["$rng"] = Arr(mk("seeded", (t,), ()) if t is not NONE else mk("entropy", (I.src,), ()))
        return NONE
    if name == "get_state":
        return rng(I)
    if name == "set_state":
        t = I.val(A(0, "state"))
        I.emit("set_state", value=t)
        I.st.heap["$rng"] = Arr(t)
        return NONE
    if name in ("default_rng", "RandomState", "Generator", "SeedSequence"):
        I.emit("extern", name="numpy.random." + name)
        v = A(0, "seed")
        t = NONE if v is None else I.val(v)
        r = I.alloc(Obj("inst", (), ("rng", t)))
        return r
    I.emit("extern", name="numpy.random." + name)
    raise Unsupported("numpy.random." + name, I.src)


# ---------------------------------------------------------------- numpy
UNARY = {
    "sqrt": "sqrt", "exp": "exp", "log": "log", "abs": "abs", "absolute": "abs", "fabs": "abs", "cos": "cos",
    "sin": "sin", "tan": "tan", "sign": "sign", "floor": "floor", "ceil": "ceil", "log10": "log10", "log2": "log2",
    "log1p": "log1p", "expm1": "expm1", "tanh": "tanh", "arctan": "arctan", "trunc": "trunc", "rint": "rint",
}
BINARY = {
    "add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow",
    "mod": "Mod", "remainder": "Mod", "floor_divide": "FloorDiv",
}
COMPARE = {"less": lt, "less_equal": le, "greater": gt, "greater_equal": ge, "equal": eq,
           "not_equal": lambda a, b: bnot(eq(a, b))}
PURE_OPAQUE = {
    "percentile": 0, "median": 0, "quantile": 0, "std": None, "var": None, "trapz": 0, "isfinite": None,
}


def unary(I, name, t):
    if name == "log1p":
        return fn("log", add(ONE, t))
    if name == "expm1":
        return sub(fn("exp", t), ONE)
    if name in ("log10",):
        return div(fn("log", t), fn("log", num(10)))
    if name == "log2":
        return div(fn("log", t), fn("log", TWO))
    if name == "trunc":
        return fn("int", t)
    return fn(name, t)


def axis_of(I, v):
    if v is None or v is NONE:
        return None
    t = I.val(v)
    if not is_num(t):
        raise Unsupported("symbolic axis", I.src)
    return int(t.args[0])


def reduce_(I, op, t, ax):
    if t.shape is None:
        return mk("redx", (op, t, ax), None if ax is not None else ())
    r = len(t.shape)
    if ax is not None and ax < 0:
        ax += r
    if op in ("sum", "any", "prod", "all"):
        if op in ("any", "all") and not is_bool(t):
            t = bnot(eq(t, ZERO))
        if op == "all":
            return bnot(reduce_(I, "any", bnot(t), ax))
        if ax is None:
            if op == "any":
                return anyt(t)
            while t.shape:
                t = red(op, t, len(t.shape) - 1)
            return t
        return red(op, t, ax)
    if op == "mean":
        if ax is None:
            n = ONE
            for d in t.shape:
                n = mul2(n, d)
            return div(sumt(t), n)
        return div(red("sum", t, ax), t.shape[ax])
    if op in ("min", "max"):
        if t.op == "stack" and all(x.shape == () for x in t.args) and t.args:
            return min_(*t.args) if op == "min" else max_(*t.args)
        if t.op == "concat" and (ax is None or r == 1):
            a, b = reduce_(I, op, t.args[0], None), reduce_(I, op, t.args[1], None)
            return min_(a, b) if op == "min" else max_(a, b)
        if r == 0:
            return t
        if ax is None and r == 1 or ax == 0 and r == 1:
            return amin(t) if op == "min" else amax(t)
        if ax is None:
            return mk("aminall" if op == "min" else "amaxall", (t,), ())
        o = 1 - ax
        if r == 2:
            f = fresh("i")
            row = at(t, o, f)
            return mapt(t.shape[o], f, amin(row) if op == "min" else amax(row))
    raise Unsupported("reduction " + op, I.src)


def shape_arg(I, v):
    if isinstance(v, Tup):
        return tuple(I.val(x) for x in v.items)
    s = I.seq(v)
    if s is not None:
        return tuple(I.val(x) for x in s)
    t = I.val(v)
    if t.shape == ():
        return (t,)
    if t.op == "stack":
        return tuple(t.args)
    raise Unsupported("shape", I.src)


def check_shape(I, shape):
    for d in shape:
        if d is NONE or d.op == "const":
            I.raise_("TypeError", None, implicit=True)


def is_dt(v):
    return isinstance(v, Ext) and v.name.split(".")[-1] in ("float", "int", "bool", "float64", "int64", "double",
                                                           "float32", "int32", "bool_", "intp", "object", "dtype")


def dtname(v):
    if not isinstance(v, Ext):
        return None
    n = v.name.split(".")[-1]
    if n.startswith("int"):
        return "i"
    if n.startswith("bool"):
        return "b"
    if n in ("float32", "float16"):
        return "f4"
    return "f"


def to_array(I, v):
    """Term of an array-like."""
    return I.val(v)


def np_call(I, name, args, kwargs, node):
    def A(i, key, default=None):
        if i is not None and i < len(args):
            return args[i]
        if key in kwargs:
            return kwargs[key]
        return default

    if name.startswith("random."):
        return np_random(I, name[7:], args, kwargs, A)
    out = kwargs.get("out")
    if out is not None and out is not NONE:
        kw = OrderedDict((k, v) for k, v in kwargs.items() if k != "out")
        if "where" in kw:
            raise Unsupported("where= argument", I.src)
        r = np_call(I, name, args, kw, node)
        t = I.val(r)
        I.write(out, (), t, dt=I.dtype(r))
        return out
    if "where" in kwargs and name not in ("where",):
        raise Unsupported("where= argument", I.src)
    if name in UNARY:
        return I.new(unary(I, UNARY[name], I.val(args[0])))
    if name == "square":
        t = I.val(args[0])
        return I.new(mul2(t, t))
    if name == "negative":
        return I.new(neg(I.val(args[0])))
    if name == "reciprocal":
        return I.new(inv(I.val(args[0])))
    if name in BINARY:
        return I.new(I.arith(BINARY[name], I.val(args[0]), I.val(args[1])))
    if name in COMPARE:
        return I.new(COMPARE[name](I.val(args[0]), I.val(args[1])), "b")
    if name in ("minimum", "maximum", "fmin", "fmax"):
        f = min_ if "min" in name else max_
        return I.new(f(I.val(args[0]), I.val(args[1])))
    if name == "clip":
        x, lo, hi = I.val(A(0, "a")), A(1, "a_min"), A(2, "a_max")
        if lo is not None and lo is not NONE:
            x = max_(x, I.val(lo))
        if hi is not None and hi is not NONE:
            x = min_(x, I.val(hi))
        return I.new(x)
    if name in ("logical_or", "bitwise_or"):
        return I.new(bor(abool(I.val(args[0])), abool(I.val(args[1]))), "b")
    if name in ("logical_and", "bitwise_and"):
        return I.new(band(abool(I.val(args[0])), abool(I.val(args[1]))), "b")
    if name in ("logical_not", "invert", "bitwise_not"):
        return I.new(bnot(abool(I.val(args[0]))), "b")
    if name in ("logical_xor",):
        x, y = abool(I.val(args[0])), abool(I.val(args[1]))
        return I.new(bor(band(x, bnot(y)), band(bnot(x), y)), "b")
    if name in ("isnan",):
        return I.new(isnan(I.val(args[0])), "b")
    if name in ("isfinite", "isinf"):
        t = I.val(args[0])
        return I.new(mk("np_b", (name, t), t.shape), "b")
    if name in ("sum", "any", "all", "prod", "mean", "min", "max", "amin", "amax", "alltrue", "sometrue"):
        name = {"amin": "min", "amax": "max", "alltrue": "all", "sometrue": "any"}.get(name, name)
        t = to_array(I, A(0, "a"))
        r = reduce_(I, name, t, axis_of(I, A(1, "axis")))
        kd = kwargs.get("keepdims")
        if kd is not None and I.truth(kd) is TRUE:
            ax = axis_of(I, A(1, "axis"))
            if ax is None:
                raise Unsupported("keepdims", I.src)
            r = expand(r, ax if ax >= 0 else len(t.shape) + ax)
        return I.new(r)
    if name in ("argmin", "argmax"):
        t = to_array(I, A(0, "a"))
        if A(1, "axis") is not None and A(1, "axis") is not NONE and len(t.shape) != 1:
            if len(t.shape) != 2:
                raise Unsupported("argmin along an axis", I.src)
            if axis_of(I, A(1, "axis")) == 0:
                t = tr(t)
            i = fresh("i")
            row = at(t, 0, i)
            return I.new(mapt(t.shape[0], i, argmin(row if name == "argmin" else neg(row))), "i")
        return argmin(t) if name == "argmin" else argmin(neg(t))
    if name == "argsort":
        t = to_array(I, A(0, "a"))
        if len(t.shape or ()) == 2 and A(1, "axis") is not NONE:
            ax = axis_of(I, A(1, "axis"))
            i = fresh("i")
            if ax == 0:
                t = tr(t)
            r = mapt(t.shape[0], i, argsort(at(t, 0, i)))
            return I.new(tr(r) if ax == 0 else r, "i")
        if len(t.shape or ()) != 1:
            raise Unsupported("argsort of a matrix", I.src)
        return I.new(argsort(t), "i")
    if name == "take":
        return method(I, args[0], "take", args[1:], kwargs, node)
    if name == "take_along_axis":
        t, k = I.val(args[0]), I.val(args[1])
        ax = axis_of(I, A(2, "axis"))
        if t.shape is None or k.shape is None or len(t.shape) != len(k.shape) or len(t.shape) > 2:
            raise Unsupported("take_along_axis", I.src)
        if len(t.shape) == 1:
            return I.new(take(t, 0, k))
        if ax == 0:
            t, k = tr(t), tr(k)
        i = fresh("i")
        r = mapt(t.shape[0], i, take(at(t, 0, i), 0, at(k, 0, i)))
        return I.new(tr(r) if ax == 0 else r)
    if name == "append" and A(2, "axis") is None and False:
        pass
    if name == "sort":
        t = to_array(I, A(0, "a"))
        return I.new(take(t, 0, argsort(t)))
    if name in ("array", "asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "copy", "asfortranarray", "float64", "asarray_chkfinite", "fromiter"):
        return np_array(I, name, A, kwargs)
    if name in ("zeros", "ones", "empty", "full"):
        sh = shape_arg(I, A(0, "shape"))
        check_shape(I, sh)
        if not I.st.alive:
            return UNDEF
        dt = A(2 if name == "full" else 1, "dtype")
        if name == "full":
            v = I.val(A(1, "fill_value"))
            if v.shape == ():
                d = dtname(dt) if dt is not None and dt is not NONE else ("i" if v.op == "num" and is_int(v) and False else "f")
                return I.alloc(Arr(full(sh, v), d or "f"))
            return I.alloc(Arr(bcast_to(v, sh), "f"))
        d = dtname(dt) if dt is not None and dt is not NONE else "f"
        if name == "empty":
            if not sh:
                return mk("uninit", (sh,), sh)
            if any(x is ZERO for x in sh):
                return I.alloc(Arr(full(sh, ZERO), d))
            return I.alloc(Arr(mk("uninit", (sh,), sh), d))
        v = ZERO if name == "zeros" else ONE
        if d == "b":
            v = FALSE if name == "zeros" else TRUE
        return I.alloc(Arr(full(sh, v), d)) if sh else v
    if name in ("zeros_like", "ones_like", "empty_like", "full_like"):
        t = to_array(I, A(0, "a"))
        if t.shape is None:
            raise Unsupported("shape", I.src)
        d = I.dtype(A(0, "a"))
        if name == "empty_like":
            r = mk("uninit", (t.shape,), t.shape)
        elif name == "full_like":
            r = full(t.shape, I.val(A(1, "fill_value")))
        else:
            r = full(t.shape, ZERO if name == "zeros_like" else ONE)
        if not t.shape:
            return r
        return I.alloc(Arr(r, d))
    if name in ("eye", "identity"):
        n = I.val(A(0, "N"))
        i, j = fresh("i"), fresh("j")
        if A(1, "M") is not None and A(1, "M") is not NONE and name == "eye":
            raise Unsupported("eye", I.src)
        return I.alloc(Arr(mapt(n, i, mapt(n, j, ite(eq(i, j), ONE, ZERO)))))
    if name == "arange":
        dt = A(3, "dtype")
        a = [I.val(x) for x in args[:3]]
        lo, st = ZERO, ONE
        if len(a) == 1:
            hi = a[0]
        else:
            lo, hi = a[0], a[1]
            st = a[2] if len(a) > 2 else (I.val(kwargs["step"]) if "step" in kwargs else ONE)
        n = range_count(I, lo, hi, st)
        i = fresh("i")
        return I.alloc(Arr(mapt(n, i, add(lo, mul2(st, i))), "i" if all(is_int(x) for x in (lo, st)) and dtname(dt) != "f" else "f"))
    if name == "linspace":
        lo, hi = I.val(A(0, "start")), I.val(A(1, "stop"))
        n = A(2, "num")
        n = num(50) if n is None else I.val(n)
        ep = kwargs.get("endpoint", A(3, "endpoint"))
        ep = True if ep is None else I.truth(ep)
        i = fresh("i")
        dv = sub(n, ONE) if ep in (True, TRUE) else n
        return I.alloc(Arr(mapt(n, i, add(lo, mul2(div(sub(hi, lo), dv), i)))))
    if name in ("transpose",):
        v = A(0, "a")
        ax = A(1, "axes")
        if ax is not None and ax is not NONE:
            raise Unsupported("transpose axes", I.src)
        t = to_array(I, v)
        if isinstance(v, (Ref, View)) and I.st.heap[v.loc].kind == "arr":
            if t.shape is not None and len(t.shape) <= 1:
                return v
            return View(v.loc, (v.path if isinstance(v, View) else ()) + (("tr",),))
        return I.alloc(Arr(tr(t)))
    if name == "ndim":
        return np_ndim(I, to_array(I, A(0, "a")))
    if name == "shape":
        t = to_array(I, A(0, "a"))
        return fake_shape(I, t)
    if name == "size":
        return getattr_(I, A(0, "a"), "size")
    if name == "where":
        c = abool(I.val(args[0]))
        if len(args) == 1:
            return nonzero(I, c)
        a, b = I.val(args[1]), I.val(args[2])
        if c.shape == ():
            c2 = I.resolve(c)
            if c2 is TRUE or c2 is FALSE:
                r = a if c2 is TRUE else b
                sh = bshape([a, b])
                return I.new(r if r.shape == sh else bcast_to(r, sh))
            if a.shape != b.shape:
                sh = bshape([a, b])
                a, b = (t if t.shape == sh else bcast_to(t, sh) for t in (a, b))
        return I.new(ite(c, a, b))
    if name in ("nonzero", "flatnonzero"):
        r = nonzero(I, abool(I.val(args[0])))
        return r.items[0] if name == "flatnonzero" else r
    if name == "argwhere":
        raise Unsupported("argwhere", I.src)
    if name == "count_nonzero":
        return mk("count", (abool(I.val(args[0])),), ())
    if name == "dot" or name == "matmul" or name == "inner":
        return I.new(dot(I.val(args[0]), I.val(args[1])))
    if name == "vdot":
        return I.new(dot(I.val(args[0]), I.val(args[1])))
    if name == "outer":
        a, b = I.val(args[0]), I.val(args[1])
        return I.new(mul2(expand(a, 1), expand(b, 0)))
    if name == "diag" or name == "diagonal":
        t = I.val(args[0])
        if t.shape is None:
            raise Unsupported("diag", I.src)
        if len(t.shape) == 1:
            return I.new(mk("diagm", (t,), (t.shape[0], t.shape[0])))
        i = fresh("i")
        return I.new(mapt(t.shape[0], i, at(at(t, 0, i), 0, i)))
    if name in ("triu", "tril"):
        t = I.val(args[0])
        k = A(1, "k")
        k = ZERO if k is None else I.val(k)
        i, j = fresh("i"), fresh("j")
        c = le(add(i, k), j) if name == "triu" else le(j, add(i, k))
        return I.new(mapt(t.shape[0], i, mapt(t.shape[1], j, ite(c, at(at(t, 0, i), 0, j), ZERO))))
    if name == "linalg.norm":
        t = I.val(A(0, "x"))
        o = A(1, "ord")
        ax = axis_of(I, A(2, "axis"))
        if o is not None and o is not NONE:
            ov = I.val(o)
            if not (is_num(ov) and ov.args[0] == 2) or t.shape is None or len(t.shape) != 1 and ax is None:
                raise Unsupported("norm order", I.src)
        sq = mul2(t, t)
        return I.new(fn("sqrt", reduce_(I, "sum", sq, ax)))
    if name in ("linalg.eigh",):
        t = I.val(args[0])
        n = dim(t)
        return Tup([I.alloc(Arr(mk("eigh_w", (t,), (n,)))), I.alloc(Arr(mk("eigh_v", (t,), (n, n))))])
    if name == "linalg.eig":
        t = I.val(args[0])
        n = dim(t)
        return Tup([I.alloc(Arr(mk("eig_w", (t,), (n,)))), I.alloc(Arr(mk("eig_v", (t,), (n, n))))])
    if name in ("linalg.inv", "linalg.cholesky"):
        t = I.val(args[0])
        return I.alloc(Arr(mk("np", (name, t), t.shape)))
    if name == "append":
        a, b = I.val(A(0, "arr")), I.val(A(1, "values"))
        ax = axis_of(I, A(2, "axis"))
        if ax is None:
            if a.shape == ():
                a = stack(a)
            if b.shape == ():
                b = stack(b)
            if len(a.shape or (1, 1)) > 1 or len(b.shape or (1, 1)) > 1:
                raise Unsupported("append without axis", I.src)
        elif ax != 0:
            raise Unsupported("append axis", I.src)
        return I.alloc(Arr(concat(a, b)))
    if name in ("concatenate", "vstack", "hstack", "row_stack", "stack", "column_stack", "r_", "c_"):
        v = A(0, "arrays")
        s = I.seq(v)
        ax = axis_of(I, A(1, "axis"))
        if s is None:
            # as many pieces as the length of a table
            t = I.val(v)
            n = len(t.shape) if t.shape is not None else None
            if name in ("vstack", "row_stack") and n == 2:
                return I.alloc(Arr(t))
            if name == "stack" and (not ax or n is not None and ax == -n):
                return I.alloc(Arr(t))
            if n == 2 and (name == "column_stack" or name == "stack" and ax in (1, -1)):
                return I.alloc(Arr(tr(t)))
            if name in ("concatenate", "hstack") and n == 2 and t.shape[1] is ONE and not ax:
                return I.alloc(Arr(at(t, 1, ZERO)))
            raise Unsupported(name, I.src)
        ts = [I.val(x) for x in s]
        if name == "stack":
            r = stack(*ts)
            if ax is not None and ax < 0:
                ax += len(r.shape)
            if ax:
                if len(r.shape) != 2:
                    raise Unsupported("stack axis", I.src)
                r = tr(r)
            return I.alloc(Arr(r))
        if name in ("vstack", "row_stack"):
            ts = [expand(x, 0) if x.shape is not None and len(x.shape) == 1 else x for x in ts]
            if all(x.op == "expand" and x.args[1] == 0 for x in ts):
                return I.alloc(Arr(stack(*[x.args[0] for x in ts])))
        if name == "column_stack":
            ts = [expand(x, 1) if len(x.shape) == 1 else x for x in ts]
            ts = [tr(x) for x in ts]
        if name == "hstack" and len(ts[0].shape) > 1 or ax == 1:
            ts = [tr(x) for x in ts]
            r = ts[0]
            for x in ts[1:]:
                r = concat(r, x)
            return I.alloc(Arr(tr(r)))
        r = ts[0]
        for x in ts[1:]:
            r = concat(r, x)
        return I.alloc(Arr(tr(r) if name == "column_stack" else r))
    if name == "delete":
        t = I.val(A(0, "arr"))
        k = I.val(A(1, "obj"))
        ax = axis_of(I, A(2, "axis"))
        if ax is None:
            if len(t.shape or (1, 1)) != 1:
                raise Unsupported("delete without axis", I.src)
            ax = 0
        if k.shape != ():
            raise Unsupported("delete of several entries", I.src)
        return I.alloc(Arr(delete(t, k, ax)))
    if name == "insert":
        raise Unsupported("insert", I.src)
    if name == "tile":
        t = I.val(A(0, "A"))
        reps = shape_arg(I, A(1, "reps"))
        if t.shape is not None and len(t.shape) == 1 and len(reps) == 2 and reps[1] is ONE:
            return I.alloc(Arr(bcast_to(t, (reps[0], t.shape[0]))))
        if t.shape is not None and t.shape == ():
            return I.alloc(Arr(full(reps, t)))
        raise Unsupported("tile", I.src)
    if name == "broadcast_to":
        t = I.val(args[0])
        return I.alloc(Arr(bcast_to(t, shape_arg(I, args[1]))))
    if name == "repeat":
        t = I.val(A(0, "a"))
        n = I.val(A(1, "repeats"))
        if t.shape == ():
            return I.alloc(Arr(full((n,), t)))
        ax = axis_of(I, A(2, "axis"))
        if t.shape is not None and ax == 0 and t.shape[0] is ONE:
            return I.alloc(Arr(bcast_to(at(t, 0, ZERO), (n,) + t.shape[1:])))
        raise Unsupported("repeat", I.src)
    if name == "expand_dims":
        v = args[0]
        ax = axis_of(I, A(1, "axis"))
        return I.alloc(Arr(expand(I.val(v), ax if ax >= 0 else len(I.val(v).shape) + 1 + ax)))
    if name in ("squeeze", "ravel"):
        return method(I, args[0], name, args[1:], kwargs, node)
    if name == "reshape":
        return method(I, args[0], name, args[1:], kwargs, node)
    if name in ("isscalar",):
        t = I.val(args[0])
        return boolc(t.shape == ())
    if name in ("array_equal", "allclose"):
        return mk("np_b", (name,) + tuple(I.val(a) for a in args), ())
    if name in ("copyto",):
        I.write(args[0], (), I.val(args[1]), dt=I.dtype(args[1]))
        return NONE
    if name in ("float64", "float32", "int64", "int_", "float_"):
        t = I.val(args[0])
        return fn("int", t) if name.startswith("int") else t
    if name == "cumsum":
        t = I.val(args[0])
        return I.alloc(Arr(mk("np", (name, t), t.shape)))
    if name == "einsum":
        raise Unsupported("einsum", I.src)
    if name in ("seterr", "errstate", "set_printoptions"):
        I.emit("extern", name="numpy." + name)
        return NONE
    if name in ("percentile", "median", "quantile", "std", "var", "ptp", "max_", "trapz", "linalg.det", "linalg.cond",
                "nanmin", "nanmax", "nanargmin", "nansum", "nanmean"):
        ts = [I.val(a) for a in args] + [mk("kw", (k, I.val(v)), ()) for k, v in sorted(kwargs.items())]
        ax = axis_of(I, kwargs.get("axis"))
        shape = ()
        if name in ("percentile", "quantile"):
            q = I.val(A(1, "q"))
            shape = q.shape
        if ax is not None:
            shape = None
        return I.new(mk("np", (name,) + tuple(ts), shape))
    I.emit("extern", name="numpy." + name)
    raise Unsupported("numpy." + name, I.src)


def isnan(t):
    return ite_nan(t)


def ite_nan(t):
    if is_num(t) or t is INF:
        return FALSE
    if t is NAN:
        return TRUE
    return mk("bsym", ("isnan", t), t.shape) if False else mk("np_isnan", (t,), t.shape)


def abool(t):
    return t if is_bool(t) else bnot(eq(t, ZERO))


def nonzero(I, c):
    if c.shape is None:
        raise Unsupported("nonzero", I.src)
    n = mk("count", (c,), ())
    if len(c.shape) == 1:
        t = mk("nonzero", (c,), (n,))
        return Tup([I.alloc(Arr(t, "i"))])
    return Tup([I.alloc(Arr(mk("nonzerok", (c, k), (n,)), "i")) for k in range(len(c.shape))])


def np_array(I, name, A, kwargs):
    v = A(0, "object")
    if v is None:
        v = A(0, "a")
    dt = A(1, "dtype")
    if name == "float64":
        return I.val(v)
    if isinstance(v, Choice) and not I.arrayish(v):
        return I.dist(v, lambda x: np_array(I, name, lambda i, k, d=None: x if i == 0 else A(i, k, d), kwargs))
    copy_ = name in ("array", "copy", "fromiter")
    if "copy" in kwargs and name == "array":
        c = I.resolve(I.truth(kwargs["copy"]))
        copy_ = c is not FALSE
    if isinstance(v, Gen):
        if name != "fromiter":
            raise Unsupported("array of a generator", I.src)
        v = I.consume_gen(v)
    if isinstance(v, Ref) and I.st.heap[v.loc].kind == "dct":
        raise Unsupported("array of a mapping", I.src)
    if isinstance(v, (Fn, UFn, Ext, Cls, Mod, Bound)):
        return mk("pyobj", (repr(v),), ())
    isarr = isinstance(v, (Ref, View)) and I.st.heap[v.loc].kind == "arr" or isinstance(v, Choice)
    t = I.val(v)
    if t.op == "map" and False:
        pass
    d = dtname(dt) if dt is not None and dt is not NONE else None
    if t.shape == ():
        if name == "atleast_1d":
            return I.alloc(Arr(stack(t)))
        if d == "i":
            return fn("int", t)
        return t
    nd = kwargs.get("ndmin")
    if nd is not None and t.shape is not None:
        k = int(I.val(nd).args[0])
        while len(t.shape) < k:
            t = expand(t, 0)
            isarr = False
    if isarr and not copy_ and (d is None or d == "f" and I.dtype(v) == "f"):
        return v
    if d == "i":
        t = fn("int", t)
    if d is None:
        d = I.dtype(v) if isarr else ("b" if is_bool(t) else guess_dtype(t))
    return I.alloc(Arr(t, d))


def guess_dtype(t):
    # a list of objective values may hold python integers
    return "f"


# ---------------------------------------------------------------- methods
def method(I, o, name, args, kwargs, node):
    def A(i, key, default=None):
        if i is not None and i < len(args):
            return args[i]
        return kwargs.get(key, default)

    if isinstance(o, Choice) and not I.arrayish(o):
        return I.dist(o, lambda x: method(I, x, name, args, kwargs, node))
    if isinstance(o, Ref):
        ob = I.st.heap[o.loc]
        if ob.kind == "dct":
            return dict_method(I, o, name, args, kwargs, A)
        if ob.kind == "lst":
            return list_method(I, o, name, args, kwargs, A)
        if ob.kind == "inst":
            return inst_method(I, o, name, args, kwargs, A)
    if isinstance(o, Tup):
        if name in ("index", "count"):
            raise Unsupported("tuple method", I.src)
    if isinstance(o, T) and (o.op in ("strcat", "str", "strfmt", "strop") or o.op == "const" and o.args[0] == "str"):
        vals = []
        for a in list(args) + list(kwargs.values()):
            try:
                vals.append(I.val(a))
            except Unsupported:
                vals.append(mk("pyobj", (repr(a),), ()))
        if name == "join":
            xs = args[0]
            if isinstance(xs, Gen):
                xs = I.consume_gen(xs)
            if isinstance(xs, Choice):
                return I.dist(xs, lambda x: method(I, o, name, [x], kwargs, node))
            items = I.concrete_items(xs)
            if items is not None:
                parts = []
                for i, x in enumerate(items):
                    x = I.val(x)
                    if not is_str(x) and not (x.op == "ite"):
                        I.raise_("TypeError", None, implicit=True)
                        return UNDEF
                    parts.extend([o, x] if i else [x])
                return strcat(parts)
        if o.op == "const" and all(is_const(v) or is_num(v) for v in vals) and name in PURE_STR:
            try:
                r = getattr(o.args[1], name)(*[int(cval(v)) if is_num(v) else cval(v) for v in vals])
            except (TypeError, ValueError) as e:
                I.raise_(type(e).__name__, None, implicit=True)
                return UNDEF
            if isinstance(r, list):
                return I.alloc(Obj("lst", tuple(const(x) for x in r)))
            return num(r) if isinstance(r, int) and not isinstance(r, bool) else boolc(r) if isinstance(r, bool) else const(r)
        if name == "format" and o.op == "const" and not kwargs:
            r = format_str(I, o.args[1], args)
            if r is not None:
                return r
        return mk("strop", (name, o) + tuple(vals), ())
    # arrays and scalars
    t = I.val(o)
    if name == "copy":
        if t.shape == ():
            return t
        return I.alloc(Arr(t, I.dtype(o)))
    if name in ("sum", "min", "max", "any", "all", "mean", "prod"):
        return np_call(I, name, [o] + list(args), kwargs, node)
    if name in ("argmin", "argmax", "argsort", "dot", "cumsum", "std", "var", "nonzero", "clip", "transpose", "repeat", "ptp"):
        if name == "transpose" and args:
            raise Unsupported("transpose axes", I.src)
        return np_call(I, name, [o] + list(args), kwargs, node)
    if name == "astype":
        d = dtname(args[0])
        c = kwargs.get("copy")
        if c is not None and I.resolve(I.truth(c)) is FALSE and d == I.dtype(o):
            return o
        if d == "i":
            t = fn("int", t)
        if t.shape == ():
            return t
        return I.alloc(Arr(t, d or "f"))
    if name == "fill":
        I.write(o, (), full(t.shape, I.val(args[0])))
        return NONE
    if name == "sort":
        I.write(o, (), take(t, 0, argsort(t)))
        return NONE
    if name == "item":
        if t.shape == ():
            return t
    if name == "tolist":
        if t.shape == ():
            return t
        return I.alloc(Obj("lst", t))
    if name in ("squeeze",):
        while t.shape and any(d is ONE for d in t.shape):
            k = [i for i, d in enumerate(t.shape) if d is ONE][0]
            t = at(t, k, ZERO)
        return I.new(t)
    if name in ("ravel", "flatten"):
        if t.shape is not None and len(t.shape) == 1:
            return I.alloc(Arr(t, I.dtype(o))) if name == "flatten" else o
        n = ONE
        for d in t.shape or ():
            n = mul2(n, d)
        return I.alloc(Arr(mk("ravel", (t,), (n,))))
    if name == "reshape":
        sh = shape_arg(I, args[0]) if len(args) == 1 else tuple(I.val(a) for a in args)
        if t.shape is not None and sh == t.shape:
            return o
        m1 = [i for i, d in enumerate(sh) if is_num(d) and d.args[0] == -1]
        if t.shape is not None and len(t.shape) == 1 and len(sh) == 2:
            if m1 == [0] and sh[1] is ONE or sh == (t.shape[0], ONE):
                return I.new(expand(t, 1))
            if m1 == [1] and sh[0] is ONE or sh == (ONE, t.shape[0]):
                return I.new(expand(t, 0))
        if m1:
            n = ONE
            for d in t.shape or ():
                n = mul2(n, d)
            for i, d in enumerate(sh):
                if i not in m1:
                    n = div(n, d)
            sh = tuple(n if i in m1 else d for i, d in enumerate(sh))
        return I.new(mk("reshape", (t, sh), sh))
    if name == "view":
        return o
    if name == "take":
        i = I.val(args[0])
        ax = axis_of(I, A(1, "axis"))
        if ax is None and len(t.shape or (1, 1)) == 1:
            ax = 0
        return I.new(take(t, ax, i))
    if name == "put":
        I.write(o, (("take", 0, I.val(args[0])),), I.val(args[1]))
        return NONE
    if name in ("setflags",):
        return NONE
    if name == "round":
        return I.new(fn("rint", t))
    if name == "is_integer":
        return mk("np_b", ("is_integer", t), ())
    I.raise_("AttributeError", [const(name)], implicit=True)
    return UNDEF


def dict_update(I, o, v):
    """d.update(v)"""
    ob = I.st.heap[o.loc]
    d = OrderedDict(ob.data)
    for k, x in I.dict_items(v):
        d[k] = x
    I.write_event(o.loc, "update", None)
    I.st.heap[o.loc] = Obj("dct", tuple(d.items()), ob.meta)


def keyterm(k):
    return num(k) if isinstance(k, int) and not isinstance(k, bool) else const(k)


def dict_method(I, o, name, args, kwargs, A):
    ob = I.st.heap[o.loc]
    if name == "update":
        for a in args:
            if isinstance(a, Choice):
                I.dist(a, lambda x: (dict_update(I, o, x), NONE)[1])
            else:
                dict_update(I, o, a)
        if kwargs:
            d = OrderedDict(I.st.heap[o.loc].data)
            d.update(kwargs)
            I.write_event(o.loc, "update", None)
            I.st.heap[o.loc] = Obj("dct", tuple(d.items()), ob.meta)
        return NONE
    if name in ("keys", "items", "values"):
        items = []
        for k, v in ob.data:
            kt = keyterm(k)
            items.append(kt if name == "keys" else v if name == "values" else Tup([kt, v]))
        r = Iterable(num(len(items)), None, "concrete")
        r.items = items
        return r
    if name == "get":
        dflt = A(1, "default")
        return I.dict_get(o, I.val(args[0]), NONE if dflt is None else dflt)
    if name == "setdefault":
        k = I.pykey(I.val(args[0]))
        d = OrderedDict(ob.data)
        if k not in d:
            d[k] = A(1, "default", NONE)
            I.write_event(o.loc, k, None)
            I.st.heap[o.loc] = Obj("dct", tuple(d.items()), ob.meta)
        return d[k]
    if name == "pop":
        k = I.pykey(I.val(args[0]))
        d = OrderedDict(ob.data)
        I.write_event(o.loc, k, None)
        if k not in d:
            if len(args) > 1:
                return args[1]
            I.raise_("KeyError", [args[0]], implicit=True)
            return UNDEF
        v = d.pop(k)
        I.st.heap[o.loc] = Obj("dct", tuple(d.items()), ob.meta)
        return v
    if name == "copy":
        return I.alloc(Obj("dct", ob.data, None))
    if name == "clear":
        I.write_event(o.loc, "clear", None)
        I.st.heap[o.loc] = Obj("dct", (), ob.meta)
        return NONE
    if name in ("__setitem__",):
        I.setitem(o, [("i", args[0])], args[1], raw=True)
        return NONE
    if name in ("__setattr__", "__delattr__"):
        # the instance dictionary, not the items
        return NONE
    if name == "__getitem__":
        return I.dict_get(o, I.val(args[0]))
    if name == "__contains__":
        return I.contains(args[0], o)
    if name == "__delitem__":
        I.del_item(o, I.val(args[0]), raw=True)
        return NONE
    if name == "__len__":
        return num(len(ob.data))
    raise Unsupported("dict." + name, I.src)


def list_method(I, o, name, args, kwargs, A):
    ob = I.st.heap[o.loc]
    if name == "append":
        I.write_event(o.loc, "append", None)
        if isinstance(ob.data, T):
            I.st.heap[o.loc] = Obj("lst", concat(ob.data, stack(I.val(args[0]))), ob.meta)
        else:
            I.st.heap[o.loc] = Obj("lst", tuple(ob.data) + (args[0],), ob.meta)
        return NONE
    if name == "extend":
        v = args[0]
        if isinstance(v, Gen):
            v = I.consume_gen(v)
        I.list_extend(o, v)
        return NONE
    if name == "copy":
        return I.alloc(Obj("lst", ob.data, ob.meta))
    if name == "index" and not isinstance(ob.data, T):
        x = args[0]
        for i, y in enumerate(ob.data):
            if I.resolve(I.compare("Eq", x, y)) is TRUE:
                return num(i)
    if name == "pop" and not isinstance(ob.data, T) and ob.data:
        k = int(I.val(args[0]).args[0]) if args else -1
        l = list(ob.data)
        v = l.pop(k)
        I.write_event(o.loc, "pop", None)
        I.st.heap[o.loc] = Obj("lst", tuple(l), ob.meta)
        return v
    if name == "sort" or name == "reverse":
        t = I.val(o)
        n = dim(t)
        r = take(t, 0, argsort(t)) if name == "sort" else slc(t, 0, sub(n, ONE), n, num(-1))
        I.write_event(o.loc, name, None)
        I.st.heap[o.loc] = Obj("lst", r, ob.meta)
        return NONE
    raise Unsupported("list." + name, I.src)


def inst_method(I, o, name, args, kwargs, A):
    ob = I.st.heap[o.loc]
    m = ob.meta or ()
    if m and m[0] == "pool":
        if name in ("__call__",):
            return run_pool(I, o, args[0])
        if name in ("__enter__",):
            I.emit("pool_enter", loc=o.loc, scoped=False)
            return o
        if name in ("__exit__",):
            I.emit("pool_exit", loc=o.loc)
            return NONE
    if m and m[0] == "rng":
        I.emit("extern", name="Generator." + name)
        raise Unsupported("generator method", I.src)
    raise Unsupported("method %s" % name, I.src)


# ---------------------------------------------------------------- calls
def extras_of(I, args):
    out = []
    for a in args:
        if isinstance(a, Star):
            out.append(mk("starred", (I.val(a.value),), None))
        else:
            out.append(I.val(a))
    return tuple(out)


def snapshot(I, v, depth=0):
    """Deep value of a runtime value at this moment."""
    if isinstance(v, Ref):
        o = I.st.heap[v.loc]
        if o.kind == "dct":
            return OrderedDict((k, snapshot(I, x)) for k, x in o.data)
    if isinstance(v, (Fn, UFn, Ext)):
        return v
    return I.val(v)


def refs_of(I, v, out=None):
    """Locations reachable from a value."""
    out = [] if out is None else out
    if isinstance(v, (Ref, View)):
        if v.loc not in out:
            out.append(v.loc)
            o = I.st.heap.get(v.loc)
            if o is not None and o.kind in ("dct", "inst"):
                for k, x in o.data:
                    refs_of(I, x, out)
            elif o is not None and o.kind == "lst" and not isinstance(o.data, T):
                for x in o.data:
                    refs_of(I, x, out)
    elif isinstance(v, Tup):
        for x in v.items:
            refs_of(I, x, out)
    elif isinstance(v, Choice):
        refs_of(I, v.a, out)
        refs_of(I, v.b, out)
    return out


def rows_of(t):
    """Storage and number of leading rows of a recorded history."""
    if t.op == "slc" and t.args[1] == 0 and t.args[2] is ZERO and t.args[4] is ONE:
        return t.args[0], t.args[3]
    return t, t.shape[0] if t.shape else UNDEF


def call_user(I, f, args, kwargs):
    role = getattr(f, "role", f.name)
    if role == "callback":
        snaps = [snapshot(I, a) for a in args]
        st = args[1] if len(args) > 1 else None
        cls = None
        if isinstance(st, Ref):
            m = I.st.heap[st.loc].meta
            cls = m[1] if m and m[0] == "inst" else None
        I.emit("callback", args=snaps, refs=[refs_of(I, a) for a in args], kwargs={k: snapshot(I, v) for k, v in kwargs.items()},
               nfev=I.ghost("$nfev"), ncb=I.ghost("$ncb"), best=I.ghost("$best"), cls=cls, nargs=len(args),
               prev={g: I.ghost("$cb." + g) for g in getattr(I, "track", ())})
        I.set_ghost("$ncb", add(I.ghost("$ncb"), ONE))
        for g in getattr(I, "track", ()):
            v = snaps[1].get(g, UNDEF) if len(snaps) > 1 and isinstance(snaps[1], dict) else UNDEF
            v = v if isinstance(v, T) else UNDEF
            if g in ("xall", "funall"):
                v, n = rows_of(v)
                I.set_ghost("$cb.rows." + g, n)
            I.set_ghost("$cb." + g, v)
        return NONE
    if not args:
        I.raise_("TypeError", None, implicit=True)
        return UNDEF
    x = I.val(args[0])
    ex = extras_of(I, args[1:])
    if kwargs:
        ex = ex + tuple(mk("kw", (k, I.val(v)), ()) for k, v in kwargs.items())
    if role == "jac":
        I.emit("grad", x=x, extras=ex, user=True)
        I.set_ghost("$ngrad", add(I.ghost("$ngrad"), ONE))
        return I.new(mk("grad", (f.name, x, ex), x.shape))
    v = mk("obj", (f.name, x, ex), ())
    I.emit("eval", x=x, extras=ex, value=v, refs=refs_of(I, args[0]), name=f.name, par=getattr(I, "in_pool", 0),
           nfev=I.ghost("$nfev"))
    if role == "fun":
        I.set_ghost("$nfev", add(I.ghost("$nfev"), ONE))
        I.set_ghost("$best", min_(I.ghost("$best"), v))
    return v


def call_model(I, f, args, kwargs, node):
    I.cur_node = node
    if isinstance(f, UFn):
        return call_user(I, f, args, kwargs)
    if isinstance(f, Delayed):
        return Task(f.fn, args, kwargs)
    if isinstance(f, Cls):
        return instantiate(I, f, args, kwargs)
    if isinstance(f, Bound):
        return method(I, f.obj, f.name, args, kwargs, node)
    if isinstance(f, Ref):
        ob = I.st.heap[f.loc]
        if ob.kind == "inst" and ob.meta and ob.meta[0] == "pool":
            return run_pool(I, f, args[0])
        if ob.kind == "inst" and ob.meta and ob.meta[0] == "obj":
            v, ok = cls_lookup(I, ob.meta[1], "__call__")
            if ok:
                return I.call(v, [f] + list(args), kwargs)
        I.raise_("TypeError", None, implicit=True)
        return UNDEF
    if isinstance(f, T) or isinstance(f, Tup):
        if isinstance(f, T) and f.op == "sym":
            raise Unsupported("call of an unknown value", I.src)
        I.raise_("TypeError", None, implicit=True)
        return UNDEF
    if isinstance(f, Ext):
        return call_ext(I, f.name, args, kwargs, node)
    raise Unsupported("call of %r" % (f,), I.src)


def instantiate(I, cls, args, kwargs):
    if is_dict_cls(cls):
        r = I.alloc(Obj("dct", (), ("inst", cls)))
        init, ok = cls_lookup(I, cls, "__init__")
        if ok and isinstance(init, Fn):
            I.call(init, [r] + list(args), kwargs)
            return r
        d = OrderedDict()
        for a in args:
            for k, v in I.dict_items(a):
                d[k] = v
        d.update(kwargs)
        I.st.heap[r.loc] = Obj("dct", tuple(d.items()), ("inst", cls))
        return r
    r = I.alloc(Obj("inst", (), ("obj", cls)))
    init, ok = cls_lookup(I, cls, "__init__")
    if ok and isinstance(init, Fn):
        I.call(init, [r] + list(args), kwargs)
    return r


def conc_truth(I, v):
    return I.resolve(I.truth(v))


def call_ext(I, name, args, kwargs, node):
    def A(i, key, default=None):
        if i < len(args):
            return args[i]
        return kwargs.get(key, default)

    if name.startswith("numpy."):
        return np_call(I, name[6:], args, kwargs, node)
    if name.startswith("math."):
        n = name[5:]
        if n in ("sqrt", "exp", "log", "floor", "ceil", "cos", "sin", "fabs", "tanh", "log2", "log10", "log1p", "pow"):
            if n == "pow":
                return power(I.val(args[0]), I.val(args[1]))
            return unary(I, UNARY[n], I.val(args[0]))
        if n == "isnan":
            return isnan(I.val(args[0]))
        if n == "isinf" or n == "isfinite":
            return mk("np_b", (n, I.val(args[0])), ())
        if n == "fsum":
            return call_ext(I, "sum", args, kwargs, node)
        if n == "prod":
            return np_call(I, "prod", args, kwargs, node)
        raise Unsupported(name, I.src)
    # --- builtins
    if name == "len":
        return length(I, args[0])
    if name == "range":
        return range_(I, args)
    if name == "zip":
        return zip_(I, args)
    if name == "enumerate":
        s = A(1, "start")
        return enumerate_(I, args[0], ZERO if s is None else I.val(s))
    if name == "map":
        return map_(I, args[0], args[1:])
    if name in ("min", "max"):
        if kwargs:
            raise Unsupported(name + " with options", I.src)
        if len(args) == 1:
            v = args[0]
            if isinstance(v, Gen):
                v = I.consume_gen(v)
            if isinstance(v, Iterable) and v.kind == "concrete":
                ts = [I.val(x) for x in v.items]
            else:
                s = I.seq(v)
                ts = [I.val(x) for x in s] if s is not None else None
            if ts is None:
                return I.new(reduce_(I, name, I.val(v), None))
            if not ts:
                I.raise_("ValueError", None, implicit=True)
                return UNDEF
        else:
            ts = [I.val(x) for x in args]
        if any(t.shape not in ((),) for t in ts):
            raise Unsupported("min of arrays", I.src)
        return min_(*ts) if name == "min" else max_(*ts)
    if name in ("sum", "any", "all"):
        v = args[0]
        if isinstance(v, Gen):
            v = I.consume_gen(v)
        s = I.seq(v)
        if isinstance(v, Iterable) and v.kind == "concrete":
            s = v.items
        if s is not None:
            ts = [I.val(x) for x in s]
            if name == "sum":
                r = add(*ts) if ts else ZERO
                if len(args) > 1:
                    r = add(r, I.val(args[1]))
                return I.new(r)
            ts = [I.truth(x) for x in s]
            return bor(*ts) if name == "any" else band(*ts)
        t = I.val(v)
        if name == "sum":
            r = red("sum", t, 0) if t.shape and len(t.shape) <= 2 else reduce_(I, "sum", t, 0)
            if len(args) > 1:
                r = add(r, I.val(args[1]))
            return I.new(r)
        if t.shape is not None and len(t.shape) != 1:
            raise Unsupported(name + " over rows", I.src)
        return reduce_(I, name, t, None)
    if name == "int":
        if not args:
            return ZERO
        t = I.val(args[0])
        if t is NONE:
            I.raise_("TypeError", None, implicit=True)
            return UNDEF
        return fn("int", t)
    if name == "float":
        t = I.val(args[0]) if args else ZERO
        if t.op == "const" and t.args[0] == "str":
            s = t.args[1].strip().lower()
            if s in ("inf", "+inf", "infinity"):
                return INF
            if s == "-inf":
                return neg(INF)
            if s == "nan":
                return NAN
        if t is NONE:
            I.raise_("TypeError", None, implicit=True)
            return UNDEF
        while t.shape:
            t = at(t, 0, ZERO)
        return tonum(t)
    if name == "bool":
        return I.truth(args[0]) if args else FALSE
    if name == "abs":
        return I.new(fn("abs", I.val(args[0])))
    if name == "round":
        if len(args) == 1:
            return fn("rint", I.val(args[0]))
        raise Unsupported("round", I.src)
    if name == "pow":
        return I.new(power(I.val(args[0]), I.val(args[1])))
    if name == "hasattr":
        return hasattr_(I, args[0], cval(I.val(args[1])))
    if name == "callable":
        return hasattr_(I, args[0], "__call__")
    if name == "getattr":
        n = cval(I.val(args[1]))
        if len(args) > 2:
            c = hasattr_(I, args[0], n)
            return I.fork(c, lambda: I.getattr(args[0], n), lambda: args[2])
        return I.getattr(args[0], n)
    if name == "delattr":
        I.del_attr(args[0], cval(I.val(args[1])))
        return NONE
    if name == "super":
        fr = next((f for f in reversed(I.frames) if f.fn is not None and f.fn.owner is not None), None)
        if fr is None:
            raise Unsupported("super", I.src)
        a = fr.fn.node.args
        return Super(I.st.envs[fr.envid][(a.posonlyargs + a.args)[0].arg], fr.fn.owner)
    if name == "setattr":
        I.setattr(args[0], cval(I.val(args[1])), args[2])
        return NONE
    if name == "isinstance":
        return isinstance_(I, args[0], args[1])
    if name == "type":
        return Ext("type()")
    if name in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter"):
        return listlike(I, name, args, kwargs)
    if name == "dict":
        r = I.alloc(Obj("dct", (), None))
        d = OrderedDict()
        for a in args:
            if isinstance(a, Iterable) or I.seq(a) is not None:
                its = a.items if isinstance(a, Iterable) else I.seq(a)
                for p in its:
                    d[I.pykey(I.val(p.items[0]))] = p.items[1]
            else:
                for k, v in I.dict_items(a):
                    d[k] = v
        d.update(kwargs)
        I.st.heap[r.loc] = Obj("dct", tuple(d.items()), None)
        return r
    if name in ("repr", "str", "format"):
        return to_str(I, args[0], "r" if name == "repr" else -1) if args else const("")
    if name == "slice":
        a = [I.val(x) for x in args]
        if len(a) == 1:
            a = [NONE, a[0], NONE]
        while len(a) < 3:
            a.append(NONE)
        return mk("slice", tuple(a), None)
    if name == "object":
        return I.alloc(Obj("inst", (), ("object",)))
    if name in ("print", "warnings.warn", "input", "open", "exec", "eval", "exit", "quit"):
        I.emit("extern", name=name)
        return NONE
    if name in BUILTIN_EXC:
        return I.alloc(Obj("inst", (), ("exc", name)))
    if name == "functools.wraps":
        return Partial(Ext("$wraps"), [args[0]], {})
    if name == "$wraps":
        g = args[1]
        if isinstance(g, Fn):
            w = args[0]
            g.wraps = w
            g.name = w.name if isinstance(w, Fn) else g.name
        return g
    if name == "functools.partial":
        return Partial(args[0], list(args[1:]), OrderedDict(kwargs))
    if name in ("staticmethod", "classmethod", "property"):
        raise Unsupported(name, I.src)
    if name in ("copy.copy", "copy.deepcopy"):
        v = args[0]
        if isinstance(v, (Ref, View)):
            ob = I.st.heap[v.loc]
            if ob.kind in ("dct", "lst") and name == "copy.copy":
                return I.alloc(Obj(ob.kind, ob.data, ob.meta))
            if ob.kind == "dct":
                return I.alloc(Obj("dct", tuple((k, call_ext(I, name, [x], {}, node)) for k, x in ob.data), ob.meta))
            return I.alloc(Arr(I.val(v), I.dtype(v))) if ob.kind == "arr" else I.alloc(Obj("lst", ob.data, ob.meta))
        return v
    if name == "joblib.Parallel":
        d = OrderedDict(kwargs)
        for i, a in enumerate(args):
            d[["n_jobs", "backend"][i]] = a
        return I.alloc(Obj("inst", tuple(d.items()), ("pool",)))
    if name == "joblib.delayed":
        return Delayed(args[0])
    if name.startswith("mpi4py."):
        return mpi_call(I, name, args, kwargs, A)
    if name in ("object.__setattr__", "object.__delattr__"):
        return NONE
    if name.startswith("dict."):
        return dict_method(I, args[0], name[5:], list(args[1:]), kwargs, lambda i, k, d=None: (args[1:][i] if i < len(args) - 1 else kwargs.get(k, d)))
    if name in ("operator.itemgetter", "operator.attrgetter"):
        raise Unsupported(name, I.src)
    if name in ("itertools.count",):
        raise Unsupported(name, I.src)
    I.emit("extern", name=name)
    if name.startswith(("time.", "os.", "random.", "datetime.", "secrets.", "uuid.")):
        return mk("world", (name,), ())
    if name.startswith(("logging.", "warnings.", "sys.")):
        return NONE
    raise Unsupported("call of " + name, I.src)


def hasattr_(I, o, name):
    if isinstance(o, Choice):
        return ite(o.cond, hasattr_(I, o.a, name), hasattr_(I, o.b, name))
    if name == "__call__":
        if isinstance(o, UFn):
            if getattr(o, "maybe", False):
                return mk("bsym", ("callable:" + o.name,), ())
            return TRUE
        if isinstance(o, (Fn, Ext, Cls, Bound, Partial, Delayed)):
            return TRUE
        if isinstance(o, T) and o.op == "sym" and o.args[0].startswith("opt:"):
            return mk("bsym", ("callable:" + o.args[0],), ())
        return FALSE
    if isinstance(o, Ref) and I.st.heap[o.loc].kind in ("dct", "inst"):
        return boolc(name in dict(I.st.heap[o.loc].data))
    if isinstance(o, Fn):
        return boolc(name in dict(I.st.heap[o.loc].data) or name in ("__name__", "__doc__"))
    if isinstance(o, (Ref, View)):
        return boolc(name in ARR_METHODS or name in ("shape", "ndim", "size", "T", "__len__", "__iter__", "__array__"))
    if isinstance(o, UFn):
        return mk("bsym", ("hasattr:%s.%s" % (o.name, name),), ())
    if isinstance(o, T):
        return FALSE
    return FALSE


def isinstance_(I, v, cls):
    if isinstance(v, Choice):
        return ite(v.cond, isinstance_(I, v.a, cls), isinstance_(I, v.b, cls))
    names = []
    for c in (cls.items if isinstance(cls, Tup) else [cls]):
        names.append(c.name.split(".")[-1] if isinstance(c, (Ext, Cls)) else "?")
    if isinstance(v, T):
        if v is NONE:
            return boolc("NoneType" in names)
        if v.op == "const":
            return boolc(v.args[0] in names or v.args[0] == "bool" and "int" in names)
        if is_bool(v):
            return boolc("bool" in names or "int" in names)
        if v.op == "ite" and v.shape == ():
            return ite(v.args[0], isinstance_(I, v.args[1], cls), isinstance_(I, v.args[2], cls))
        key = ",".join(sorted(names))
        if is_numeric(v) and any(n in ("int", "float", "integer", "floating", "number", "Number", "Real", "Integral") for n in names):
            if set(names) >= {"int", "float"} or "Number" in names or "number" in names:
                return TRUE
            if "int" in names and is_int(v):
                return TRUE
        return mk("bsym", ("isinstance:%s" % key, v), ())
    if isinstance(v, Ref):
        o = I.st.heap[v.loc]
        if o.kind == "arr":
            return boolc("ndarray" in names)
        if o.kind == "lst":
            return boolc("list" in names)
        if o.kind == "dct":
            return boolc("dict" in names or (o.meta and o.meta[0] == "inst" and o.meta[1].name in names))
    if isinstance(v, View):
        return boolc("ndarray" in names)
    if isinstance(v, Tup):
        return boolc("tuple" in names or isinstance(v, PSet) and "set" in names)
    return FALSE


def listlike(I, name, args, kwargs):
    if not args:
        return Tup([]) if name == "tuple" else PSet([]) if name in ("set", "frozenset") else I.alloc(Obj("lst", ()))
    v = args[0]
    if isinstance(v, Gen):
        v = I.consume_gen(v)
    if isinstance(v, Choice) and not I.arrayish(v):
        return I.dist(v, lambda x: listlike(I, name, [x], kwargs))
    items = I.concrete_items(v)
    if items is not None:
        if name == "sorted":
            try:
                def key(x):
                    x = x.items[0] if isinstance(x, Tup) else x
                    return cval(x)
                items = sorted(items, key=key, reverse=bool(kwargs))
            except Exception:
                raise Unsupported("sorted", I.src)
        if name == "reversed":
            items = items[::-1]
        if name == "tuple":
            return Tup(items)
        if name in ("set", "frozenset"):
            return PSet(items)
        if name in ("iter", "reversed"):
            r = Iterable(num(len(items)), None, "concrete")
            r.items = items
            return r
        return I.alloc(Obj("lst", tuple(items)))
    if name == "reversed":
        it = I.iterable(v)
        if it.kind == "range":
            lo, n, st = it.info
            return make_range(I, add(lo, mul2(st, sub(n, ONE))), n, neg(st))
        return Iterable(it.count, lambda k: it.get(sub(sub(it.count, ONE), k)))
    if name in ("iter",):
        return v
    t = I.val(v)
    if name == "sorted":
        if kwargs:
            raise Unsupported("sorted with options", I.src)
        t = take(t, 0, argsort(t))
    if t.shape == () and t.op == "sym":
        # an unknown sequence of the caller
        return I.alloc(Obj("lst", t)) if name == "list" else v
    if name in ("set", "frozenset"):
        raise Unsupported("set of an array", I.src)
    return I.alloc(Obj("lst", t))


# ---------------------------------------------------------------- MPI
def mpi_syms():
    size = sym("mpi_size", (), ONE, None, True)
    return sym("mpi_rank", (), ZERO, sub(size, ONE), True), size


def mpi_call(I, name, args, kwargs, A):
    n = name.split(".")[-1]
    I.emit("mpi", name=n)
    rank_, size = mpi_syms()
    if n in ("Get_rank",):
        return rank_
    if n in ("Get_size",):
        return size
    if n in ("Barrier", "barrier"):
        return NONE
    if n == "bcast":
        v = args[0]
        if isinstance(v, (Ref, View)):
            return I.new(root(I.val(v)))
        return root(I.val(v))
    if n in ("Bcast", "Ibcast"):
        b = mpi_buf(I, args[0])
        t = I.val(b)
        r = root(t)
        if r is not t:
            I.write(b, (), r)
        return NONE
    if n in ("Allreduce", "allreduce"):
        op = kwargs.get("op")
        if op is None:
            op = args[2] if len(args) > 2 else Ext("mpi4py.MPI.SUM")
        opn = op.name.split(".")[-1] if isinstance(op, Ext) else "?"
        src = mpi_buf(I, args[0])
        t = reduce_ranks(I.val(src), opn, rank_, size, I)
        if n == "allreduce":
            return I.new(t)
        dst = mpi_buf(I, args[1])
        I.write(dst, (), t)
        return NONE
    if n in ("allgather", "gather", "Gather", "Allgather", "scatter", "Scatter", "send", "recv", "Reduce", "reduce"):
        raise Unsupported("MPI " + n, I.src)
    return Ext(name + "()")


def mpi_buf(I, v):
    s = I.seq(v)
    if s:
        return s[0]
    return v


def rank_dependent(t, memo={}):
    r = memo.get(t)
    if r is None:
        if t.op == "sym" and t.args[0] in ("mpi_rank", "rng0"):
            r = True
        elif t.op in ("root", "allsum"):
            r = False
        elif t.op == "entropy":
            r = True
        else:
            r = any(rank_dependent(c) for c in children(t))
            if t.op in ("phi", "fin", "iter"):
                r = False  # decided by the prover through the recurrences
        memo[t] = r
    return r


def root(t):
    if t.op == "root":
        return t
    if not rank_dependent(t):
        return t
    return mk("root", (t,), t.shape)


def reduce_ranks(t, op, rank_, size, I):
    if op == "SUM" and t.op == "stos":
        B, ax, lo, n, step, v = t.args
        if B.op == "full" and B.args[1] is ZERO and ax == 0 and lo is rank_ and step is size and B.shape is not None:
            N = B.shape[0]
            want = fn("ceil", div(sub(N, rank_), size))
            if n is want or n is max_(ZERO, want):
                i = fresh("i")
                g = at(v, 0, div(sub(i, rank_), size))
                if not depends(g, rank_) and not depends(g, size):
                    return mapt(N, i, g)
    if op == "SUM" and t.op == "map":
        # f = where(i % size == rank, g(i), 0)
        N, bv, body = t.args
        if body.op == "ite":
            c, a, b = body.args
            if b is ZERO and c is eq(fn("mod", bv, size), rank_):
                i = fresh("i")
                return mapt(N, i, subst(a, {bv: i}))
    if not rank_dependent(t) and op in ("MIN", "MAX"):
        return t
    return mk("allsum", (op, t), t.shape)
