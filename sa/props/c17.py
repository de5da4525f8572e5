"""C17 Results are dictionaries with attribute access."""
from .. import models as M
from ..interp import Cls, Ref, Obj, Partial
from .common import *

EXPLANATION = ("The attribute protocol of every result class is interpreted on dictionaries with opaque values over a set of field "
               "name sets (none, only histories, all documented fields, unknown names, falsy values): getattr, setattr, delattr, "
               "a missing name, dir and repr. Attribute access must be item access of the same name and nothing else may change; "
               "a missing name must raise AttributeError; repr must not raise on any path and must contain the name and the repr "
               "of every field except the histories. The objects returned by each method, and the callback states, must be "
               "instances of these classes. Instances: class, operation, field set.")
MINIMUM = 200
ASSUMPTIONS = ["field names are checked on a finite set of names; the methods treat the name opaquely except for the histories"]

HIDDEN = ("xall", "funall")
SETS = [(), ("x",), ("xall",), ("xall", "funall"), ("funall", "fun"), ("foo",), ("fun", "a_rather_long_field_name"),
        ("x", "success", "status", "message", "fun", "nfev", "nit"),
        ("x", "success", "status", "message", "fun", "nfev", "nit", "xall", "funall"),
        ("x", "fun", "nit", "accept_ratio", "nfev", "xall", "funall"), ("x2", "funny", "allx"), ("overall", "x_all", "fun_all_"), ("message", "X")]
MISSING = ("nope", "__deepcopy__", "__array__", "x_", "shape", "_ipython_display_")


def value(k, i):
    if i == 1:
        return ZERO
    if i == 2:
        return NONE
    if i == 3:
        return FALSE
    if i == 4:
        return const("")
    return sym("value:" + k, (C.NDIM,) if i == 5 else ())


class Box:
    def __init__(self, entry, fields, style):
        from ..framework import ROOT as root

        self.I = I = C.interp(root)
        self.cls = C.resolve(I, entry)
        if not isinstance(self.cls, Cls):
            raise Unsupported("%s is not a class" % entry)
        I.frames.append(C.top_frame(I))
        self.fields = OrderedDict()
        for i, k in enumerate(fields):
            v = value(k, (style + i) % 6 if style else 0)
            self.fields[k] = I.alloc(IN.Arr(v, "f")) if v.shape else v
        self.r = I.call(self.cls, [], OrderedDict(self.fields))
        if not (isinstance(self.r, Ref) and I.st.heap[self.r.loc].kind == "dct"):
            raise Unsupported("%s is not a dictionary" % entry)
        self.n = len(I.events)

    def items(self):
        return OrderedDict(self.I.st.heap[self.r.loc].data)

    def same(self, a, b):
        if a is b or a == b:
            return True
        try:
            return self.I.val(a) is self.I.val(b)
        except Unsupported:
            return False

    def equal(self, d):
        e = self.items()
        return list(sorted(e)) == list(sorted(d)) and all(self.same(e[k], d[k]) for k in d)

    def raised(self):
        return [e for e in self.I.events[self.n:] if e.kind == "raise"]

    def where(self, name):
        f, ok = M.cls_lookup(self.I, self.cls, name)
        if isinstance(f, IN.Fn):
            return (f.module.file, f.node.lineno, f.name)
        c = self.cls
        while not any(name in self.I.st.envs[c.env] for _ in (0,)) and c.bases and isinstance(c.bases[0], Cls):
            c = c.bases[0]
        return (c.module.file, c.node.lineno, c.name)


def access(rep, entry, fields, style):
    note(rep, Shell(Box(entry, fields, style).I))
    for k in fields:
        b = Box(entry, fields, style)
        v = M.getattr_(b.I, b.r, k)
        rep.require(b.I.st.alive and not b.raised() and b.same(v, b.fields[k]) and b.equal(b.fields),
                    "reading an attribute reads the item", b.where("__getattr__"), "%s of %s" % (k, list(fields)))
        b = Box(entry, fields, style)
        b.I.del_attr(b.r, k)
        rep.require(b.I.st.alive and not b.raised() and b.equal({a: c for a, c in b.fields.items() if a != k}),
                    "deleting an attribute deletes the item", b.where("__delattr__"), "%s of %s" % (k, list(fields)))
    for k in tuple(fields) + ("added", "xall"):
        b = Box(entry, fields, style)
        new = sym("new")
        b.I.setattr(b.r, k, new)
        rep.require(b.I.st.alive and not b.raised() and b.equal(dict(b.fields, **{k: new})),
                    "setting an attribute sets the item", b.where("__setattr__"), "%s of %s" % (k, list(fields)))
    for k in MISSING + tuple(h for h in HIDDEN + ("x", "success") if h not in fields):
        b = Box(entry, fields, style)
        v = M.getattr_(b.I, b.r, k)
        ex = b.raised()
        rep.require(not b.I.st.alive and ex and all(e.exc == "AttributeError" for e in ex) and b.equal(b.fields),
                    "a missing name raises AttributeError", ex[0].src if ex else b.where("__getattr__"),
                    "%s of %s" % (k, list(fields)), why=ex[0].exc if ex else "gives a value")


def listing(rep, entry, fields, style):
    b = Box(entry, fields, style)
    note(rep, Shell(b.I))
    w = b.where("__dir__")
    f, ok = M.cls_lookup(b.I, b.cls, "__dir__")
    if rep.require(isinstance(f, IN.Fn), "attribute listing is the list of fields", w, "__dir__ is defined"):
        v = b.I.call(f, [b.r], {})
        if b.I.st.alive and b.I.concrete_items(v) is not None:
            got = [cval(b.I.val(x)) if is_const(b.I.val(x)) else "?" for x in b.I.concrete_items(v)]
        else:
            got = None
        rep.require(got is not None and sorted(got) == sorted(fields) and not b.raised() and b.equal(b.fields),
                    "attribute listing is the list of fields", w, str(list(fields)), why="gives %s" % (got,))
    for how in ("__repr__", "__str__"):
        b = Box(entry, fields, style)
        f, ok = M.cls_lookup(b.I, b.cls, how)
        if how == "__str__" and not isinstance(f, IN.Fn):
            continue
        w = b.where(how)
        if not isinstance(f, IN.Fn):
            rep.fail("printed form shows the fields but not the histories", w, "no " + how)
            continue
        v = b.I.call(f, [b.r], {})
        ex = b.raised()
        if not rep.require(b.I.st.alive and not ex, "printed form never fails", ex[0].src if ex else w, str(list(fields)),
                           why=ex[0].exc if ex else "no path returns"):
            continue
        rep.require(b.equal(b.fields), "printed form shows the fields but not the histories", w, "object unchanged")
        t = b.I.val(v)
        if not M.is_str(t) or any(x.op in ("strop", "strfmt", "ite") and not (x.op == "strfmt" and x.args[0].op == "str") for x in nodes(t)):
            rep.undecided("printed form shows the fields but not the histories", w, show(t, 4)[:200])
            continue
        for k in fields:
            x = b.I.val(b.fields[k])
            n = show_count(t, k, x)
            if k in HIDDEN:
                rep.require(not any(a is x for a in nodes(t)) or is_const(x) or is_num(x),
                            "printed form shows the fields but not the histories", w, "%s of %s" % (k, list(fields)), why="shown")
            else:
                rep.require(n, "printed form shows the fields but not the histories", w, "%s of %s" % (k, list(fields)), why="not shown: " + show(t, 4)[:200])


def show_count(t, k, x):
    """Is 'k' followed by the repr of x?"""
    parts = list(t.args) if t.op == "strcat" else [t]
    for i, p in enumerate(parts):
        if p.op == "const" and k in p.args[1]:
            text = p.args[1]
            if x.op == "const" or is_num(x) or x in (TRUE, FALSE, NONE):
                r = str(int(x.args[0])) if is_num(x) else repr(cval(x)) if is_const(x) else None
                if r is not None and r in text[text.index(k) + len(k):]:
                    return True
            tail = text[text.rindex(k) + len(k):]
            if "\n" not in tail and i + 1 < len(parts) and any(a is x for a in nodes(parts[i + 1])):
                return True
    return False


class Shell:
    def __init__(self, I):
        self.I = I


def classes():
    return ["stochopy.optimize.OptimizeResult", "stochopy.sample.SampleResult"]


def returned(rep, m, opts, name):
    r = start(rep, m, opts)
    from ..framework import ROOT as root

    I = r.I
    want = "OptimizeResult" if m in S.OPTIMIZERS else "SampleResult"
    ob = I.st.heap[r.result.loc] if isinstance(r.result, Ref) else None
    cls = ob.meta[1] if ob is not None and ob.meta and ob.meta[0] == "inst" else None
    rep.require(cls is not None and cls.name == want, "methods return result objects", (r.fn.module.file, r.fn.node.lineno, r.fn.name)
                if hasattr(r, "fn") else (r.entry, 0, r.entry), m, why="class %s" % (cls and cls.name))
    for e in after_import(r):
        if e.kind == "callback":
            c = getattr(e, "cls", None)
            rep.require(c is not None and c.name == want, "callback states are result objects", e, m, why="class %s" % (c and c.name))


def tasks(tier):
    out = []
    for entry in classes():
        for i, fs in enumerate(SETS):
            for st in (0, 1) if tier == "quick" else range(6):
                out.append(("%s/%s/%d" % (entry.split(".")[-1], i, st), access, (entry, fs, st)))
                out.append(("listing/%s/%s/%d" % (entry.split(".")[-1], i, st), listing, (entry, fs, st)))
    for m in S.METHODS:
        out.append(("returned/" + m, returned, (m, dict(callback=S.cb), "")))
    return out
