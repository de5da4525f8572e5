"""Summaries of loops: every location carried around the loop gets a phi term.

A phi has an initial value (state at entry) and a next value (state at the end of the
body, over the phis of the head).  Recurrences with a closed form (counters, constants,
generator advance) are replaced by it; at the exit of counted loops independent stores,
reductions and appends are closed as well.  Everything else stays a phi and is reasoned
about by induction in the provers.
"""
from collections import OrderedDict

from . import terms as tm
from .order import decide, facts
from .terms import *
from .interp import (UNDEF, Unsupported, Value, Ref, View, Tup, PSet, Choice, Fn, Obj, Arr, State, LoopCtx,
                     LoopInfo, LOOPS, Iterable, Gen, new_loc)

_n = [0]


class Poison(Value):
    """Value carried around a loop that no summary describes."""

    def __init__(self, why="?"):
        self.why = why

    def __eq__(self, o):
        return isinstance(o, Poison)

    def __hash__(self):
        return 7


def arrayish(I, st, v):
    if isinstance(v, Ref):
        o = st.heap.get(v.loc)
        return o is not None and o.kind in ("arr",)
    if isinstance(v, View):
        o = st.heap.get(v.loc)
        return o is not None and o.kind in ("arr", "lst")
    return False


def leaves(v, c=TRUE):
    if isinstance(v, Choice):
        for x in leaves(v.a, band(c, v.cond)):
            yield x
        for x in leaves(v.b, band(c, bnot(v.cond))):
            yield x
    else:
        yield c, v


class Slot:
    """What is known about one carried location."""

    def __init__(self, key, name):
        self.key, self.name = key, name
        self.kind = "num"
        self.shape = None
        self.mode = None  # term / poison / ref / tup / list
        self.dt = "f"
        self.closed = None
        self.noclose = False
        self.alts = None
        self.subs = {}
        self.aliased = False
        self.loc = None
        self.init = None
        self.next = None
        self.phi = None


class Loop:
    def __init__(self, I, node, body, count, test, orelse, collect):
        self.I, self.node, self.body = I, node, body
        self.count, self.test, self.orelse, self.collect = count, test, orelse, collect
        _n[0] += 1
        self.lid = _n[0]
        self.k = iterk(self.lid)
        self.S0 = I.st.copy()
        self.slots = OrderedDict()
        self.info = LoopInfo(self.lid)
        self.fr = I.frames[-1]
        self.src = I.src
        self.dims = {}

    # ------------------------------------------------------------ term slots
    def term_slot(self, key, name, init, nxt):
        """Slot for a term valued location; returns (slot, changed)."""
        s = self.slots.get(key)
        changed = False
        if s is None:
            s = self.slots[key] = Slot(key, name)
            s.mode = "term"
            changed = True
        s.init = init
        shape, kind = self.join(init, nxt, s, key)
        if kind != s.kind or shape is not s.shape and shape != s.shape:
            changed = True
            s.kind, s.shape = kind, shape
        if s.phi is None or changed:
            s.phi = phi(self.lid, name, s.shape, s.kind)
        s.next = nxt
        return s, changed

    def kind_of(self, t):
        if t is UNDEF:
            return None
        if t is NONE or may_none(t):
            return "opt"
        if is_bool(t):
            return "bool"
        if is_int(t):
            return "int"
        if t.op == "const":
            return "opt"
        return "num"

    def join(self, a, b, s, key):
        ka, kb = self.kind_of(a), self.kind_of(b)
        old = s.kind if s.phi is not None else None
        ks = {k for k in (ka, kb, old) if k}
        if not ks:
            kind = "num"
        elif len(ks) == 1:
            kind = ks.pop()
        elif "opt" in ks:
            kind = "opt"
        else:
            kind = "num"
        if a is UNDEF or a is NONE:
            shape = self.steady(b.shape, s, key)
        elif b is UNDEF or b is NONE:
            shape = a.shape
        elif a.shape == b.shape:
            shape = a.shape
        elif a.shape is None or b.shape is None or len(a.shape) != len(b.shape):
            shape = None
        else:
            out = []
            for i, (x, y) in enumerate(zip(a.shape, b.shape)):
                if x is y:
                    out.append(x)
                else:
                    d = self.dims.get((key, i))
                    if d is None:
                        d = self.dims[(key, i)] = sym("dim%d_%d" % (self.lid, len(self.dims)), (), ZERO, None, True)
                    out.append(d)
            shape = tuple(out)
        return shape, kind

    def steady(self, shape, s, key):
        """Shape of a value assigned in the body: extents varying from pass to pass get a name."""
        old = s.shape
        if shape is None or old is None or len(old) != len(shape):
            return shape
        out = []
        for i, (x, y) in enumerate(zip(old, shape)):
            if x is not y:
                x = self.dims.get((key, i))
                if x is None:
                    x = self.dims[(key, i)] = sym("dim%d_%d" % (self.lid, len(self.dims)), (), ZERO, None, True)
            out.append(x)
        return tuple(out)

    def term_head(self, s):
        return s.closed if s.closed is not None else s.phi

    # ------------------------------------------------------------ value slots
    def head_value(self, key, v0):
        """Value at the loop head of the location key (its slot exists)."""
        s = self.slots[key]
        if s.mode == "term":
            return self.term_head(s)
        if s.mode == "poison":
            return Poison(s.name)
        if s.mode == "tup":
            return Tup([self.head_value((key, i), v0.items[i] if isinstance(v0, Tup) else None)
                        if (key, i) in self.slots else v0.items[i] for i in range(s.n)])
        if s.mode == "ref":
            v = None
            for j in range(len(s.alts) - 1, -1, -1):
                w = self.alt_value(s, j)
                v = w if v is None else Choice(self.term_head(self.slots[(key, "flag", j)]), w, v)
            return v
        raise Unsupported("loop slot", self.src)

    def alt_value(self, s, j):
        a = s.alts[j]
        if a[0] == "ext":
            return a[1]
        if a[0] == "fresh":
            return Ref(s.loc)
        if a[0] == "same":
            return Ref(self.slots[a[1]].loc)
        if a[0] == "view":
            path, n = [], 0
            for p in a[2]:
                q = []
                for x in p:
                    if x == "?":
                        q.append(self.term_head(self.slots[(s.key, "path", j, n)]))
                        n += 1
                    else:
                        q.append(x)
                path.append(tuple(q))
            return View(a[1], tuple(path))
        raise Unsupported("loop alternative", self.src)

    def poison(self, key, name):
        s = self.slots.get(key)
        if s is not None and s.mode == "poison":
            return False
        s = self.slots[key] = Slot(key, name)
        s.mode = "poison"
        return True

    def carry(self, key, name, v0, v1, E):
        """Update the slot of a location with entry value v0 and end value v1."""
        I = self.I
        s = self.slots.get(key)
        if s is None and (v0 is v1 or v0 == v1):
            return False
        if s is not None and s.mode == "poison":
            return False
        if v0 is None:
            v0 = UNDEF
        if v1 is None:
            v1 = UNDEF
        t0, t1 = isinstance(v0, T), isinstance(v1, T)
        if t0 and t1:
            if s is not None and s.mode != "term":
                return self.poison(key, name)
            return self.term_slot(key, name, v0, v1)[1]
        if isinstance(v0, Tup) and isinstance(v1, Tup) and len(v0.items) == len(v1.items):
            ch = False
            if s is None:
                s = self.slots[key] = Slot(key, name)
                s.mode, s.n = "tup", len(v0.items)
                ch = True
            for i, (a, b) in enumerate(zip(v0.items, v1.items)):
                ch |= self.carry((key, i), "%s.%d" % (name, i), a, b, E)
            return ch
        l0, l1 = list(leaves(v0)), list(leaves(v1))
        ok = all(arrayish(I, self.S0, x) or x is NONE or x is UNDEF for c, x in l0)
        for c, x in l1:
            ok = ok and (arrayish(I, E, x) or x is NONE or x is UNDEF or isinstance(x, T) and x.shape == ())
        if not ok:
            return self.poison(key, name)
        return self.carry_ref(key, name, v0, l0, v1, l1, E)

    def carry_ref(self, key, name, v0, l0, v1, l1, E):
        I = self.I
        s = self.slots.get(key)
        ch = False
        if s is None:
            s = self.slots[key] = Slot(key, name)
            s.mode, s.alts = "ref", []
            s.loc = new_loc()
            ch = True
        if s.mode != "ref":
            return self.poison(key, name)
        copy = not s.aliased

        def alt_of(x, st, end):
            """Index of the alternative for a leaf, and its data or parameters."""
            nonlocal ch
            if x is NONE or (x is UNDEF and not copy):
                a = ("ext", x)
                data = None
            elif x is UNDEF:
                a, data = ("fresh",), UNDEF
            elif isinstance(x, T):
                a, data = ("fresh",), x
            elif copy:
                if isinstance(x, Ref) and x.loc == s.loc and end:
                    a, data = ("fresh",), st.heap[s.loc].data
                else:
                    st0 = I.st
                    I.st = st
                    data = I.val(x)
                    s.dt = I.dtype(x)
                    I.st = st0
                    a = ("fresh",)
            elif isinstance(x, Ref) and x.loc == s.loc:
                a, data = ("fresh",), st.heap[s.loc].data
            elif isinstance(x, Ref):
                if x.loc in self.S0.heap:
                    a, data = ("ext", x), None
                elif x.loc in self.owner:
                    a, data = ("same", self.owner[x.loc]), None
                else:
                    self.owner.setdefault(x.loc, key)
                    a, data = ("fresh",), st.heap[x.loc].data
            elif isinstance(x, View) and not end:
                a, data = ("ext", x), None
            else:
                base = x.loc
                if base in self.S0.heap or base in self.phiocs():
                    pat, data = [], []
                    for p in x.path:
                        q = []
                        for y in p:
                            if isinstance(y, T):
                                q.append("?")
                                data.append(y)
                            else:
                                q.append(y)
                        pat.append(tuple(q))
                    if not data and base in self.S0.heap:
                        a, data = ("ext", x), None
                    else:
                        a = ("view", base, tuple(pat))
                else:
                    st0 = I.st
                    I.st = st
                    data = I.val(x)
                    I.st = st0
                    a = ("fresh",)
            if a not in s.alts:
                s.alts.append(a)
                ch = True
            return s.alts.index(a), data

        init = [alt_of(x, self.S0, False) + (c,) for c, x in l0]
        # leaves that are this slot's own head value under a constant alternative
        nxt = [alt_of(x, E, True) + (c,) for c, x in l1]
        n = len(s.alts)
        for j in range(n):
            if j < n - 1:
                fi = bor(*[c for a, d, c in init if a == j]) if any(a == j for a, d, c in init) else FALSE
                fn_ = bor(*[c for a, d, c in nxt if a == j]) if any(a == j for a, d, c in nxt) else FALSE
                ch |= self.term_slot((key, "flag", j), "%s?%d" % (name, j), fi, fn_)[1]
            a = s.alts[j]
            if a[0] == "fresh":
                ch |= self.term_slot((key, "data"), name, self.fold(init, j), self.fold(nxt, j, self.term_at(key)))[1]
            elif a[0] == "view":
                np_ = len([1 for p in a[2] for x in p if x == "?"])
                for q in range(np_):
                    i_ = self.fold([(x, d[q] if d else None, c) for x, d, c in init if x == j], j)
                    old = self.slots.get((key, "path", j, q))
                    n_ = self.fold([(x, d[q], c) for x, d, c in nxt if x == j], j,
                                   self.term_head(old) if old else None)
                    ch |= self.term_slot((key, "path", j, q), "%s#%d" % (name, q), i_, n_)[1]
        return ch

    def term_at(self, key):
        o = self.slots.get((key, "data"))
        return self.term_head(o) if o is not None else None

    def fold(self, lst, j, dflt=None):
        ds = [(c, d) for a, d, c in lst if a == j]
        if not ds:
            return dflt if dflt is not None else UNDEF
        out = ds[-1][1]
        for c, d in reversed(ds[:-1]):
            out = ite(c, d, out) if d is not out else out
        return out

    def phiocs(self):
        return {s.loc for s in self.slots.values() if s.mode == "ref"}

    # ------------------------------------------------------------ heap slots
    def carry_heap(self, loc, o0, o1):
        if o0 is o1 or o0 == o1:
            if not any(isinstance(k, tuple) and k[0] == "h" and k[1] == loc for k in self.slots):
                return False
        ch = False
        name = self.locname(loc)
        if o0.kind == "arr" and o1.kind == "arr":
            return self.term_slot(("h", loc), name, o0.data, o1.data)[1]
        if o0.kind == "lst":
            t0 = o0.data
            t1 = o1.data
            if not isinstance(t0, T) and not isinstance(t1, T) and len(t0) == len(t1) and ("h", loc) not in self.slots:
                if any(isinstance(k, tuple) and k[:2] == ("hl", loc) for k in self.slots) or t0 != t1:
                    for i, (a, b) in enumerate(zip(t0, t1)):
                        ch |= self.carry(("hl", loc, i), "%s[%d]" % (name, i), a, b, self.E)
                return ch
            v0 = self.val_in(self.S0, Ref(loc)) if not (not isinstance(t0, T) and len(t0) == 0) else None
            v1 = self.val_in(self.E, Ref(loc))
            s = self.slots.get(("h", loc))
            if s is None:
                s = self.slots[("h", loc)] = Slot(("h", loc), name)
                s.mode = "list"
                s.len0 = ZERO if v0 is None else dim(v0)
                if v0 is None:
                    v0 = mk("stack", (), (ZERO,) + tuple(v1.shape[1:] if v1.shape else ()))
                s.init = v0
                s.step = sub(dim(v1), s.len0)
                if has_loop(s.step, self.lid):
                    raise Unsupported("list growing irregularly in a loop", self.src)
                s.shape = (add(s.len0, mul2(s.step, self.k)),) + tuple(v1.shape[1:])
                s.phi = phi(self.lid, name, s.shape, "num")
                s.next = v1
                return True
            if v0 is None:
                v0 = s.init
            s.next = v1
            if tuple(v1.shape[1:]) != tuple(s.shape[1:]):
                raise Unsupported("list of varying elements in a loop", self.src)
            return False
        if o0.kind in ("dct", "inst") and o1.kind == o0.kind:
            d0, d1 = dict(o0.data), dict(o1.data)
            for k in list(d0) + [k for k in d1 if k not in d0]:
                ch |= self.carry(("hd", loc, k), "%s.%s" % (name, k), d0.get(k), d1.get(k), self.E)
            return ch
        raise Unsupported("heap object changing kind in a loop", self.src)

    def val_in(self, st, v):
        I = self.I
        old = I.st
        I.st = st
        r = I.val(v)
        I.st = old
        return r

    def locname(self, loc):
        if isinstance(loc, str):
            return loc
        # the name of a variable bound to the location at entry
        for fr in reversed(self.I.frames):
            for n, v in self.S0.envs.get(fr.envid, {}).items():
                if isinstance(v, Ref) and v.loc == loc:
                    return n
        return "heap"

    # ------------------------------------------------------------ one pass
    def install(self):
        I = self.I
        I.st = self.S0.copy()
        st = I.st
        for key, s in self.slots.items():
            if key[0] == "e" and len(key) == 3:
                st.envs[key[1]][key[2]] = self.head_value(key, self.S0.envs[key[1]].get(key[2]))
            elif key[0] == "h" and len(key) == 2:
                o = self.S0.heap[key[1]]
                st.heap[key[1]] = Obj(o.kind, self.term_head(s), o.meta)
            elif key[0] == "hd" and len(key) == 3:
                o = st.heap[key[1]]
                d = OrderedDict(o.data)
                d[key[2]] = self.head_value(key, d.get(key[2]))
                st.heap[key[1]] = Obj(o.kind, tuple(d.items()), o.meta)
            elif key[0] == "hl" and len(key) == 3:
                o = st.heap[key[1]]
                l = list(o.data)
                l[key[2]] = self.head_value(key, l[key[2]])
                st.heap[key[1]] = Obj(o.kind, tuple(l), o.meta)
            if s.mode == "ref":
                d = self.slots.get((key, "data"))
                if d is not None:
                    st.heap[s.loc] = Arr(self.term_head(d), s.dt)

    def run_pass(self):
        I = self.I
        I.events[self.mark:] = []
        I.st.alive = True
        self.install()
        ctx = LoopCtx()
        ctx.frame = self.fr
        I.loopctx.append(ctx)
        I.loopstack.append(self.lid)
        base = len(I.st.gate)
        pc0 = I.st.pc
        lits = []
        try:
            if self.count is not None:
                cond = lt(self.k, self.count)
                tm.LOOP_COUNT[self.lid] = self.count
                self.head = I.st.copy()
                hc = cond
            else:
                v = I.ev(self.test)
                hc = I.truth(v)
                if not I.st.alive:
                    raise Unsupported("exception in a loop condition", self.src)
                self.head = I.st.copy()
                # decided by what is known before the loop or by the head state itself
                d = I.resolve(hc)
                if hc is TRUE or d is TRUE:
                    hc = TRUE
            self.cond = hc
            self.info.cond = hc
            I.st.pc = pc0 + ((hc,) if hc is not TRUE else ()) + (le(ZERO, self.k),)
            self.info.body_pc = I.st.pc
            self.body(self.k)
        finally:
            I.loopctx.pop()
            I.loopstack.pop()
        outs = list(ctx.continues)
        if I.st.alive:
            outs.append(I.st)
        self.breaks, self.returns = ctx.breaks, ctx.returns
        self.base = base
        self.collected = None
        if self.collect is not None and I.st.alive:
            self.collected = self.collect.get("v")
        if outs:
            self.E = I.merge_outs(outs, base, pc0, I.st.gate[:base])
            self.backs = [band(*o.gate[base:]) for o in outs]
        else:
            self.E = None
            self.backs = []

    def compare(self):
        """Extend the slots by the differences between head and end states."""
        if self.E is None:
            return False
        ch = False
        E, S0 = self.E, self.S0
        self.owner = {}
        keys = [k for k in self.slots]
        for envid, env0 in S0.envs.items():
            env1 = E.envs.get(envid)
            if env1 is None:
                continue
            for n in list(env0) + [n for n in env1 if n not in env0]:
                v0, v1 = env0.get(n), env1.get(n)
                key = ("e", envid, n)
                if v0 is v1 and key not in self.slots:
                    continue
                ch |= self.carry(key, n, v0, v1, E)
        for loc, o0 in S0.heap.items():
            o1 = E.heap.get(loc)
            if o1 is None:
                continue
            ch |= self.carry_heap(loc, o0, o1)
        return ch

    # ------------------------------------------------------------ hazards
    def hazards(self):
        """Slots summarized by value whose arrays are written while shared."""
        I = self.I
        written = set()
        for e in I.events[self.mark:]:
            if e.kind == "write":
                written.add(e.loc)
        ch = False
        refs = self.ref_counts()
        for key, s in list(self.slots.items()):
            if s.mode != "ref" or s.aliased:
                continue
            hit = False
            if key[0] == "e":
                v0 = self.S0.envs[key[1]].get(key[2])
                v1 = self.E.envs[key[1]].get(key[2])
            else:
                continue
            ends = {}
            for c, x in leaves(v1):
                if isinstance(x, (Ref, View)):
                    ends[x.loc] = x
            for c, x in leaves(v0):
                if isinstance(x, (Ref, View)):
                    # the entry array is also reachable elsewhere
                    if refs.get(x.loc, 0) > 1 or isinstance(x, View):
                        if x.loc in written or s.loc in written or self.written_through(x.loc, written):
                            hit = True
            for l, x in ends.items():
                if l == s.loc:
                    continue
                if isinstance(x, View) and (l in self.S0.heap or l in self.phiocs()):
                    if l in written or s.loc in written:
                        hit = True
                elif l in self.S0.heap and (l in written or s.loc in written):
                    hit = True
                else:
                    # shared with another carried variable
                    for k2, s2 in self.slots.items():
                        if k2 == key or s2.mode != "ref" or k2[0] != "e":
                            continue
                        w = self.E.envs[k2[1]].get(k2[2])
                        if any(isinstance(y, (Ref, View)) and y.loc == l for _, y in leaves(w)):
                            if s.loc in written or s2.loc in written:
                                hit = True
            if hit:
                s.aliased = True
                s.alts = []
                for k in [k for k in self.slots if isinstance(k, tuple) and k[0] == key]:
                    del self.slots[k]
                # the conversion rebuilds the slot from its leaves
                ch = True
        return ch

    def written_through(self, loc, written):
        """Another carried variable starting at loc is written in the body."""
        for key, s in self.slots.items():
            if s.mode == "ref" and key[0] == "e":
                v0 = self.S0.envs[key[1]].get(key[2])
                if any(isinstance(x, (Ref, View)) and x.loc == loc for _, x in leaves(v0)):
                    if s.loc in written:
                        return True
        return False

    def ref_counts(self):
        n = {}

        def walk(v):
            if isinstance(v, (Ref, View)):
                n[v.loc] = n.get(v.loc, 0) + 1
            elif isinstance(v, Tup):
                for x in v.items:
                    walk(x)
            elif isinstance(v, Choice):
                walk(v.a)
                walk(v.b)

        for env in self.S0.envs.values():
            for v in env.values():
                walk(v)
        for o in self.S0.heap.values():
            if o.kind in ("dct", "inst"):
                for k, v in o.data:
                    walk(v)
            elif o.kind == "lst" and not isinstance(o.data, T):
                for v in o.data:
                    walk(v)
        return n

    # ------------------------------------------------------------ closed forms
    def term_slots(self):
        for key, s in self.slots.items():
            if s.mode == "term":
                yield key, s

    def close(self):
        """Find recurrences with a closed form; True when another pass is needed."""
        ch = False
        for key, s in self.term_slots():
            if s.closed is not None or s.noclose or s.phi is None:
                continue
            c = self.closed_form(s)
            if c is not None:
                s.closed = c
                ch = True
        return ch

    def closed_form(self, s):
        n, i = s.next, s.init
        if n is s.phi:
            return i
        if i is UNDEF or n is UNDEF:
            return None
        if s.kind == "opt" or s.shape is None:
            if not has_loop(n, self.lid) and s.shape == ():
                return ite(eq(self.k, ZERO), i, n)
            return None
        if key_is_rng(s):
            others = {x for x in self.loop_leaves(n)} - {s.phi}
            if not others:
                b = mk("stv", ("S",), ())
                return mk("advk", (i, self.k, subst(n, {s.phi: b})), ())
            return None
        if s.shape == () and s.kind != "bool":
            d = sub(n, s.phi)
            if not has_loop(d, self.lid):
                return add(i, mul2(d, self.k))
        if not has_loop(n, self.lid) and s.shape == ():
            return ite(eq(self.k, ZERO), i, n)
        if s.kind == "int" and s.shape == () and i.shape == () and is_numeric(i):
            if not self.open(n):
                # assigned from the counter alone
                return ite(eq(self.k, ZERO), i, subst(n, {self.k: sub(self.k, ONE)}))
            # moves in step with another integer
            d = self.delta(n, s.phi)
            if d is not None:
                for key, o in self.term_slots():
                    if o is s:
                        break
                    if o.kind == "int" and o.closed is None and o.phi is not None and o.shape == () and is_int(o.init) \
                            and self.delta(o.next, o.phi) is d:
                        return add(o.phi, sub(i, o.init))
        return None

    def delta(self, n, p):
        """Increment of p, operand by operand of a join."""
        if n.op == "ite":
            a, b = self.delta(n.args[1], p), self.delta(n.args[2], p)
            return None if a is None or b is None else ite(n.args[0], a, b)
        if n.op == "fin":
            return mk("dstep", (n,), ()) if False else None
        d = sub(n, p)
        return None if depends(d, p) else d

    def loop_leaves(self, t):
        out = set()
        seen = set()
        st = [t]
        while st:
            a = st.pop()
            if a in seen or not has_loop(a, self.lid):
                continue
            seen.add(a)
            if a.op in ("phi", "iter") and a.args[0] == self.lid:
                out.add(a)
            elif a.op == "fin":
                out.add(a)
            else:
                st.extend(children(a))
        return out

    def verify_closed(self):
        """Check the closed forms on the last pass."""
        bad = False
        m = {self.k: add(self.k, ONE)}
        for key, s in self.term_slots():
            if s.closed is None:
                continue
            if s.closed.op == "advk":
                b = mk("stv", ("S",), ())
                want = subst(s.closed.args[2], {b: s.closed})
            elif s.closed is s.init:
                want = s.init
            else:
                mm = dict(m)
                for x in nodes(s.closed):
                    if x.op == "phi" and x.args[0] == self.lid:
                        o = [q for _, q in self.term_slots() if q.phi is x and q.closed is None]
                        mm[x] = o[0].next if o else UNDEF
                want = subst(s.closed, mm)
            if want is s.next:
                continue
            f = facts(list(self.info.body_pc))
            if want.shape == () and is_numeric(want) and is_numeric(s.next) and decide(eq(want, s.next), f) is True:
                continue
            if want.op == "ite" and decide(want.args[0], f) is False and want.args[2] is s.next:
                continue
            s.closed = None
            s.noclose = True
            bad = True
        return bad

    # ------------------------------------------------------------ exit values
    def exit_map(self):
        """Values at the exit of the phis and the counter."""
        lid = self.lid
        m = {}
        counted = self.count is not None and not self.breaks and not self.returns
        if counted:
            m[self.k] = max_(ZERO, self.count) if decide(le(ZERO, self.count), self.I.facts()) is not True else self.count
        else:
            m[self.k] = mk("fin", (lid, self.k), ())
        inv = {s.phi: s.init for key, s in self.term_slots() if s.closed is None and s.phi is not None and s.next is s.phi
               and s.init is not UNDEF}
        rows = self.rowwise(m[self.k], inv) if counted else {}
        for key, s in self.slots.items():
            if s.mode == "term" and s.closed is None or s.mode == "list":
                if s.phi in inv:
                    # never changed
                    m[s.phi] = s.init
                    continue
                if inv and s.next is not UNDEF:
                    s.next = subst(s.next, inv)
                if s.phi in rows:
                    m[s.phi] = rows[s.phi]
                    continue
                v = None
                if counted:
                    v = self.closed_exit(s, m[self.k])
                if v is None:
                    v = mk("fin", (lid, s.phi), subst_shape(s.shape, {self.k: m[self.k]}))
                m[s.phi] = v
        return m

    def rowwise(self, N, inv):
        """Arrays of which pass k writes (perhaps conditionally) entry k + c only, from such entries."""
        k = self.k

        def written(n, p):
            if n is p:
                return set()
            if s_is(n, "sto") and n.args[1] == 0:
                a = written(n.args[0], p)
                return None if a is None else a | {n.args[2]}
            if s_is(n, "ite"):
                a, b = written(n.args[1], p), written(n.args[2], p)
                return None if a is None or b is None else a | b
            return None

        cand = {}
        for key, s in self.term_slots():
            if s.closed is not None or s.phi is None or s.phi in inv or s.init is UNDEF or s.next is UNDEF or not s.shape:
                continue
            if s.init.shape is None or len(s.init.shape) != len(s.shape):
                continue
            n = subst(s.next, inv) if inv else s.next
            w = written(n, s.phi)
            if w is None or len(w) != 1:
                continue
            idx = w.pop()
            off = sub(idx, k)
            if not has_loop(off, self.lid):
                cand[s.phi] = (s, idx, off, at(n, 0, idx))
        while cand:
            m = {at(p, 0, idx): at(s.init, 0, idx) for p, (s, idx, off, v) in cand.items()}
            new = {p: subst(v, m) for p, (s, idx, off, v) in cand.items()}
            bad = [p for p, v in new.items() if self.open(v)]
            if not bad:
                break
            for p in bad:
                del cand[p]
        out = {}
        for p, (s, idx, off, v) in cand.items():
            kk = fresh("i")
            M = mapt(N, kk, subst(new[p], {k: kk}))
            if off is ZERO and s.init.shape[0] is N:
                out[p] = M
            else:
                out[p] = stos(s.init, 0, off, N, ONE, M)
        return out

    def closed_exit(self, s, N):
        p, n, i, k = s.phi, s.next, s.init, self.k
        if s.mode == "list":
            if n.op == "concat" and n.args[0] is p:
                e = n.args[1]
                if not self.open(e):
                    kk = fresh("i")
                    if s.step is ONE:
                        body = subst(at(e, 0, ZERO), {k: kk})
                        r = mapt(N, kk, body)
                        return r if s.len0 is ZERO else concat(i, r)
            return None
        if i is UNDEF:
            # the last iteration decides
            if not self.open(n):
                return subst(n, {k: sub(N, ONE)})
            return None
        return self.close_store(p, n, i, N)

    def open(self, t):
        return any(x.op != "iter" for x in self.loop_leaves(t))

    def close_store(self, p, n, i, N, depth=0):
        k = self.k
        if s_is(n, "sto") and n.args[0] is p:
            A, ax, idx, v = n.args
            kk = fresh("i")
            off = sub(idx, k)
            if not has_loop(off, self.lid):
                v2 = subst(v, {at(p, ax, idx): at(i, ax, idx)}) if depends(v, p) else v
                if not self.open(v2):
                    if ax == 0:
                        M = mapt(N, kk, subst(v2, {k: kk}))
                        if off is ZERO and i.shape is not None and i.shape[0] is N:
                            return M
                        return stos(i, 0, off, N, ONE, M)
                    if ax == 1 and i.shape is not None and len(i.shape) == 2:
                        M = tr(mapt(N, kk, subst(v2, {k: kk})))
                        if off is ZERO and i.shape[1] is N:
                            return M
                        return stos(i, 1, off, N, ONE, M)
                return None
            step = sub(subst(idx, {k: add(k, ONE)}), idx)
            if ax == 0 and not has_loop(step, self.lid):
                # every step-th entry
                lo = subst(idx, {k: ZERO})
                v2 = subst(v, {at(p, ax, idx): at(i, ax, idx)}) if depends(v, p) else v
                f = facts(list(self.info.body_pc))
                if not self.open(v2) and decide(lt(ZERO, step), f) is True:
                    return stos(i, 0, lo, N, step, mapt(N, kk, subst(v2, {k: kk})))
                return None
            if not has_loop(idx, self.lid):
                # a fixed row, written inside
                q = at(p, ax, idx)
                r = fresh("q")
                rr = mk("fresh", r.args, q.shape) if r.op == "fresh" else None
                if rr is None:
                    return None
                v2 = subst(v, {q: rr})
                if depends(v2, p):
                    return None
                w = self.close_store(rr, v2, at(i, ax, idx), N)
                return None if w is None else sto(i, ax, idx, w)
            return None
        # accumulations
        kk = fresh("i")
        if n.shape == () and is_numeric(n):
            d = sub(n, p)
            if not self.open(d) and not depends(d, p):
                return add(i, redi("sum", N, kk, subst(d, {k: kk})))
        if n.op == "min" and p in n.args and n.shape == ():
            rest = [a for a in n.args if a is not p]
            v = min_(*rest)
            if not self.open(v):
                return min_(i, amin(mapt(N, kk, subst(v, {k: kk}))))
        if n.op == "or" and p in n.args and n.shape == ():
            v = bor(*[a for a in n.args if a is not p])
            if not self.open(v):
                return bor(i, anyt(mapt(N, kk, subst(v, {k: kk}))))
        if n.op == "and" and p in n.args and n.shape == ():
            v = band(*[a for a in n.args if a is not p])
            if not self.open(v):
                return band(i, allt(mapt(N, kk, subst(v, {k: kk}))))
        if n.op == "poly" and n.shape:
            d = sub(n, p)
            if not self.open(d) and not depends(d, p):
                M = mapt(N, kk, subst(d, {k: kk}))
                return add(i, sumt(M)) if d.shape is not None and False else None
        return None

    def apply_exit(self, st, m):
        """State after the loop: phis replaced by their values at the exit."""
        memo = {}

        def F(t):
            if not has_loop(t, self.lid):
                return t
            t2 = subst(t, m, memo)
            if has_loop(t2, self.lid):
                lv = {}
                for x in self.loop_leaves(t2):
                    lv[x] = mk("fin", (self.lid, x), x.shape)
                t2 = subst(t2, lv)
            return t2

        self.F = F

        def V(v):
            if isinstance(v, T):
                return F(v)
            if isinstance(v, Tup):
                r = [V(x) for x in v.items]
                return type(v)(r) if any(a is not b for a, b in zip(r, v.items)) else v
            if isinstance(v, View):
                return View(v.loc, tuple(tuple(V(y) if isinstance(y, T) else y for y in p) for p in v.path))
            if isinstance(v, Choice):
                c = F(v.cond)
                a, b = V(v.a), V(v.b)
                return a if c is TRUE else b if c is FALSE else Choice(c, a, b)
            return v

        out = State()
        out.alive = True
        for l, o in st.heap.items():
            if o.kind == "arr" or isinstance(o.data, T):
                d = F(o.data)
                out.heap[l] = o if d is o.data else Obj(o.kind, d, o.meta)
            elif o.kind == "lst":
                d = tuple(V(x) for x in o.data)
                out.heap[l] = Obj(o.kind, d, o.meta)
            else:
                d = tuple((k, V(x)) for k, x in o.data)
                out.heap[l] = Obj(o.kind, d, o.meta)
        for e, env in st.envs.items():
            out.envs[e] = {n: V(v) for n, v in env.items()}
        out.pc = tuple(x for x in (F(c) for c in st.pc) if x is not TRUE)
        out.gate = tuple(F(c) for c in st.gate)
        return out, V

    # ------------------------------------------------------------ driver
    def run(self):
        I = self.I
        self.mark = len(I.events)
        # no iteration at all
        if self.count is not None:
            if I.resolve(lt(ZERO, self.count)) is FALSE:
                if self.collect is not None:
                    return mk("stack", (), (ZERO,))
                I.exec_block(self.orelse)
                return None
        for n in range(40):
            self.run_pass()
            if n == 0 and self.cond is FALSE:
                I.events[self.mark:] = []
                I.st = self.S0
                I.exec_block(self.orelse)
                return None
            if self.compare():
                continue
            if self.E is not None and self.hazards():
                # rebuild the alternatives from the same pass
                self.compare()
                continue
            if self.verify_closed():
                continue
            if self.close():
                continue
            if self.as_counted():
                continue
            break
        else:
            raise Unsupported("loop summary does not stabilize", self.src)
        return self.finish()

    def as_counted(self):
        """while i < n with i = i0 + k: a counted loop."""
        if self.count is not None or self.test is None:
            return False
        c = self.cond
        if c.op not in ("lt", "le"):
            return False
        p = c.args[0]
        d = sub(p, self.k)
        if has_loop(d, self.lid) or not is_int(d):
            return False
        # k + d < 0  or  k + d <= 0
        n = neg(d) if c.op == "lt" else sub(ONE, d)
        self.ncount = n
        f = facts(list(self.S0.pc))
        if decide(le(ZERO, n), f) is not True:
            n = max_(ZERO, n)
        self.count = n
        self.test_expr = self.test
        return True

    def finish(self):
        I = self.I
        info = self.info
        info.count = self.count
        info.cond = self.cond
        info.src = self.src
        info.kind = type(self.node).__name__
        info.pc = self.S0.pc
        info.back = bor(*self.backs) if self.backs else FALSE
        info.end_pc = self.E.pc if self.E is not None else ()
        info.exits = []
        deps = set()
        for key, s in self.slots.items():
            if s.mode in ("term", "list") and s.phi is not None:
                if s.closed is None:
                    info.phis[s.phi] = (s.init, s.next)
                info.names[s.phi] = s.name
                for t in (s.init, s.next):
                    deps |= set(loops_of(t))
        deps |= set(loops_of(self.cond))
        if self.count is not None:
            deps |= set(loops_of(self.count))
        # events keep the terms of the last pass
        deps.discard(self.lid)
        tm.LOOP_DEPS[self.lid] = frozenset(deps)
        LOOPS[self.lid] = info
        if I.loopstack:
            info.parent = I.loopstack[-1]
        else:
            info.parent = None
        m = self.exit_map()
        info.exit_map = m
        gate0 = self.S0.gate
        # --- collected values
        if self.collect is not None:
            r = self.collect_result(m)
        else:
            r = None
        outs = []
        nb = self.base
        if self.cond is not TRUE:
            h = self.head
            nc = bnot(self.cond) if self.count is None else le(self.count, self.k)
            h = h.copy()
            h.pc = self.S0.pc + (nc,)
            h.gate = gate0 + (nc,)
            outs.append(h)
            info.exits.append(("head", nc, h))
        for b in self.breaks:
            info.exits.append(("break", band(*b.gate[nb:]), b))
        for b, v in self.returns:
            info.exits.append(("return", band(*b.gate[nb:]), b))
        rets = []
        for b, v in self.returns:
            st, V = self.apply_exit(b, m)
            rets.append((st, V(v)))
        for st, v in rets:
            I.requeue_return(self.fr, st, v)
        if self.orelse and outs:
            st, _ = self.apply_exit(outs[0], m)
            I.st = st
            I.exec_block(self.orelse)
            outs = [I.st] if I.st.alive else []
            outs[0:0] = []
        if not outs and not self.breaks:
            I.kill()
            return r
        allouts = self.breaks + outs
        acc = I.merge_outs(list(allouts), nb, self.S0.pc, gate0)
        exitc = bor(*[band(*o.gate[nb:]) for o in allouts]) if len(allouts) > 1 or True else TRUE
        # facts common to every exit
        ex = [o.pc[len(self.S0.pc):] for o in allouts]
        common = [c for c in ex[0] if all(c in e for e in ex[1:])]
        acc.pc = self.S0.pc + tuple(common) + ((exitc,) if exitc is not TRUE and exitc not in common else ())
        acc.gate = gate0 + ((exitc,) if self.returns else ())
        st, V = self.apply_exit(acc, m)
        I.st = st
        self.all_ranks(st)
        return r

    def all_ranks(self, st):
        """Counters of evaluations are over all ranks: entries rank, rank + size, ... of
        every rank are together the entries of a single one."""
        from .models import mpi_syms

        if self.count is None or self.breaks or self.returns:
            return
        rank, size = mpi_syms()
        for x in nodes(self.count):
            if x.op != "fn" or x.args[0] != "ceil":
                continue
            N = add(mul2(x.args[1], size), rank)
            if depends(N, rank) or depends(N, size) or x is not fn("ceil", div(sub(N, rank), size)):
                continue
            one = {rank: ZERO, size: ONE}
            for g in ("$nfev", "$best", "$ngrad"):
                t = st.heap[g].data
                if depends(t, rank) or depends(t, size):
                    st.heap[g] = Arr(subst(t, one))
            return

    def collect_result(self, m):
        v = self.collected
        if v is None:
            return mk("stack", (), (ZERO,))
        N = m[self.k]
        I = self.I
        st0 = I.st
        I.st = self.E

        def one(x):
            t = I.val(x)
            if self.open(t):
                return mk("hist", (self.lid, t), None if t.shape is None else (N,) + tuple(t.shape))
            kk = fresh("i")
            return mapt(N, kk, subst(t, {self.k: kk}))

        if isinstance(self.node, object) and isinstance(v, Tup) and self.filtered():
            r = (one(v.items[0]), one(v.items[1]))
        else:
            r = one(v)
        I.st = st0
        return r

    def filtered(self):
        import ast

        return isinstance(self.node, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and bool(self.node.generators[0].ifs)


def key_is_rng(s):
    return s.key == ("h", "$rng")


def s_is(t, op):
    return t.op == op


def subst_shape(shape, m):
    return None if shape is None else tuple(subst(x, m) for x in shape)


def run_loop(I, node, body, count, test, orelse, collect):
    return Loop(I, node, body, count, test, orelse, collect).run()
