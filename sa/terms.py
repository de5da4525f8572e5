"""Hash-consed symbolic value terms with algebraic normal forms.

A term denotes a scalar or an array.  Numbers are exact rationals (rounding is
ignored: all statements decided on terms hold up to floating point rounding).
Every constructor normalizes, so that two pieces of source code which compute
the same value in slightly different ways mostly yield the same node.
"""
import math
import sys
from fractions import Fraction

sys.setrecursionlimit(100000)

_table = {}
_count = [0]


class T:
    __slots__ = ("op", "args", "id", "shape", "src", "_fv", "_bvd", "_sz")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


CUR_SRC = [None]


def mk(op, args, shape):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.shape = shape
        _count[0] += 1
        t.id = _count[0]
        t.src = CUR_SRC[0]
        t._fv = None
        t._bvd = None
        t._sz = None
        _table[key] = t
    return t


# ---------------------------------------------------------------- constants
def const(v):
    """Non numeric constants: None, bool, str, bytes, Ellipsis, types."""
    return mk("const", (type(v).__name__, v), ())


TRUE = const(True)
FALSE = const(False)
NONE = const(None)


def num(v):
    if isinstance(v, float):
        if math.isinf(v):
            return INF if v > 0 else neg(INF)
        if math.isnan(v):
            return NAN
        v = Fraction(repr(v))
    return mk("num", (Fraction(v),), ())


INF = mk("inf", (), ())
NAN = mk("nan", (), ())
ZERO = num(0)
ONE = num(1)
TWO = num(2)


def sym(name, shape=(), lo=None, hi=None, integer=False):
    """A free symbol (parameter); lo/hi are inclusive bounds (Terms or numbers)."""
    if lo is not None and not isinstance(lo, T):
        lo = num(lo)
    if hi is not None and not isinstance(hi, T):
        hi = num(hi)
    return mk("sym", (name, shape, lo, hi, integer), shape)


def is_num(t):
    return t.op == "num"


def nval(t):
    return t.args[0] if t.op == "num" else None


def is_const(t):
    return t.op in ("const", "num")


def cval(t):
    """Python value of a constant term (None when not constant: use is_const)."""
    if t.op == "num":
        return t.args[0]
    return t.args[1]


NONNUM_TYPES = ("NoneType", "str", "bool", "bytes", "ellipsis")
BOOLOPS = ("lt", "le", "eq", "eqv", "and", "or", "not", "any", "isnone", "truth", "exc", "bsym", "mem",
           "np_b", "np_isnan")


def is_bool(t):
    if t.op == "const":
        return t.args[0] == "bool"
    if t.op in BOOLOPS:
        return True
    if t.op == "ite":
        return is_bool(t.args[1]) and is_bool(t.args[2])
    if t.op == "map":
        return is_bool(t.args[2])
    if t.op == "full":
        return is_bool(t.args[1])
    if t.op == "sto":
        return is_bool(t.args[3]) and is_bool(t.args[0])
    if t.op in ("at", "expand", "tr", "slc", "take"):
        return is_bool(t.args[0])
    if t.op == "phi":
        return t.args[3] == "bool"
    if t.op == "fin":
        return is_bool(t.args[1])
    if t.op == "lookup":
        return all(is_bool(v) for k, v in t.args[1])
    return False


def is_numeric(t):
    if t.op == "const":
        return False
    if t.op == "ite":
        return is_numeric(t.args[1]) and is_numeric(t.args[2])
    return not is_bool(t) and t.op not in ("struct",)


# ---------------------------------------------------------------- shapes
def rank(t):
    return None if t.shape is None else len(t.shape)


def dim(t, ax=0):
    if t.shape is None or len(t.shape) <= ax:
        return mk("len", (t, ax), ())
    d = t.shape[ax]
    return d


def bshape(ts):
    shapes = []
    for t in ts:
        if t.shape is None:
            return None
        if t.shape:
            shapes.append(t.shape)
    if not shapes:
        return ()
    r = max(len(s) for s in shapes)
    out = []
    for k in range(1, r + 1):
        d = None
        for s in shapes:
            if len(s) >= k:
                x = s[-k]
                if d is None or d is ONE:
                    d = x
                elif x is not ONE and x is not d:
                    # Prefer the simplest name; they must be equal at run time
                    if is_num(x) and not is_num(d):
                        d = x
        out.append(d)
    return tuple(reversed(out))


# ---------------------------------------------------------------- polynomials
# poly: args = tuple of (coef, mono), mono = tuple of (atom, exp), sorted
def _terms(t):
    """Polynomial view: dict mono -> coef."""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return {m: c for c, m in t.args}
    return {((t, 1),): Fraction(1)}


def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def _atom_from_full(t):
    return t


def _mkpoly(d, extra=()):
    """Build a normalized polynomial from dict mono -> coef."""
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(((c, m) for m, c in d.items()), key=lambda x: (len(x[1]), _mono_key(x[1])))
    atoms = []
    for c, m in items:
        for a, e in m:
            atoms.append(a)
    return mk("poly", tuple(items), bshape(atoms))


def covers(shape, s):
    """Whether an operand of shape s broadcasts into shape without enlarging it."""
    if shape is None or s is None:
        return False
    if len(s) > len(shape):
        return False
    for k in range(1, len(s) + 1):
        if s[-k] is ONE:
            continue
        if shape[-k] is ONE:
            return False
    return True


def full(shape, v):
    if not shape:
        return v
    if v.op == "full":
        v = v.args[1]
    if v.shape == ():
        return mk("full", (shape, v), shape)
    if v.shape is not None and shape is not None:
        if len(v.shape) == len(shape):
            return v
        # Repeat along the leading axes
        return bcast_to(v, shape)
    return mk("full", (shape, v), shape)


def bcast_to(v, shape):
    if v.shape is None or shape is None:
        return mk("bcast", (v, shape), shape)
    if len(v.shape) == len(shape):
        return v
    if v.shape == ():
        return full(shape, v)
    bv = fresh("b")
    return mapt(shape[0], bv, bcast_to(v, shape[1:]))


def _split_full(ts):
    """Replace constant arrays by their scalars where another operand covers them.

    Returns (operands, shape or None): shape is set when the result must be wrapped
    in a full array.
    """
    fulls = [t for t in ts if t.op == "full"]
    if not fulls:
        return ts, None
    others = [t for t in ts if t.op != "full"]
    sh = bshape(ts)
    osh = bshape(others) if others else ()
    if sh is None or osh is None:
        return ts, None
    if all(t.shape == () for t in others):
        return [t.args[1] if t.op == "full" else t for t in ts], sh
    if all(covers(osh, t.shape) for t in fulls):
        return [t.args[1] if t.op == "full" else t for t in ts], None
    return ts, None


def tonum(t):
    """Boolean terms used as numbers."""
    if t.op == "const" and t.args[0] == "bool":
        return ONE if t.args[1] else ZERO
    if is_bool(t):
        return ite(t, ONE, ZERO)
    return t


def add(*ts):
    ts = [tonum(t) for t in ts]
    ts, sh = _split_full(ts)
    if sh is not None:
        return full(sh, add(*ts))
    if any(t is NAN for t in ts):
        return NAN
    d = {}
    wid = None
    for t in ts:
        for m, c in _terms(t).items():
            n = d.get(m, 0) + c
            if n:
                d[m] = n
            else:
                d.pop(m, None)
    if len(d) > 1:
        for m, c in d.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sto" and m[0][0].args[1] == 0:
                x = m[0][0]
                if x.args[0].op == "full" and x.args[0].args[1] is ZERO and x.shape is not None and len(x.shape) == 1:
                    # x + c * e_i, a change of one entry
                    rest = _mkpoly({k: v for k, v in d.items() if k is not m})
                    if rest.shape == x.shape:
                        return sto(rest, 0, x.args[2], add(at(rest, 0, x.args[2]), mul2(num(c), x.args[3])))
    res = _mkpoly(d)
    if res.shape == ():
        # x - x for an array x is an array of zeros
        s = bshape(ts)
        if s:
            return full(s, res)
    return res


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    out = []
    extra = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == "fn" and a.args[0] == "sqrt" and abs(e) >= 2:
            q, r = divmod(int(e), 2) if e > 0 else (-((-int(e)) // 2), -((-int(e)) % 2))
            extra.append((a.args[1], q))
            e = r
            if e == 0:
                continue
        out.append((a, e))
    out.sort(key=lambda x: x[0].id)
    return tuple(out), extra


EXPAND_LIMIT = 16
POWER_LIMIT = 30


def expandable(p, e):
    n = len(p.args)
    return 0 < e <= 4 and n <= max(6, POWER_LIMIT // 5) and n ** e <= POWER_LIMIT and \
        (e == 1 or n * math.comb(n + e - 2, e - 1) <= EXPAND_LIMIT)


def mul2(a, b):
    a, b = tonum(a), tonum(b)
    (a, b), sh = _split_full([a, b])
    if sh is not None:
        return full(sh, mul2(a, b))
    if a is NAN or b is NAN:
        return NAN
    if is_num(a) and a.args[0] == 0 or is_num(b) and b.args[0] == 0:
        s = bshape([a, b])
        return full(s, ZERO) if s else ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    ta, tb = _terms(a), _terms(b)
    # Cancellation of a polynomial factor against its inverse
    for x, y, tx in ((a, b, ta), (b, a, tb)):
        if y.op == "poly" and len(y.args) > 1:
            lead, prim = _primitive(y)
            if any(any(at_ is prim for at_, e in m) for m in tx):
                out = []
                for m, c in tx.items():
                    md = dict(m)
                    if prim in md:
                        e = md[prim] + 1
                        rest = tuple((p, q) for p, q in m if p is not prim)
                        t = _mkpoly({rest: c * lead})
                        t = mul2(t, powi(prim, e)) if e else t
                    else:
                        t = mul2(_mkpoly({m: c}), y)
                    out.append(t)
                r = add(*out)
                s = bshape([a, b])
                if s and r.shape == ():
                    r = full(s, r)
                return r
    if len(ta) * len(tb) > EXPAND_LIMIT:
        # Keep as a product of opaque factors
        ma = ((_atomize(a), 1),) if len(ta) > 1 else None
        mb = ((_atomize(b), 1),) if len(tb) > 1 else None
        out = {}
        if ma and mb:
            m, ex = _mono_mul(ma, mb)
            return _mkpoly({m: Fraction(1)})
        if ma:
            (m2, c2), = tb.items()
            m, ex = _mono_mul(ma, m2)
            return _wrap_only({m: c2}, ex)
        (m1, c1), = ta.items()
        m, ex = _mono_mul(m1, mb)
        return _wrap_only({m: c1}, ex)
    d = {}
    extras = []
    for m1, c1 in ta.items():
        for m2, c2 in tb.items():
            m, ex = _mono_mul(m1, m2)
            # Poly atoms with a positive exponent are expanded again when small
            if ex or any(p.op == "poly" and expandable(p, e) for p, e in m):
                extras.append(_wrap_extra({m: c1 * c2}, ex))
                continue
            d[m] = d.get(m, 0) + c1 * c2
    r = _mkpoly(d)
    if extras:
        r = add(r, *extras)
    s = bshape([a, b])
    if s and r.shape == ():
        r = full(s, r)
    return r


def _wrap_only(d, ex):
    r = _mkpoly(d)
    for p, e in ex:
        r = mul2(r, powi(p, e))
    return r


def _wrap_extra(d, ex):
    r = None
    (m, c), = d.items()
    pos = [(p, e) for p, e in m if p.op == "poly" and expandable(p, e)]
    if pos:
        m = tuple((p, e) for p, e in m if (p, e) not in pos)
    r = _mkpoly({m: c})
    for p, e in list(ex) + pos:
        r = mul2(r, powi(p, e))
    return r


def _atomize(t):
    return t


def _primitive(p):
    """p = lead * prim with the first coefficient of prim equal to 1."""
    lead = p.args[0][0]
    if lead == 1:
        return lead, p
    return lead, _mkpoly({m: c / lead for c, m in p.args})


def mul(*ts):
    r = ONE
    for t in ts:
        r = mul2(r, t)
    return r


def neg(t):
    if t.op == "poly":
        if len(t.args) == 1 and t.args[0][0] == -1 and len(t.args[0][1]) == 1 and t.args[0][1][0][1] == 1 and \
                t.args[0][1][0][0].shape == t.shape:
            return t.args[0][1][0][0]
        return mk("poly", tuple((-c, m) for c, m in t.args), t.shape)
    if t.op == "num":
        return num(-t.args[0])
    return mul2(num(-1), t)


_subc = {}


def sub(a, b):
    k = (a, b)
    r = _subc.get(k)
    if r is None:
        r = add(a, neg(b))
        if len(_subc) > 200000:
            _subc.clear()
        _subc[k] = r
    return r


def inv(t):
    t = tonum(t)
    if t.op == "full":
        return full(t.args[0], inv(t.args[1]))
    if t is INF:
        return ZERO
    if is_num(t):
        if t.args[0] == 0:
            return mk("fn", ("inv", t), ())
        return num(1 / t.args[0])
    if t.op == "poly":
        if len(t.args) == 1:
            c, m = t.args[0]
            return _mkpoly({tuple((a, -e) for a, e in m): 1 / c})
        lead, prim = _primitive(t)
        return _mkpoly({((prim, -1),): 1 / lead})
    return _mkpoly({((t, -1),): Fraction(1)})


def div(a, b):
    return mul2(a, inv(b))


def powi(t, e):
    if e == 0:
        return ONE
    if e < 0:
        return inv(powi(t, -e))
    if t.op == "poly" and len(t.args) > 1:
        if expandable(t, e) or e == 1:
            r = t
            for _ in range(e - 1):
                r = mul2(r, t)
            return r
        return _mkpoly({((t, e),): Fraction(1)})
    r = t
    for _ in range(e - 1):
        r = mul2(r, t)
    return r


def power(a, b):
    a, b = tonum(a), tonum(b)
    if is_num(b):
        e = b.args[0]
        if e.denominator == 1 and abs(e) <= 8:
            if is_num(a) and a.args[0] == 0 and e <= 0:
                return ONE if e == 0 else INF
            r = powi(a, int(e))
            if a.shape and r.shape == ():
                r = full(a.shape, r)
            return r
        if e == Fraction(1, 2):
            return fn("sqrt", a)
        if is_num(a) and a.args[0] > 0:
            return num(float(a.args[0]) ** float(e))
    return fn("pow", a, b)


_FOLD = {
    "exp": math.exp, "log": math.log, "sqrt": math.sqrt, "cos": math.cos,
    "sin": math.sin, "floor": math.floor, "ceil": math.ceil, "abs": abs,
}


def is_int(t):
    """Whether the term is integer valued."""
    if is_num(t):
        return t.args[0].denominator == 1
    if t.op == "sym":
        return t.args[4]
    if t.op in ("len", "argmin", "iter", "bv", "rank1", "rint"):
        return True
    if t.op == "fresh":
        return t.args[0][0] in "bijk"
    if t.op == "fn":
        return t.args[0] in ("int", "floor", "ceil", "floordiv") or (
            t.args[0] == "mod" and is_int(t.args[1]) and is_int(t.args[2]))
    if t.op == "poly":
        return all(c.denominator == 1 and all(e > 0 and is_int(a) for a, e in m) for c, m in t.args)
    if t.op == "ite":
        return is_int(t.args[1]) and is_int(t.args[2])
    if t.op == "min":
        return all(is_int(a) for a in t.args)
    if t.op == "phi":
        return t.args[3] == "int"
    if t.op == "fin":
        return is_int(t.args[1])
    if t.op == "at":
        b = t.args[0]
        while b.op in ("at", "slc", "take", "fin"):
            b = b.args[1] if b.op == "fin" else b.args[0]
        return b.op in ("argsort", "rperm", "rint") or (b.op == "phi" and b.args[3] == "int")
    if t.op == "rnd":
        return t.args[0] == "randint"
    return False


def fn(name, *args):
    """Elementwise function."""
    args = [tonum(a) if isinstance(a, T) else a for a in args]
    if len(args) == 1:
        a = args[0]
        if a.op == "full":
            return full(a.args[0], fn(name, a.args[1]))
        if a.op == "map":
            n, bv, body = a.args
            f = fresh("i")
            return mapt(n, f, fn(name, subst(body, {bv: f})))
        if name == "int":
            if is_int(a):
                return a
            if is_num(a):
                return num(int(a.args[0]))
            if a.op == "fn" and a.args[0] in ("floor", "ceil"):
                return a
            if is_bool(a):
                return tonum(a)
        if name in ("floor", "ceil"):
            if is_int(a):
                return a
            if is_num(a):
                return num(math.floor(a.args[0]) if name == "floor" else math.ceil(a.args[0]))
        if name == "abs":
            if is_num(a):
                return num(abs(a.args[0]))
            if a is INF:
                return INF
            if a.op == "fn" and a.args[0] in ("abs", "sqrt", "exp"):
                return a
            if a.op == "poly":
                lead, prim = _primitive(a)
                if lead != 1:
                    if len(a.args) == 1 and abs(lead) != 1:
                        return mul2(num(abs(lead)), fn("abs", prim))
                    if lead < 0:
                        return fn("abs", neg(a))
        if name == "sign" and is_num(a):
            v = a.args[0]
            return num((v > 0) - (v < 0))
        if name == "sqrt":
            if is_num(a):
                v = a.args[0]
                r = Fraction(math.isqrt(v.numerator), 1) / math.isqrt(v.denominator) if v >= 0 else None
                if r is not None and r * r == v:
                    return num(r)
        if name == "exp":
            if a is ZERO:
                return ONE
            if a.op == "fn" and a.args[0] == "log":
                return a.args[1]
        if name == "log":
            if a is ONE:
                return ZERO
            if a.op == "fn" and a.args[0] == "exp":
                return a.args[1]
        if is_num(a) and name in _FOLD:
            try:
                return num(float(_FOLD[name](float(a.args[0]))))
            except (ValueError, OverflowError):
                pass
        if name == "sign" and a.op == "poly" and a.args[0][0] < 0:
            return neg(fn("sign", neg(a)))
        if name == "cos" and a.op == "poly" and a.args[0][0] < 0:
            return fn("cos", neg(a))
        if name in ("floor", "ceil") and a.op == "poly":
            # integer part can be moved out
            ip = {m: c for c, m in a.args if c.denominator == 1 and all(e > 0 and is_int(x) for x, e in m)}
            if ip:
                rp = {m: c for c, m in a.args if m not in ip}
                return add(_mkpoly(ip), fn(name, _mkpoly(rp)))
    else:
        ts, sh = _split_full(list(args))
        if sh is not None:
            return full(sh, fn(name, *ts))
        args = ts
        if name == "mod":
            a, b = args
            if is_num(a) and is_num(b) and b.args[0] != 0:
                return num(a.args[0] % b.args[0])
            if a.op == "poly" and b.shape == () and a.shape == ():
                # drop integer multiples of b
                d = {}
                for c, m in a.args:
                    md = dict(m)
                    if c.denominator == 1 and is_int(b) and b.op != "poly" and md.get(b) == 1 and all(
                        is_int(x) and e > 0 for x, e in m
                    ):
                        continue
                    d[m] = c
                a2 = _mkpoly(d)
                if a2 is not a:
                    return fn("mod", a2, b)
        if name == "floordiv":
            a, b = args
            return fn("floor", div(a, b))
    return mk("fn", (name,) + tuple(args), bshape(args))


def sqrt(a):
    return fn("sqrt", a)


# ---------------------------------------------------------------- booleans
def boolc(b):
    return TRUE if b else FALSE


def _cmp_norm(p):
    """Positive scaling such that the first coefficient is +-1 (integers: coprime coefficients)."""
    if p.op == "poly":
        if p.shape == () and all(all(e > 0 and is_int(a) for a, e in m) for c, m in p.args):
            d = math.lcm(*(k.denominator for k, m in p.args))
            g = math.gcd(*(int(k * d) for k, m in p.args))
            s = Fraction(d, g)
            return p if s == 1 else _mkpoly({m: k * s for k, m in p.args})
        c = abs(p.args[0][0])
        if c != 1:
            p = _mkpoly({m: k / c for k, m in p.args})
    return p


def _cmp(op, p):
    p = tonum(p)
    if p.op == "full":
        return full(p.args[0], _cmp(op, p.args[1]))
    if p.op == "map":
        n, bv, body = p.args
        f = fresh("i")
        return mapt(n, f, _cmp(op, subst(body, {bv: f})))
    if p.op == "num":
        v = p.args[0]
        return boolc(v < 0 if op == "lt" else v <= 0 if op == "le" else v == 0)
    if p is INF:
        return FALSE
    if p.op == "poly" and len(p.args) == 1 and p.args[0][1] == ((INF, 1),):
        return boolc(op in ("lt", "le") and p.args[0][0] < 0)
    if p is NAN:
        return FALSE
    if op == "eq" and (p is NONE or p.op == "poly" and any(a is NONE for c, m in p.args for a, e in m)):
        # None is no number
        return FALSE
    p = _cmp_norm(p)
    if op == "eq":
        if p.op == "poly" and p.args[0][0] < 0:
            p = neg(p)
    # Integer strictness: p < 0 <=> p <= -1 is not used, but exact constants are
    if p.op == "ite" and p.shape == () and leaves_const(p):
        return ite(p.args[0], _cmp(op, p.args[1]), _cmp(op, p.args[2]))
    if p.op == "poly" and p.shape == ():
        its = [a for c, m in p.args for a, e in m if a.op == "ite" and leaves_const(a)]
        if its and len(its) == 1 and len(p.args) <= 2:
            a = its[0]
            return ite(a.args[0], _cmp(op, subst(p, {a: a.args[1]})), _cmp(op, subst(p, {a: a.args[2]})))
    return mk(op, (p,), p.shape)


def leaves_const(t):
    while t.op == "ite":
        if not leaves_const(t.args[1]):
            return False
        t = t.args[2]
    return t.op in ("num", "const", "inf") or (t.op == "poly" and t.args[0][1] == ((INF, 1),))


def lt(a, b):
    return _rel("lt", a, b)


def le(a, b):
    return _rel("le", a, b)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def _rel(op, a, b):
    if a is b and a.op != "nan":
        r = boolc(op != "lt")
        return full(a.shape, r) if a.shape else r
    for x, y in ((a, b), (b, a)):
        if x.op == "const" and x.args[0] in ("NoneType", "str"):
            return UNDEF_BOOL
    # comparisons of a finite choice of constants (status codes) are split
    for x in (a, b):
        if x.op == "ite" and x.shape == () and leaves_const(x) and not is_numeric(x):
            if x is a:
                return ite(x.args[0], _rel(op, x.args[1], b), _rel(op, x.args[2], b))
            return ite(x.args[0], _rel(op, a, x.args[1]), _rel(op, a, x.args[2]))
    return _cmp(op, sub(a, b))


UNDEF_BOOL = mk("bsym", ("typeerror",), ())


def eq(a, b):
    """Equality of values (numbers, strings, None...)."""
    if a is b:
        return TRUE if not a.shape else full(a.shape, TRUE)
    if a.op == "const" and b.op == "const":
        if a.args[0] == "bool" or b.args[0] == "bool":
            pass
        return boolc(a.args[1] == b.args[1])
    for x, y in ((a, b), (b, a)):
        if x.op == "const":
            if x.args[0] == "bool" and is_bool(y):
                return y if x.args[1] else bnot(y)
            if x.args[0] == "bool" and (y.op == "num"):
                return boolc(y.args[0] == (1 if x.args[1] else 0))
            if y.op in ("num", "poly", "inf", "nan"):
                return FALSE
            if y.op == "ite" and y.shape == ():
                return ite(y.args[0], eq(x, y.args[1]), eq(x, y.args[2]))
            if x.args[0] == "NoneType":
                return isnone(y)
            return mk("eqv", (x, y) if x.id < y.id else (y, x), ())
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and x.shape == () and leaves_const(x):
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    if is_numeric(a) and is_numeric(b):
        return _cmp("eq", sub(a, b))
    return mk("eqv", (a, b) if a.id < b.id else (b, a), bshape([a, b]))


def isnone(t):
    if t is NONE:
        return TRUE
    if t.op == "ite" and t.shape == ():
        return ite(t.args[0], isnone(t.args[1]), isnone(t.args[2]))
    if t.op == "phi" and t.args[3] == "opt" or t.op == "at" or t.op == "fin" and may_none(t.args[1]):
        return mk("isnone", (t,), ())
    if t.op == "sym" and t.args[0].startswith("opt:"):
        return mk("isnone", (t,), ())
    return FALSE


def may_none(t):
    if t is NONE:
        return True
    if t.op == "ite":
        return may_none(t.args[1]) or may_none(t.args[2])
    return t.op == "phi" and t.args[3] == "opt" or t.op == "fin" and may_none(t.args[1])


def bnot(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    op = t.op
    if op == "full":
        return full(t.args[0], bnot(t.args[1]))
    if op == "not":
        return t.args[0]
    if op == "lt":
        return _cmp("le", neg(t.args[0]))
    if op == "le":
        return _cmp("lt", neg(t.args[0]))
    if op == "and":
        return bor(*[bnot(a) for a in t.args])
    if op == "or":
        return band(*[bnot(a) for a in t.args])
    if op == "ite":
        return ite(t.args[0], bnot(t.args[1]), bnot(t.args[2]))
    if op == "map":
        n, bv, body = t.args
        f = fresh("i")
        return mapt(n, f, bnot(subst(body, {bv: f})))
    if op in ("expand",):
        return expand(bnot(t.args[0]), t.args[1])
    return mk("not", (t,), t.shape)


def band(*ts):
    return _bop("and", ts)


def bor(*ts):
    return _bop("or", ts)


def _bop(op, ts):
    unit, zero = (TRUE, FALSE) if op == "and" else (FALSE, TRUE)
    ts = list(ts)
    ts, sh = _split_full(ts)
    if sh is not None:
        return full(sh, _bop(op, ts))
    out = []
    shape = bshape(ts)
    seen = set()
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if t.op == op:
            stack.extend(reversed(t.args))
            continue
        if t is unit or t.op == "full" and t.args[1] is unit and covers(shape, t.shape):
            continue
        if t is zero or t.op == "full" and t.args[1] is zero and covers(shape, t.shape):
            return full(shape, zero) if shape else zero
        if t in seen:
            continue
        seen.add(t)
        out.append(t)
    if len(out) > 1:
        for t in out:
            if bnot(t) in seen:
                return full(shape, zero) if shape else zero
        # absorption and weaker/stronger comparison of the same polynomial
        for t in list(out):
            dual = "or" if op == "and" else "and"
            if t.op == dual and any(a in seen for a in t.args):
                out.remove(t)
            elif t.op == dual:
                # unit resolution: a and (not a or b) = a and b
                rest = [a for a in t.args if bnot(a) not in seen]
                if len(rest) < len(t.args):
                    out.remove(t)
                    out2 = out + [_bop(dual, rest)]
                    return _bop(op, out2)
            elif t.op == "le" and mk("lt", t.args, t.shape) in seen and op == "and":
                out.remove(t)
            elif t.op == "lt" and mk("le", t.args, t.shape) in seen and op == "or":
                out.remove(t)
    if not out:
        return full(shape, unit) if shape else unit
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk(op, tuple(out), shape)


def implies(a, b):
    return bor(bnot(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.shape == () and a.shape and b.shape and a.shape != b.shape and len(a.shape) == len(b.shape) \
            and a.op != "undef" and b.op != "undef":
        # the join of two arrays of different extents (broadcasting of operands is done by the callers that do it)
        return mk("ite", (c, a, b), tuple(x if x is y else ite(c, x, y) for x, y in zip(a.shape, b.shape)))
    if c.op == "full":
        s = bshape([c, a, b])
        r = ite(c.args[1], a, b)
        return r if r.shape == s else bcast_to(r, s)
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "expand" and c.shape is not None and a.shape is not None and b.shape is not None:
        c0, s = c, bshape([c, a, b])
        while c0.op == "expand":
            c0 = c0.args[0]
        # a scalar condition, broadcast
        if c0.shape == () and s and len(s) <= max(len(a.shape), len(b.shape)):
            return ite(c0, a, b)
    ts, sh = _split_full([c, a, b])
    if sh is not None:
        return full(sh, ite(*ts))
    c, a, b = ts
    # redundant nesting
    if a.op == "ite" and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == "ite" and b.args[0] is c:
        return ite(c, a, b.args[2])
    if is_bool(a) and is_bool(b):
        if a is TRUE:
            return bor(c, b)
        if a is FALSE:
            return band(bnot(c), b)
        if b is TRUE:
            return bor(bnot(c), a)
        if b is FALSE:
            return band(c, a)
        if a is c:
            return bor(c, b)
        if b is c:
            return band(c, a)
    # orient comparisons canonically: prefer the form whose first coefficient is +1
    if c.op in ("lt", "le") and c.args[0].op == "poly" and c.args[0].args[0][0] < 0:
        return ite(bnot(c), b, a)
    # common branch elimination: ite(c, x, ite(d, x, y)) = ite(c or d, x, y)
    if b.op == "ite" and b.args[1] is a and b.args[0].shape == c.shape:
        return ite(bor(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a and b.args[0].shape == c.shape:
        return ite(band(bnot(c), b.args[0]), b.args[1], a)
    if a.op == "ite" and a.args[2] is b and a.args[0].shape == c.shape:
        return ite(band(c, a.args[0]), a.args[1], b)
    if a.op == "ite" and a.args[1] is b and a.args[0].shape == c.shape:
        return ite(band(c, bnot(a.args[0])), a.args[2], b)
    # minimum / maximum
    if c.op in ("lt", "le") and is_numeric(a) and is_numeric(b) and a.shape == b.shape == c.shape:
        p = c.args[0]
        d = _cmp_norm(sub(a, b))
        if d is p:
            return min_(a, b)
        if neg(d) is p:
            return max_(a, b)
    if a.op == "undef" or b.op == "undef":
        return mk("ite", (c, a, b), bshape([c, b if a.op == "undef" else a]))
    return mk("ite", (c, a, b), bshape([c, a, b]))


def min_(*ts):
    ts = [tonum(t) for t in ts]
    ts, sh = _split_full(list(ts))
    if sh is not None:
        return full(sh, min_(*ts))
    shape = bshape(ts)
    out = []
    nmin = None
    for t in ts:
        for a in t.args if t.op == "min" else (t,):
            if a is INF:
                continue
            if is_num(a):
                nmin = a if nmin is None or a.args[0] < nmin.args[0] else nmin
            elif a not in out:
                out.append(a)
    if nmin is not None:
        out.append(nmin)
    # remove elements larger than another by a constant
    keep = []
    for x in out:
        drop = False
        for y in out:
            if y is x:
                continue
            d = sub(x, y)
            if is_num(d) and (d.args[0] > 0):
                drop = True
        if not drop:
            keep.append(x)
    if not keep:
        return INF
    if len(keep) == 1:
        return keep[0]
    keep.sort(key=lambda t: t.id)
    return mk("min", tuple(keep), shape)


def max_(*ts):
    return neg(min_(*[neg(t) for t in ts]))


# ---------------------------------------------------------------- bound variables
_fresh = [0]


def fresh(prefix="i"):
    _fresh[0] += 1
    return mk("fresh", (prefix + str(_fresh[0]),), ())


def bvdepth(t):
    """Largest number of a variable bound inside t."""
    if t._bvd is None:
        if t.op == "bv":
            t._bvd = 0
            return 0
        d = t.args[1].args[0] if t.op in ("map", "sum", "any", "prod") else 0
        for a in children(t):
            x = bvdepth(a)
            if x > d:
                d = x
        t._bvd = d
    return t._bvd


def bvar(k):
    return mk("bv", (k,), ())


_fbv = {}
_NOBV = frozenset()


def free_bvs(t):
    """Bound variables occurring free in t."""
    if t.op == "bv":
        return frozenset([t])
    r = _fbv.get(t)
    if r is None:
        r = _NOBV
        for a in children(t):
            r = r | free_bvs(a)
        if t.op in ("map", "sum", "any", "prod") and t.args[1] in r:
            r = r - {t.args[1]}
        _fbv[t] = r
    return r


def children(t):
    op = t.op
    if op == "poly":
        out = []
        for c, m in t.args:
            for a, e in m:
                out.append(a)
        return out
    out = []
    for a in t.args:
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            stack = [a]
            while stack:
                x = stack.pop()
                for y in x:
                    if isinstance(y, T):
                        out.append(y)
                    elif isinstance(y, tuple):
                        stack.append(y)
    return out


def size(t):
    """Tree size, saturating."""
    z = t._sz
    if z is None:
        z = 1
        for c in children(t):
            z += size(c)
            if z > 100000:
                break
        t._sz = z
    return z


BOX_LIMIT = 600


def boxed(t):
    """Large numeric expressions become opaque operands (equal when their contents are)."""
    if t.op in ("poly", "fn", "map", "sum", "expand", "tr") and size(t) > BOX_LIMIT and not is_bool(t):
        return mk("box", (t,), t.shape)
    return t


def mapt(n, i, body):
    """Array of length n whose i-th entry is body (i a fresh symbol)."""
    # eta
    e = _eta(n, i, body)
    if e is not None:
        return e
    if not depends(body, i) and body.shape == ():
        return full((n,), body)
    if body.op == "poly" and body.shape == ():
        # factors that do not depend on the index
        com = None
        for c, m in body.args:
            ind = {(a, e) for a, e in m if not depends(a, i)}
            com = ind if com is None else com & ind
        lead = body.args[0][0]
        if com or lead != 1:
            prim = _mkpoly({tuple(x for x in m if x not in com): c / lead for c, m in body.args})
            f = _mkpoly({tuple(sorted(com, key=lambda x: x[0].id)): lead})
            if prim.op == "poly" and prim.args[0][0] != 1:
                l2 = prim.args[0][0]
                prim = _mkpoly({m: c / l2 for c, m in prim.args})
                f = mul2(f, num(l2))
            return mul2(f, mapt(n, i, prim))
    k = bvar(bvdepth(body) + 1)
    body = subst(body, {i: k})
    shape = None if body.shape is None else (n,) + body.shape
    if body.op == "full" and not depends(body.args[1], k) and not any(depends(x, k) for x in body.args[0] if isinstance(x, T)):
        return full((n,) + body.args[0], body.args[1])
    return mk("map", (n, k, body), shape)


def _eta(n, i, body):
    if body.op == "at" and body.args[1] == 0 and body.args[2] is i and not depends(body.args[0], i):
        A = body.args[0]
        if A.shape is not None and A.shape and A.shape[0] is n:
            return A
    if body.op == "ite" and body.shape == ():
        c, a, b = body.args
        ca = _eta(n, i, c)
        if ca is not None:
            aa, bb = _lift(n, i, a), _lift(n, i, b)
            if aa is not None and bb is not None:
                return ite(ca, aa, bb)
    l = _lift(n, i, body) if body.shape == () and body.op in ("poly", "fn", "lt", "le", "eq", "not", "and", "or", "min", "ite") else None
    if l is not None and l.shape == (n,):
        return l
    return None


def _lift(n, i, body):
    """Vectorize a scalar body over i when it is elementwise in arrays of length n."""
    if not depends(body, i):
        return body
    if body.op == "at" and body.args[1] == 0 and body.args[2] is i and not depends(body.args[0], i):
        A = body.args[0]
        if A.shape is not None and len(A.shape) == 1 and A.shape[0] is n:
            return A
        return None
    op = body.op
    if body.shape != ():
        return None
    if op == "poly":
        out = []
        for c, m in body.args:
            r = num(c)
            for a, e in m:
                x = _lift(n, i, a)
                if x is None:
                    return None
                r = mul2(r, powi(x, int(e)))
            out.append(r)
        return add(*out)
    if op == "fn":
        xs = [_lift(n, i, a) for a in body.args[1:]]
        if any(x is None for x in xs):
            return None
        return fn(body.args[0], *xs)
    if op in ("lt", "le", "eq"):
        x = _lift(n, i, body.args[0])
        return None if x is None else _cmp(op, x)
    if op in ("and", "or", "min"):
        xs = [_lift(n, i, a) for a in body.args]
        if any(x is None for x in xs):
            return None
        return {"and": band, "or": bor, "min": min_}[op](*xs)
    if op == "not":
        x = _lift(n, i, body.args[0])
        return None if x is None else bnot(x)
    if op == "ite":
        xs = [_lift(n, i, a) for a in body.args]
        if any(x is None for x in xs):
            return None
        return ite(*xs)
    return None


# ---------------------------------------------------------------- indexing
ELEMENTWISE = ("poly", "fn", "lt", "le", "eq", "eqv", "and", "or", "not", "ite", "min", "isnone")


def _push(t, f):
    """Rebuild an elementwise term with f applied to its operands."""
    op = t.op
    if op == "poly":
        out = []
        for c, m in t.args:
            r = num(c)
            for a, e in m:
                x = f(a)
                if isinstance(e, int) or e.denominator == 1:
                    r = mul2(r, powi(x, int(e)) if e != 1 else x)
                else:
                    r = mul2(r, power(x, num(e)))
            out.append(r)
        return add(*out)
    if op == "fn":
        return fn(t.args[0], *[f(a) for a in t.args[1:]])
    if op in ("lt", "le", "eq"):
        return _cmp(op, f(t.args[0]))
    if op == "eqv":
        return eq(f(t.args[0]), f(t.args[1]))
    if op == "and":
        return band(*[f(a) for a in t.args])
    if op == "or":
        return bor(*[f(a) for a in t.args])
    if op == "not":
        return bnot(f(t.args[0]))
    if op == "ite":
        return ite(*[f(a) for a in t.args])
    if op == "min":
        return min_(*[f(a) for a in t.args])
    if op == "isnone":
        return isnone(f(t.args[0]))
    raise AssertionError(op)


def _drop(shape, ax):
    if shape is None:
        return None
    return shape[:ax] + shape[ax + 1:]


def at(A, ax, i):
    """A indexed with the scalar i along axis ax."""
    if is_num(i) and i.args[0] < 0:
        if A.shape is not None and len(A.shape) > ax:
            i = add(A.shape[ax], i)
    op = A.op
    if op == "full":
        sh = _drop(A.args[0], ax)
        return full(sh, A.args[1]) if sh else A.args[1]
    if op == "map":
        n, bv, body = A.args
        if ax == 0:
            return subst(body, {bv: i})
        f = fresh("i")
        return mapt(n, f, at(subst(body, {bv: f}), ax - 1, i))
    if op in ELEMENTWISE and A.shape is not None:
        r = len(A.shape)

        def push(a):
            if a.shape is None:
                return None
            k = ax - (r - len(a.shape))
            if k < 0:
                return a
            if a.shape[k] is ONE and A.shape[ax] is not ONE:
                return at(a, k, ZERO)
            return at(a, k, i)

        ok = all(c.shape is not None for c in children(A))
        if ok:
            res = _push(A, push)
            sh = _drop(A.shape, ax)
            if res.shape == () and sh:
                res = full(sh, res)
            return res
    if op == "expand":
        B, k = A.args
        if ax == k:
            return B
        return expand(at(B, ax if ax < k else ax - 1, i), k - 1 if ax < k else k)
    if op == "tr":
        B = A.args[0]
        if B.shape is not None and len(B.shape) == 2:
            return at(B, 1 - ax, i)
    if op == "slc":
        B, k, lo, n, step = A.args
        if ax == k:
            return at(B, k, add(lo, mul2(step, i)))
        return slc(at(B, ax, i), k - 1 if ax < k else k, lo, n, step)
    if op == "take":
        B, k, I = A.args
        if ax == k and I.shape is not None and len(I.shape) == 1:
            return at(B, k, at(I, 0, i))
        if I.shape is not None and len(I.shape) == 1:
            return take(at(B, ax, i), k - 1 if ax < k else k, I)
        if I.shape is not None and ax == k:
            return take(B, k, at(I, 0, i)) if len(I.shape) > 1 else at(B, k, at(I, 0, i))
        if I.shape is not None and ax > k and ax < k + len(I.shape):
            return take(B, k, at(I, ax - k, i))
    if op == "stack":
        if ax == 0:
            if is_num(i) and 0 <= i.args[0] < len(A.args):
                return A.args[int(i.args[0])]
        else:
            return stack(*[at(x, ax - 1, i) for x in A.args])
    if op == "concat":
        if ax == 0:
            x, y = A.args
            nx = dim(x)
            d = sub(i, nx)
            if is_num(d):
                return at(y, 0, d) if d.args[0] >= 0 else at(x, 0, i)
            if is_num(i) and i.args[0] == 0:
                pass
            return ite(lt(i, nx), at(x, 0, i), at(y, 0, d))
        x, y = A.args
        return concat(at(x, ax, i), at(y, ax, i))
    if op == "sto":
        B, k, j, v = A.args
        if ax == k:
            d = sub(i, j)
            if d is ZERO:
                return v
            if is_num(d):
                return at(B, ax, i)
            return ite(eq(i, j), v, at(B, ax, i))
        sh = v.shape
        if sh is not None and A.shape is not None:
            va = ax if ax < k else ax - 1
            va = va - (len(A.shape) - 1 - len(sh))
            vv = v if va < 0 else at(v, va, i)
            return sto(at(B, ax, i), k - 1 if ax < k else k, j, vv)
    if op == "stos":
        B, k, lo, n, step, v = A.args
        if ax == k:
            if is_num(step) and step.args[0] == 1:
                inside = band(le(lo, i), lt(i, add(lo, n)))
                vv = at(v, k, sub(i, lo)) if v.shape else v
                return ite(inside, vv, at(B, k, i))
        elif v.shape is not None and A.shape is not None:
            va = ax - (len(A.shape) - len(v.shape))
            vv = v if va < 0 else at(v, va, i)
            return stos(at(B, ax, i), k - 1 if ax < k else k, lo, n, step, vv)
    if op == "scat":
        B, I, v = A.args
        if ax == 0:
            m = mem(i, I)
            p = place(i, I)
            if v.shape is not None and A.shape is not None and len(v.shape) == len(A.shape):
                vv = at(v, 0, p)
            else:
                vv = v
            return ite(m, vv, at(B, 0, i))
    if op == "delete":
        B, k, dax = A.args
        if ax == dax:
            return at(B, ax, ite(lt(i, k), i, add(i, ONE)))
        return delete(at(B, ax, i), k, dax if ax > dax else dax - 1)
    if op == "dot":
        x, y = A.args
        if x.shape is not None and y.shape is not None:
            if len(x.shape) == 2 and ax == 0:
                return dot(at(x, 0, i), y)
            if len(x.shape) == 2 and len(y.shape) == 2 and ax == 1:
                return dot(x, at(y, 1, i))
            if len(x.shape) == 1 and len(y.shape) == 2 and ax == 0:
                return dot(x, at(y, 1, i))
    if op == "at":
        B, k, j = A.args
        if ax < k:
            return at(at(B, ax, i), k - 1, j)
    if op == "argsort" and ax == 0 and i is ZERO:
        return argmin(A.args[0])
    if op in ("argsort", "rperm") and ax == 0 and i.op == "rankof" and i.args[1] is A:
        return i.args[0]
    return mk("at", (A, ax, i), _drop(A.shape, ax))


def depends_fin(i, loop):
    return False


def expand(A, ax):
    if A.shape is not None and A.shape == ():
        return mk("expand", (A, ax), (ONE,))
    if A.op == "full":
        return full(A.args[0][:ax] + (ONE,) + A.args[0][ax:], A.args[1])
    sh = None if A.shape is None else A.shape[:ax] + (ONE,) + A.shape[ax:]
    return mk("expand", (A, ax), sh)


def tr(A):
    if A.shape is not None and len(A.shape) <= 1:
        return A
    if A.op == "tr":
        return A.args[0]
    if A.op == "full":
        return full(tuple(reversed(A.args[0])), A.args[1])
    sh = None if A.shape is None else tuple(reversed(A.shape))
    return mk("tr", (A,), sh)


def slc(A, ax, lo, n, step=ONE):
    if A.shape is not None and len(A.shape) > ax and lo is ZERO and n is A.shape[ax] and step is ONE:
        return A
    sh = None if A.shape is None else A.shape[:ax] + (n,) + A.shape[ax + 1:]
    if A.op == "full":
        return full(sh, A.args[1])
    if A.op == "slc" and A.args[1] == ax:
        B, k, lo2, n2, step2 = A.args
        return slc(B, ax, add(lo2, mul2(step2, lo)), n, mul2(step, step2))
    if A.op == "map" and ax == 0:
        f = fresh("i")
        return mapt(n, f, subst(A.args[2], {A.args[1]: add(lo, mul2(step, f))}))
    if A.op == "sto" and A.args[1] == ax and lo is ZERO and step is ONE:
        # the store is outside of the slice
        d = sub(A.args[2], n)
        if is_num(d) and d.args[0] >= 0:
            return slc(A.args[0], ax, lo, n, step)
    if A.op in ELEMENTWISE and A.shape is not None and all(c.shape is not None for c in children(A)):
        r = len(A.shape)

        def push(a):
            k = ax - (r - len(a.shape))
            if k < 0 or a.shape[k] is ONE and A.shape[ax] is not ONE:
                return a
            return slc(a, k, lo, n, step)

        return _push(A, push)
    if A.op == "expand" and ax != A.args[1]:
        B, k = A.args
        return expand(slc(B, ax if ax < k else ax - 1, lo, n, step), k)
    return mk("slc", (A, ax, lo, n, step), sh)


def take(A, ax, I):
    sh = None
    if A.shape is not None and I.shape is not None:
        sh = A.shape[:ax] + I.shape + A.shape[ax + 1:]
        if I.shape == ():
            return at(A, ax, I)
    if A.op == "full" and sh is not None:
        return full(sh, A.args[1])
    if A.op == "expand" and ax == 0 and A.args[1] == 1:
        return expand(take(A.args[0], 0, I), 1)
    if A.op == "ite" and A.shape is not None and all(c.shape == A.shape for c in A.args):
        return ite(*[take(c, ax, I) for c in A.args])
    return mk("take", (A, ax, I), sh)


def msel(A, m):
    """Boolean selection A[m]."""
    n = mk("count", (m,), ())
    sh = None
    if A.shape is not None and m.shape is not None:
        sh = (n,) + A.shape[len(m.shape):]
    if A.op in ELEMENTWISE and A.shape is not None and m.shape is not None and all(
        c.shape is not None for c in children(A)
    ):
        def push(a):
            if len(a.shape) < len(A.shape):
                # broadcast along masked axes: keep only fully scalar operands
                return a if a.shape == () else msel(bcast_to(a, A.shape), m)
            return msel(a, m)

        return _push(A, push)
    if A.op == "full" and sh is not None:
        return full(sh, A.args[1])
    return mk("msel", (A, m), sh)


def stack(*xs):
    xs = tuple(xs)
    if not xs:
        return mk("stack", (), (ZERO,))
    # stack of consecutive entries of one array
    sh = xs[0].shape
    return mk("stack", xs, None if sh is None else (num(len(xs)),) + sh)


def concat(x, y):
    sh = None
    if x.shape is not None and y.shape is not None and x.shape and y.shape:
        sh = (add(x.shape[0], y.shape[0]),) + x.shape[1:]
        if x.shape[0] is ZERO:
            return y
        if y.shape[0] is ZERO:
            return x
    return mk("concat", (x, y), sh)


def sto(A, ax, i, v):
    if is_num(i) and i.args[0] < 0 and A.shape is not None and len(A.shape) > ax:
        i = add(A.shape[ax], i)
    # The stored value is broadcast to the shape of the entry
    if A.shape is not None and v.shape is not None:
        sh = _drop(A.shape, ax)
        if len(v.shape) < len(sh):
            v = bcast_to(v, sh)
        elif len(sh) == len(v.shape) and sh != v.shape and len(sh) == 1 and v.shape[0] is ONE:
            v = full(sh, at(v, 0, ZERO))
        elif len(v.shape) > len(sh) and all(d is ONE for d in v.shape[: len(v.shape) - len(sh)]):
            while len(v.shape) > len(sh):
                v = at(v, 0, ZERO)
    if A.op == "sto" and A.args[1] == ax and A.args[2] is i:
        return sto(A.args[0], ax, i, v)
    if v.op == "at" and v.args[0] is A and v.args[1] == ax and v.args[2] is i:
        return A
    if v.op == "ite" and v.args[0].shape == ():
        c, a, b = v.args
        old = at(A, ax, i)
        if a is old:
            return ite(c, A, sto(A, ax, i, b))
        if b is old:
            return ite(c, sto(A, ax, i, a), A)
    return mk("sto", (A, ax, i, v), A.shape)


def stos(A, ax, lo, n, step, v):
    if A.shape is not None and len(A.shape) > ax and lo is ZERO and step is ONE and n is A.shape[ax]:
        if v.shape is not None and len(v.shape) < len(A.shape):
            return bcast_to(v, A.shape)
        return v
    return mk("stos", (A, ax, lo, n, step, v), A.shape)


def scat(A, I, v):
    return mk("scat", (A, I, v), A.shape)


def rankof(i, P):
    """Place of i in the permutation P."""
    if i.op == "at" and i.args[0] is P and i.args[1] == 0 and not (is_num(i.args[2]) and i.args[2].args[0] < 0):
        return i.args[2]
    if i.op == "argmin" and P.op == "argsort" and P.args[0] is i.args[0]:
        return ZERO
    return mk("rankof", (i, P), ())


def place(i, I):
    """Place of the entry i in I, of which it is known to be one."""
    if I.op == "slc" and I.args[0].op in ("argsort", "rperm") and len(I.args[0].shape or (1, 1)) == 1:
        P, k, lo, n, step = I.args
        if is_num(step) and step.args[0] in (1, -1):
            r = rankof(i, P)
            return sub(r, lo) if step.args[0] == 1 else sub(lo, r)
    return mk("pos", (i, I), ())


def mem(i, I):
    """Whether the integer i is one of the entries of I."""
    if I.op == "slc" and I.args[0].op in ("argsort", "rperm"):
        P, k, lo, n, step = I.args
        r = rankof(i, P)
        if is_num(step) and step.args[0] == 1:
            return band(le(lo, r), lt(r, add(lo, n)))
        if is_num(step) and step.args[0] == -1:
            return band(le(r, lo), lt(sub(lo, n), r))
    return mk("mem", (i, I), ())


def delete(A, k, ax):
    sh = None
    if A.shape is not None:
        sh = A.shape[:ax] + (sub(A.shape[ax], ONE),) + A.shape[ax + 1:]
    return mk("delete", (A, k, ax), sh)


# ---------------------------------------------------------------- reductions
def red(op, A, ax=0):
    """Reduction along an axis: op in sum, any, prod."""
    if A.shape is None:
        return mk("red", (op, A, ax), None)
    if len(A.shape) == 0:
        return A
    n = A.shape[ax]
    if len(A.shape) == 1:
        f = fresh("i")
        return redi(op, n, f, at(A, 0, f))
    if len(A.shape) == 2:
        o = 1 - ax
        f = fresh("i")
        row = at(A, o, f)
        return mapt(A.shape[o], f, red(op, row, 0))
    return mk("red", (op, A, ax), _drop(A.shape, ax))


def redi(op, n, i, body):
    if op == "any":
        if body is FALSE or body is TRUE:
            return body
        if body.op == "or":
            return bor(*[redi(op, n, i, b) for b in body.args])
        if body.op == "and":
            dep = [b for b in body.args if depends(b, i)]
            ind = [b for b in body.args if not depends(b, i)]
            if ind and dep:
                return band(*(ind + [redi(op, n, i, band(*dep))]))
        if not depends(body, i):
            return band(lt(ZERO, n), body) if not (is_num(n) and n.args[0] > 0) else body
    elif op == "sum":
        body = tonum(body)
        if is_num(n) and n.args[0].denominator == 1 and 0 <= n.args[0] <= 4:
            return add(*[subst(body, {i: num(k)}) for k in range(int(n.args[0]))]) if n.args[0] else ZERO
        if not depends(body, i):
            return mul2(n, body)
        ts = _terms(body)
        if len(ts) > 1:
            return add(*[redi(op, n, i, _mkpoly({m: c})) for m, c in ts.items()])
        (m, c), = ts.items()
        ind = tuple((a, e) for a, e in m if not depends(a, i))
        dep = tuple((a, e) for a, e in m if depends(a, i))
        if ind or c != 1:
            return mul2(_mkpoly({ind: c}), redi(op, n, i, _mkpoly({dep: Fraction(1)})))
        # sum over the index itself
        if dep == ((i, 1),):
            return mul(num(Fraction(1, 2)), n, sub(n, ONE))
        # sum of indicator: ite(c, 1, 0)
    elif op == "prod":
        if not depends(body, i) and body is ONE:
            return ONE
        if is_num(n) and n.args[0].denominator == 1 and 0 <= n.args[0] <= 4:
            return mul(*[subst(body, {i: num(k)}) for k in range(int(n.args[0]))]) if n.args[0] else ONE
    k = bvar(bvdepth(body) + 1)
    body = subst(body, {i: k})
    o = "any" if op == "any" else op
    return mk(o, (n, k, body), ())


def anyt(A):
    if A.shape is None:
        return mk("any1", (A,), ())
    while A.shape:
        A = red("any", A, len(A.shape) - 1)
        if A.shape is None:
            break
    return A


def allt(A):
    return bnot(anyt(bnot(A)))


def sumt(A):
    while A.shape:
        A = red("sum", A, len(A.shape) - 1)
    return A


def argmin(A):
    if A.op == "expand":
        pass
    return mk("argmin", (A,), ())


def amin(A):
    if A.op == "full":
        return A.args[1]
    if A.shape is not None and len(A.shape) == 1:
        if is_num(A.shape[0]) and 0 < A.shape[0].args[0] <= 4:
            return min_(*[at(A, 0, num(k)) for k in range(int(A.shape[0].args[0]))])
        return at(A, 0, argmin(A))
    return mk("amin", (A,), ())


def amax(A):
    return neg(amin(neg(A)))


def argsort(A):
    return mk("argsort", (A,), A.shape)


def dot(x, y):
    if x.shape is None or y.shape is None:
        return mk("dot", (x, y), None)
    if not x.shape or not y.shape:
        return mul2(x, y)
    if len(x.shape) == 1 and len(y.shape) == 1:
        f = fresh("i")
        return redi("sum", x.shape[0], f, mul2(at(x, 0, f), at(y, 0, f)))
    if len(x.shape) == 2 and len(y.shape) == 1:
        f = fresh("i")
        return mapt(x.shape[0], f, dot(at(x, 0, f), y))
    if len(x.shape) == 1 and len(y.shape) == 2:
        f = fresh("i")
        return mapt(y.shape[1], f, dot(x, at(y, 1, f)))
    if len(x.shape) == 2 and len(y.shape) == 2:
        if x.op == "diagm":
            return mul2(expand(x.args[0], 1), y)
        if y.op == "diagm":
            return mul2(x, y.args[0])
    return mk("dot", (x, y), x.shape[:-1] + y.shape[1:])


# ---------------------------------------------------------------- loops
def phi(loop, name, shape, kind="num"):
    return mk("phi", (loop, name, shape, kind), shape)


def iterk(loop):
    return mk("iter", (loop,), ())


def fin(loop, t):
    """Value of the expression t (over the phis of loop) when the loop exits."""
    if not has_loop(t, loop):
        return t
    return mk("fin", (loop, t), t.shape)


def loops_of(t):
    """Set of loop ids whose phis or counters occur free in t (not under fin of that loop)."""
    if t._fv is None:
        s = set()
        if t.op in ("phi", "iter"):
            s.add(t.args[0])
        for a in children(t):
            s |= loops_of(a)
        if t.op == "fin":
            s = (s - {t.args[0]}) | LOOP_DEPS.get(t.args[0], set())
        t._fv = frozenset(s)
    return t._fv


def has_loop(t, loop):
    return loop in loops_of(t)


# ---------------------------------------------------------------- traversal
def depends(t, x):
    seen = set()
    stack = [t]
    while stack:
        a = stack.pop()
        if a is x:
            return True
        if a in seen:
            continue
        seen.add(a)
        if a.id < x.id and x.op != "bv":
            continue
        stack.extend(children(a))
    return False


def nodes(t):
    seen = set()
    stack = [t]
    out = []
    while stack:
        a = stack.pop()
        if a in seen:
            continue
        seen.add(a)
        out.append(a)
        stack.extend(children(a))
        if a.shape:
            pass
    return out


def _shape_sub(s, f):
    if s is None:
        return None
    return tuple(f(x) for x in s)


def subst(t, mapping, memo=None):
    """Replace terms (simultaneously) and renormalize."""
    if not mapping:
        return t
    memo = {} if memo is None else memo
    lo = min(k.id for k in mapping)

    def f(x):
        r = mapping.get(x)
        if r is not None:
            return r
        if x.id < lo:
            return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x, f)
            memo[x] = r
        return r

    f.mapping = mapping
    f.keys_by_loop = {k.args[0] for k in mapping if k.op in ("phi", "iter")}
    return f(t)


LOOP_DEPS = {}


def rebuild(t, f):
    op, args = t.op, t.args
    if op == "fin":
        keys = getattr(f, "keys_by_loop", None)
        if keys and args[0] in keys:
            # the phis of this loop are bound here
            sub_map = {k: v for k, v in f.mapping.items()
                       if not (k.op in ("phi", "iter") and k.args[0] == args[0])}
            return fin(args[0], subst(args[1], sub_map)) if sub_map else t
    ch = children(t)
    new = [f(c) for c in ch]
    if all(a is b for a, b in zip(ch, new)):
        return t
    if op in ELEMENTWISE:
        it = iter(new)
        return _push(t, lambda a: next(it))
    if op in ("map", "sum", "any", "prod"):
        n, bv, body = args
        # the bound variable is renamed first: replacements may bind the same one inside
        g = fresh("i")
        nn = f(n)
        nb = f(subst(body, {bv: g}))
        return mapt(nn, g, nb) if op == "map" else redi(op, nn, g, nb)

    def g(a):
        if isinstance(a, T):
            return f(a)
        if isinstance(a, tuple):
            return tuple(g(x) for x in a)
        return a

    na = tuple(g(a) for a in args)
    return construct(op, na, t)


_CONS = {}


def construct(op, a, old=None):
    if op == "at":
        return at(*a)
    if op == "full":
        return full(*a)
    if op == "expand":
        return expand(*a)
    if op == "tr":
        return tr(*a)
    if op == "slc":
        return slc(*a)
    if op == "take":
        return take(*a)
    if op == "msel":
        return msel(*a)
    if op == "stack":
        return stack(*a)
    if op == "concat":
        return concat(*a)
    if op == "sto":
        return sto(*a)
    if op == "stos":
        return stos(*a)
    if op == "scat":
        return scat(*a)
    if op == "mem":
        return mem(*a)
    if op == "delete":
        return delete(*a)
    if op == "red":
        return red(*a)
    if op == "argmin":
        return argmin(*a)
    if op == "amin":
        return amin(*a)
    if op == "argsort":
        return argsort(*a)
    if op == "dot":
        return dot(*a)
    if op == "fin":
        return fin(*a)
    if op == "len":
        return dim(*a)
    if op == "box":
        return boxed(a[0])
    if op == "bcast":
        return bcast_to(*a)
    if op == "sym":
        return mk("sym", a, a[1])
    if op == "phi":
        return mk("phi", a, a[2])
    if op in _CONS:
        return _CONS[op](*a)
    sh = old.shape if old is not None else None
    return mk(op, a, sh)


# ---------------------------------------------------------------- printing
def show(t, d=5):
    if not isinstance(t, T):
        return repr(t)
    op, a = t.op, t.args
    if op == "num":
        v = a[0]
        return str(v) if v.denominator == 1 else (str(v) if v.denominator < 1000 else repr(float(v)))
    if op == "const":
        return repr(a[1])
    if op == "sym":
        return a[0]
    if op == "fresh":
        return a[0]
    if op == "bv":
        return "_" + str(a[0])
    if op == "inf":
        return "inf"
    if op == "phi":
        return "%s@%s" % (a[1], a[0])
    if op == "iter":
        return "k@%s" % a[0]
    if d <= 0:
        return "..."
    s = lambda x: show(x, d - 1) if isinstance(x, T) else ("(" + ",".join(s(y) for y in x) + ")" if isinstance(x, tuple) else str(x))
    if op == "poly":
        out = []
        for c, m in a[:8]:
            fs = []
            if c != 1 or not m:
                fs.append(str(c) if c.denominator < 1000 else repr(float(c)))
            for x, e in m:
                fs.append(s(x) + ("" if e == 1 else "^%s" % e))
            out.append("*".join(fs))
        return "(" + " + ".join(out) + (" + ..." if len(a) > 8 else "") + ")"
    if op == "at":
        return "%s[%s%s]" % (s(a[0]), ":," * a[1], s(a[2]))
    if op in ("lt", "le", "eq"):
        return "(%s %s 0)" % (s(a[0]), {"lt": "<", "le": "<=", "eq": "=="}[op])
    if op == "fn":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    return "%s(%s)" % (op, ", ".join(s(x) for x in a))
