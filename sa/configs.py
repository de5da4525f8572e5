"""Abstract runs of the public entry points under the option configurations."""
from collections import OrderedDict

from . import terms as tm
from .terms import *
from .interp import (Interp, Ref, Tup, UFn, Obj, Arr, Fn, Unsupported, UNDEF, Ext, Star)
from . import order

OPTIMIZERS = ["cpso", "pso", "de", "na", "cmaes", "vdcma"]
SAMPLERS = ["mcmc", "hmc"]

NDIM = sym("ndim", (), ONE, None, True)
POP = sym("popsize", (), TWO, None, True)
MAXIT = sym("maxiter", (), ONE, None, True)
SEED = sym("seed", (), ZERO, None, True)
XTOL = sym("xtol")
FTOL = sym("ftol")
VERB = sym("verbosity", (), None, ONE)

INTS = {"maxiter": MAXIT, "popsize": POP, "seed": SEED}


def ufn(name, role=None, maybe=False):
    f = UFn(name)
    f.role = role or name
    f.maybe = maybe
    return f


class Run:
    """One abstract execution."""

    def __init__(self, interp, entry, config):
        self.I = interp
        self.entry = entry
        self.config = config
        self.result = None
        self.error = None

    @property
    def events(self):
        return self.I.events

    def items(self):
        o = self.I.st.heap[self.result.loc]
        return OrderedDict(o.data)

    def field(self, name):
        return self.I.val(self.items()[name])

    def fields(self):
        return OrderedDict((k, self.I.val(v)) for k, v in self.items().items())

    def evs(self, *kinds):
        return [e for e in self.I.events if e.kind in kinds]


_base = {}


def interp(root):
    """Interpreter with the package imported."""
    I = Interp(root)
    I.import_package()
    return I


def resolve(I, path):
    """Value of a dotted name, loading submodules."""
    parts = path.split(".")
    m = I.load(parts[0])
    cur = m
    name = parts[0]
    for p in parts[1:]:
        name += "." + p
        env = I.st.envs.get(cur.env, {})
        if p in env:
            cur = env[p]
        else:
            cur = I.load(name)
            if cur is None:
                raise Unsupported("entry point %s not found" % path)
    return cur


def params_of(f):
    a = f.node.args
    names = [p.arg for p in a.posonlyargs + a.args]
    nd = len(f.defaults)
    dflt = {}
    for i, n in enumerate(names):
        k = i - (len(names) - nd)
        if k >= 0:
            dflt[n] = f.defaults[k]
    for p in a.kwonlyargs:
        names.append(p.arg)
        if p.arg in f.kwdefaults:
            dflt[p.arg] = f.kwdefaults[p.arg]
    return names, dflt


def array(I, name, shape, origin=True, lo=None, hi=None):
    t = sym(name, shape, lo, hi)
    return I.alloc(Arr(t, "f"), origin=("param:" + name) if origin else None)


def entry_name(method):
    kind = "sample" if method in SAMPLERS else "optimize"
    return "stochopy.%s.%s.%s" % (kind, method, "sample" if kind == "sample" else "minimize")


def setup(root, method, opts=None):
    """Interpreter and the argument values of an entry point under opts.

    opts: None leaves the default symbolic value of a parameter; special keys:
    x0 / callback / seed / constraints ... given as python values or builders.
    """
    I = interp(root)
    f = resolve(I, entry_name(method))
    if not isinstance(f, Fn):
        raise Unsupported("entry point %s is not a function" % entry_name(method))
    return I, f


# box: lower < upper in every coordinate
def box(I):
    b = array(I, "bounds", (NDIM, TWO))
    return b


def default_value(I, method, name, dflt):
    """Symbolic value of a parameter when the configuration does not say."""
    if name == "fun":
        return ufn("fun")
    if name == "bounds":
        return box(I)
    if name == "args":
        return sym("args")
    if name in INTS:
        return INTS[name]
    if name == "x0":
        return NONE
    if name == "callback":
        return NONE
    if name in ("updating", "strategy", "constraints", "backend", "workers", "return_all", "jac"):
        return dflt
    if name == "verbosity":
        return dflt
    if name in ("competitivity", "gamma"):
        return sym(name, (), ZERO, TWO)
    if name in ("cognitivity", "sociability"):
        return sym(name, (), ZERO, num(4))
    if name == "mutation":
        return sym(name, (), ZERO, TWO)
    if name in ("inertia", "recombination", "muperc"):
        return sym(name, (), ZERO, ONE)
    if name in ("nrperc", "perc"):
        return sym(name, (), ZERO, ONE)
    if name in ("xtol", "ftol"):
        return XTOL if name == "xtol" else FTOL
    if name == "sigma":
        return sym("sigma", (), ZERO, None)
    if name in ("stepsize",):
        return sym("stepsize", (), ZERO, None)
    if name == "nleap":
        return sym("nleap", (), ONE, None, True)
    if name == "finite_diff_abs_step":
        return sym(name, (), ZERO, None)
    if isinstance(dflt, T) and is_numeric(dflt):
        return sym(name)
    return dflt


def run(root, method, **opts):
    I, f = setup(root, method)
    names, dflt = params_of(f)
    kw = OrderedDict()
    for n in names:
        if n in opts:
            v = opts[n]
            kw[n] = v(I) if callable(v) else v
        else:
            kw[n] = default_value(I, method, n, dflt.get(n))
    pre = opts.get("_pre")
    if pre:
        I.st.pc = I.st.pc + tuple(pre)
    I.track = tuple(opts.get("_track", ()))
    for g in I.track:
        I.set_ghost("$cb." + g, UNDEF)
        if g in ("xall", "funall"):
            I.set_ghost("$cb.rows." + g, UNDEF)
    I.frames.append(top_frame(I))
    I.roots = kw
    r = Run(I, entry_name(method), {k: v for k, v in opts.items()})
    r.params = kw
    I.entry_state = I.st.copy()
    res = I.call(f, [], kw)
    r.result = res if I.st.alive else None
    return r


def top_frame(I):
    from .interp import Frame

    I.st.envs["caller"] = {}
    m = I.modules["stochopy"]
    return Frame(None, "caller", m, "<caller>")
