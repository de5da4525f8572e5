"""Edits of stochopy that keep its behaviour: id -> [(file, old, new[, occurrence or 'all'])]."""
O = "stochopy/optimize/"
C_ = O + "_common.py"
D_ = O + "de/_de.py"
P_ = O + "cpso/_cpso.py"
N_ = O + "na/_na.py"
K_ = O + "cmaes/_cmaes.py"
V_ = O + "vdcma/_vdcma.py"
SYNC_OLD = """    # Best solution index
    idx = np.argmin(xfun)

    # Stop if best solution changes less than xtol
    cond1 = np.linalg.norm(xbest - x[idx]) <= xtol
    cond2 = xfun[idx] <= ftol
    if cond1 and cond2:
        xbest = x[idx].copy()
        xbestfun = xfun[idx]
        status = 0

    # Stop if best solution value is less than ftol
    elif xfun[idx] <= ftol:
        xbest = x[idx].copy()
        xbestfun = xfun[idx]
        status = 1

    # Stop if maximum iteration is reached
    elif it >= maxiter:
        xbest = x[idx].copy()
        xbestfun = xfun[idx]
        status = -1

    # Otherwise, update best solution
    else:
        xbest = x[idx].copy()
        xbestfun = xfun[idx]
        status = None

    return xbest, xbestfun, candfun, status
"""
ASYNC_OLD = """    candfun = fun(cand[i])

    status = None
    if candfun <= xfun[i]:
        x[i] = cand[i].copy()
        xfun[i] = candfun

        # Update best individual
        if candfun <= xbestfun:
            # Stop if best solution changes less than xtol
            cond1 = np.linalg.norm(xbest - cand[i]) <= xtol
            cond2 = candfun <= ftol
            if cond1 and cond2:
                xbest = cand[i].copy()
                xbestfun = candfun
                status = 0

            # Stop if best solution value is less than ftol
            elif candfun <= ftol:
                xbest = cand[i].copy()
                xbestfun = candfun
                status = 1

            # Otherwise, update best solution
            else:
                xbest = cand[i].copy()
                xbestfun = candfun

    return xbest, xbestfun, candfun, status
"""
M = "stochopy/sample/mcmc/_mcmc.py"
PC2 = "stochopy/optimize/cpso/_constraints.py"
DC2 = "stochopy/optimize/de/_constraints.py"
C2 = "stochopy/optimize/cmaes/_cmaes.py"
CC2 = "stochopy/optimize/cmaes/_constraints.py"
S2 = "stochopy/optimize/_common.py"
N2 = "stochopy/optimize/na/_na.py"
P2 = "stochopy/optimize/cpso/_cpso.py"
H = "stochopy/sample/hmc/_hmc.py"
REFACTORS = {
    "result-methods": [
        ("stochopy/_common.py", "        try:\n            return self[name]\n        except KeyError:\n            raise AttributeError(name)",
         "        if name in self:\n            return self[name]\n        raise AttributeError(name)"),
        ("stochopy/_common.py", "    __setattr__ = dict.__setitem__\n    __delattr__ = dict.__delitem__\n",
         "    def __setattr__(self, name, value):\n        self[name] = value\n\n    def __delattr__(self, name):\n        del self[name]\n"),
        ("stochopy/_common.py", """        if self.keys():
            m = max(map(len, list(self.keys()))) + 1
            return "\\n".join(
                [
                    k.rjust(m) + ": " + repr(v)
                    for k, v in sorted(self.items())
                    if k not in {"xall", "funall"}
                ]
            )
        else:
            return self.__class__.__name__ + "()"
""", """        if not self:
            return f"{type(self).__name__}()"
        width = max(len(k) for k in self) + 1
        lines = []
        for k in sorted(self):
            if k in ("xall", "funall"):
                continue
            lines.append(f"{k:>{width}}: {self[k]!r}")
        return "\\n".join(lines)
"""),
        ("stochopy/_common.py", "return list(self.keys())", "return [k for k in self]"),
    ],

    "mcmc-rewrite": [
        (M, """            jmax = min(ndim, j + ndim_per_iter) - 1
            perturbation = np.random.randn(jmax - j + 1) * stepsize[j : jmax + 1]

            xall[i] = xall[i - 1].copy()
            xall[i, j : jmax + 1] += perturbation

            accept = False
            if in_search_space(xall[i], lower, upper, constraints):
                funall[i] = fun(xall[i], *args)
                log_alpha = min(0.0, funall[i - 1] - funall[i])
                accept = log_alpha > np.log(np.random.rand())

            if accept:
                n_accepted += 1
                if funall[i] < fmin:
                    imin, fmin = i, funall[i]
            else:
                xall[i] = xall[i - 1]
                funall[i] = funall[i - 1]
""", """            block = slice(j, min(j + ndim_per_iter, ndim))
            xnew = xall[i - 1].copy()
            xnew[block] += stepsize[block] * np.random.randn(block.stop - block.start)

            # Keep the current sample unless the proposal is accepted
            xall[i] = xall[i - 1]
            funall[i] = funall[i - 1]
            if in_search_space(xnew, lower, upper, constraints):
                fnew = fun(xnew, *args)
                if np.log(np.random.rand()) < min(funall[i - 1] - fnew, 0.0):
                    xall[i] = xnew
                    funall[i] = fnew
                    n_accepted += 1
                    if fnew < fmin:
                        imin = i
                        fmin = fnew
"""),
    ],
    "mcmc-helper": [
        (M, """                log_alpha = min(0.0, funall[i - 1] - funall[i])
                accept = log_alpha > np.log(np.random.rand())
""", """                accept = metropolis(funall[i - 1], funall[i])
"""),
        (M, "\n\nregister(\"mcmc\", sample)", """


def metropolis(fold, fnew):
    \"\"\"Acceptance rule.\"\"\"
    return np.random.rand() < np.exp(min(0.0, fold - fnew))


register("mcmc", sample)"""),
    ],
    "mcmc-while": [
        (M, "        for j in np.arange(0, ndim, ndim_per_iter):\n", "        j = -ndim_per_iter\n        while j + ndim_per_iter < ndim:\n            j += ndim_per_iter\n"),
    ],
    "mcmc-state": [
        (M, "    imin, fmin = 0, funall[0]\n    while", "    imin, fmin = 0, funall[0]\n    xcur, fcur = xall[0].copy(), funall[0]\n    while"),
        (M, "            xall[i] = xall[i - 1].copy()\n", "            xall[i] = xcur\n"),
        (M, "log_alpha = min(0.0, funall[i - 1] - funall[i])", "log_alpha = min(0.0, fcur - funall[i])"),
        (M, """            if accept:
                n_accepted += 1
""", """            if accept:
                n_accepted += 1
                xcur, fcur = xall[i].copy(), funall[i]
"""),
        (M, "                xall[i] = xall[i - 1]\n                funall[i] = funall[i - 1]\n", "                xall[i] = xcur\n                funall[i] = fcur\n"),
    ],
    "mcmc-common": [
        ("stochopy/sample/_common.py", """    if constraints == "Reject":
        return np.logical_and(np.all(x >= lower), np.all(x <= upper))
    else:
        return True""", """    if constraints != "Reject":
        return True
    return bool(np.all((lower <= x) & (x <= upper)))"""),
    ],
    "hmc-rewrite": [
        (H, """        q = xall[i - 1].copy()
        p = np.random.randn(ndim)  # Random momentum
        q0 = q.copy()
        p0 = p.copy()

        p -= 0.5 * stepsize * grad(q)  # First half momentum step
        q += stepsize * p  # First full position step
        for _ in range(nleap):
            p -= stepsize * grad(q)  # Momentum
            q += stepsize * p  # Position
        p -= 0.5 * stepsize * grad(q)  # Last half momentum step
""", """        q0 = xall[i - 1].copy()
        p0 = np.random.randn(ndim)
        q, p = leapfrog(q0, p0, stepsize, grad, nleap)
"""),
        (H, """            K0 = 0.5 * np.square(p0).sum()
            U = fun(q, *args)
            K = 0.5 * np.square(p).sum()

            log_alpha = min(0.0, U0 - U + K0 - K)
            accept = log_alpha > np.log(np.random.rand())
""", """            U = fun(q, *args)
            H0 = U0 + kinetic(p0)
            H1 = U + kinetic(p)
            accept = np.log(np.random.rand()) < H0 - H1
"""),
        (H, "\n\ndef count(fun):", """


def kinetic(p):
    return 0.5 * np.dot(p, p)


def leapfrog(q, p, stepsize, grad, nleap):
    p = p - 0.5 * stepsize * grad(q)
    q = q + stepsize * p
    for _ in range(nleap):
        p = p - stepsize * grad(q)
        q = q + stepsize * p
    p = p - 0.5 * stepsize * grad(q)
    return q, p


def count(fun):"""),
    ],
    "hmc-peeled": [
        (H, """        q += stepsize * p  # First full position step
        for _ in range(nleap):
            p -= stepsize * grad(q)  # Momentum
            q += stepsize * p  # Position
        p -= 0.5""", """        for _ in range(nleap):
            q += stepsize * p
            p -= stepsize * grad(q)
        q += stepsize * p
        p -= 0.5"""),
    ],
    "hmc-gradient": [
        (H, """    x1 = x.copy()
    x2 = x.copy()

    grad = np.empty(ndim)
    for i in range(ndim):
        x1[i] -= finite_diff_abs_step
        x2[i] += finite_diff_abs_step

        grad[i] = fun(x2, *args) - fun(x1, *args)

        x1[i] += finite_diff_abs_step
        x2[i] -= finite_diff_abs_step

    return 0.5 * grad / finite_diff_abs_step""", """    h = finite_diff_abs_step

    def partial(i):
        step = np.zeros(ndim)
        step[i] = h
        return (fun(x + step, *args) - fun(x - step, *args)) / (2.0 * h)

    return np.array([partial(i) for i in range(ndim)])"""),
    ],
    "hmc-gradient2": [
        (H, """        x1[i] -= finite_diff_abs_step
        x2[i] += finite_diff_abs_step

        grad[i] = fun(x2, *args) - fun(x1, *args)

        x1[i] += finite_diff_abs_step
        x2[i] -= finite_diff_abs_step
""", """        xi = x[i]
        x2[i] = xi + finite_diff_abs_step
        f2 = fun(x2, *args)
        x1[i] = xi - finite_diff_abs_step
        f1 = fun(x1, *args)
        grad[i] = f2 - f1
        x1[i] = xi
        x2[i] = xi
"""),
    ],
    "samplers-noop": [
        (M, "    n_accepted = 0\n", "    n_accepted = 0\n    assert ndim_per_iter >= 1\n    _ = None\n"),
        (H, "    n_accepted = 0\n", "    n_accepted = 0\n    pass\n    _unused = len(bounds)\n"),
    ],
    # ------------------------------------------------------------ optimizers
    "select-where": [
        (C_, """    candfun = fun(cand)
    idx = candfun < xfun
    xfun[idx] = candfun[idx].copy()
    x[idx] = cand[idx].copy()
""", """    candfun = fun(cand)
    better = candfun < xfun
    x[:] = np.where(better[:, None], cand, x)
    xfun[:] = np.where(better, candfun, xfun)
"""),
    ],
    "select-loop": [
        (C_, """    candfun = fun(cand)
    idx = candfun < xfun
    xfun[idx] = candfun[idx].copy()
    x[idx] = cand[idx].copy()
""", """    candfun = fun(cand)
    for i in range(len(cand)):
        if candfun[i] < xfun[i]:
            xfun[i] = candfun[i]
            x[i] = cand[i]
"""),
    ],
    "select-status": [
        (C_, SYNC_OLD, """    # Best solution index
    idx = np.argmin(xfun)
    xnew, fnew = x[idx].copy(), xfun[idx]

    if fnew <= ftol:
        status = 0 if np.linalg.norm(xbest - xnew) <= xtol else 1
    elif it >= maxiter:
        status = -1
    else:
        status = None

    return xnew, fnew, candfun, status
"""),
        (C_, ASYNC_OLD, """    candfun = fun(cand[i])

    status = None
    if candfun > xfun[i]:
        return xbest, xbestfun, candfun, status

    x[i] = cand[i].copy()
    xfun[i] = candfun
    if candfun > xbestfun:
        return xbest, xbestfun, candfun, status

    if candfun <= ftol:
        status = 1
        if np.linalg.norm(xbest - cand[i]) <= xtol:
            status = 0

    return cand[i].copy(), candfun, candfun, status
"""),
    ],
    "select-helper": [
        (C_, "def selection_sync(", """def _code(moved, value, xtol, ftol):
    if value <= ftol:
        if moved <= xtol:
            return 0
        return 1
    return None


def selection_sync("""),
        (C_, SYNC_OLD, """    idx = xfun.argmin()
    moved = np.linalg.norm(x[idx] - xbest)
    xbest = x[idx].copy()
    xbestfun = xfun[idx]
    status = _code(moved, xbestfun, xtol, ftol)
    if status is None and it >= maxiter:
        status = -1

    return xbest, xbestfun, candfun, status
"""),
        (C_, ASYNC_OLD, """    new = cand[i].copy()
    candfun = fun(new)
    status = None
    if candfun <= xfun[i]:
        x[i] = new
        xfun[i] = candfun
        if candfun <= xbestfun:
            status = _code(np.linalg.norm(xbest - new), candfun, xtol, ftol)
            xbest, xbestfun = new, candfun

    return xbest, xbestfun, candfun, status
"""),
    ],
    "wrapper-loop": [
        (C_, """                    def wrapper(x):
                        return np.array([fun(xx, *args) for xx in x])

            else:
""", """                    def wrapper(x):
                        f = np.empty(len(x))
                        for i, xx in enumerate(x):
                            f[i] = fun(xx, *args)
                        return f

            else:
"""),
        (C_, """                            f = parallel(fun(xx, *args) for xx in x)
                            return np.array(f)
""", """                            tasks = [fun(x[i], *args) for i in range(len(x))]
                            return np.asarray(parallel(tasks))
"""),
    ],
    "wrapper-partial": [
        (C_, """            if sync:
                if parallel:
                    if backend in prefer:""", """            def serial(x):
                return np.array([fun(x[i], *args) for i in range(len(x))])

            if sync and not parallel:
                return serial

            if sync:
                if parallel:
                    if backend in prefer:"""),
        (C_, "        parallel = backend == \"mpi\" or workers not in {0, 1}\n", "        parallel = workers not in {0, 1} or backend == \"mpi\"\n"),
    ],
    "lhs-loop": [
        (C_, """    pop = np.transpose([x[np.random.permutation(popsize), i] for i in range(ndim)])
""", """    pop = np.empty_like(x)
    for i in range(ndim):
        order = np.random.permutation(popsize)
        pop[:, i] = x[order, i]
"""),
        (C_, """        pop *= 0.5 * (upper - lower)
        pop += 0.5 * (upper + lower)
""", """        half = 0.5 * (upper - lower)
        pop = half * pop + (lower + half)
"""),
    ],
    "de-mask": [
        (D_, """    mask = np.zeros_like(r1, dtype=bool)
    irand = np.random.randint(ndim, size=popsize)
    for i in range(popsize):
        mask[i, irand[i]] = True

    U[:] = cons(np.where(np.logical_or(mask, r1 <= CR), V, X))
""", """    irand = np.random.randint(ndim, size=popsize)
    mask = r1 <= CR
    mask[np.arange(popsize), irand] = True
    trial = np.where(mask, V, X)
    U[:] = cons(trial)
"""),
        (D_, """        mask = np.zeros(ndim, dtype=bool)
        irand = np.random.randint(ndim)
        mask[irand] = True
        U[i] = cons(np.where(np.logical_or(mask, r1[i] <= CR), V, X[i]))
""", """        forced = np.random.randint(ndim)
        keep = (r1[i] > CR) & (np.arange(ndim) != forced)
        U[i] = cons(np.where(keep, X[i], V))
"""),
    ],
    "de-delete": [
        (D_, "    return np.random.permutation(np.delete(np.arange(popsize), i))\n", """    others = np.arange(popsize - 1)
    others[i:] += 1
    return np.random.permutation(others)
"""),
        (D_, "    return np.transpose([delete_shuffle_async(i, popsize) for i in range(popsize)])\n", """    out = np.empty((popsize - 1, popsize), dtype=int)
    for i in range(popsize):
        out[:, i] = delete_shuffle_async(i, popsize)
    return out
"""),
    ],
    "de-delete2": [
        (D_, "    return np.random.permutation(np.delete(np.arange(popsize), i))\n", """    return np.random.permutation([k for k in range(popsize) if k != i])
"""),
    ],
    "de-strategy": [
        (O + "de/_strategy.py", "    return X[i[0]] + F * (X[i[1]] - X[i[2]])\n", "    a, b, c = X[i[0]], X[i[1]], X[i[2]]\n    return a + F * b - F * c\n"),
        (O + "de/_strategy.py", "    return gbest + F * (X[i[0]] - X[i[1]])\n", "    step = X[i[0]] - X[i[1]]\n    return F * step + gbest\n"),
        (O + "de/_constraints.py", """        return np.where(
            np.logical_or(U < lower, U > upper),
            np.random.uniform(lower, upper, U.shape),
            U,
        )
""", """        new = np.random.uniform(lower, upper, U.shape)
        inside = (lower <= U) & (U <= upper)
        return np.where(inside, U, new)
"""),
    ],
    "de-main": [
        (D_, """    it = 1
    status = -1 if it >= maxiter else None
    converged = status is not None
    while not converged:
        it += 1
""", """    it = 1
    status = None if it < maxiter else -1
    while status is None:
        it += 1
"""),
        (D_, "        converged = status is not None\n\n        if callback", "        if callback"),
    ],
    "de-record": [
        (D_, "def delete_shuffle_sync(popsize):", """def _record(xall, funall, k, X, f, nout):
    if nout > 0:
        xall[k] = X[:nout]
        funall[k] = f[:nout]
    else:
        best = f.argmin()
        xall[k] = X[best]
        funall[k] = f[best]


def delete_shuffle_sync(popsize):"""),
        (D_, """            if nout > 0:
                xall[it - 1] = X[:nout].copy()
                funall[it - 1] = pbestfit[:nout].copy()

            else:
                idx = pbestfit.argmin()
                xall[it - 1] = X[idx].copy()
                funall[it - 1] = pbestfit[idx].copy()
""", """            _record(xall, funall, it - 1, X, pbestfit, nout)
"""),
    ],
    "pso-update": [
        (P_, """    V = w * V + c1 * r1 * (pbest - X) + c2 * r2 * (gbest - X)
    X, V = cons(X, V)

    return X, V
""", """    cognitive = c1 * r1 * (pbest - X)
    social = c2 * r2 * (gbest - X)
    return cons(X, w * V + cognitive + social)
"""),
    ],
    "pso-restart": [
        (P_, """    swarm_radius = np.max([np.linalg.norm(X[i] - gbest) for i in range(popsize)])
    swarm_radius /= np.sqrt(4.0 * ndim)
""", """    dist = [np.linalg.norm(x - gbest) for x in X]
    swarm_radius = max(dist) / np.sqrt(4.0 * ndim)
"""),
        (P_, """            idx = pbestfit.argsort()[: -nw - 1 : -1]
            V[idx] = np.zeros((nw, ndim))
            X[idx] = np.random.uniform(lower, upper, (nw, ndim))
            pbest[idx] = X[idx].copy()
            pbestfit[idx] = np.full(nw, np.inf)
""", """            worst = np.argsort(pbestfit)[::-1][:nw]
            new = np.random.uniform(lower, upper, (nw, ndim))
            X[worst] = new
            pbest[worst] = new
            V[worst] = 0.0
            pbestfit[worst] = np.inf
"""),
    ],
    "pso-early": [
        (P_, """    # Restart particles if swarm size is lower than threshold
    if swarm_radius < delta:
        inorm = it / maxiter""", """    # Restart particles if swarm size is lower than threshold
    if swarm_radius >= delta:
        return X, V, pbest, pbestfit

    if True:
        inorm = it / maxiter"""),
    ],
    "pso-shrink": [
        (O + "cpso/_constraints.py", """        condl = maskl.any()
        condu = masku.any()

        if condl and condu:
            bl = (lower[maskl] - X[maskl]) / V[maskl]
            bu = (upper[masku] - X[masku]) / V[masku]
            return min(bl.min(), bu.min())

        elif condl and not condu:
            bl = (lower[maskl] - X[maskl]) / V[maskl]
            return bl.min()

        elif not condl and condu:
            bu = (upper[masku] - X[masku]) / V[masku]
            return bu.min()

        else:
            return 1.0
""", """        beta = 1.0
        if maskl.any():
            beta = min(beta, ((lower[maskl] - X[maskl]) / V[maskl]).min())
        if masku.any():
            beta = min(beta, ((upper[masku] - X[masku]) / V[masku]).min())
        return beta
"""),
    ],
    "pso-async": [
        (P_, """        X[i], V[i] = mutation(
            X[i], V[i], pbest[i], gbest, w, c1, c2, r1[i], r2[i], cons
        )
""", """        x, v = mutation(X[i], V[i], pbest[i], gbest, w, c1, c2, r1[i], r2[i], cons)
        X[i] = x
        V[i] = v
"""),
        (P_, """    # Stop if maximum iteration is reached
    if status is None and it >= maxiter:
        status = -1

    return X, V, pbest, gbest, pbestfit, gfit, pfit, status
""", """    # Stop if maximum iteration is reached
    if it >= maxiter:
        status = -1 if status is None else status

    return X, V, pbest, gbest, pbestfit, gfit, pfit, status
"""),
    ],
    "na-archive": [
        (N_, """        Xall = np.vstack((X, Xall))
        Xallfit = np.concatenate((pfit, Xallfit))
""", """        Xall = np.concatenate([X, Xall], axis=0)
        Xallfit = np.append(pfit, Xallfit)
"""),
        (N_, """    ix = Xallfit.argsort()[:nr]
    for i in range(popsize):
        k = ix[i % nr]
        X[i] = Xall[k].copy()
        U = np.delete(Xall, k, axis=0)
""", """    best = np.argsort(Xallfit)
    for i in range(popsize):
        k = best[i % nr]
        X[i] = Xall[k]
        U = np.delete(Xall, k, axis=0)
"""),
    ],
    "na-limits": [
        (N_, """            idx = lim <= X[i, j]
            low = max(lim[idx].max(), 0.0) if idx.sum() else 0.0

            idx = lim >= X[i, j]
            high = min(lim[idx].min(), 1.0) if idx.sum() else 1.0

            X[i, j] = np.random.uniform(low, high)
""", """            low, high = 0.0, 1.0
            below = lim[lim <= X[i, j]]
            if below.size > 0:
                low = max(low, below.max())
            above = lim[lim >= X[i, j]]
            if above.size > 0:
                high = min(high, above.min())

            X[i, j] = np.random.uniform(low, high)
"""),
    ],
    "na-norm": [
        (N_, """    normalize = lambda x: np.where(span_mask, (x - lower) / span, upper)
    unnormalize = lambda x: np.where(span_mask, x * span + lower, upper)

    fun = lambda x: funnorm(unnormalize(x))
""", """    def normalize(x):
        return np.where(span_mask, (x - lower) / span, upper)

    def unnormalize(x):
        return np.where(span_mask, lower + span * x, upper)

    def fun(x):
        return funnorm(unnormalize(x))
"""),
    ],
    "cma-std": [
        (K_, """    xm = 0.5 * (upper + lower)
    xstd = 0.5 * (upper - lower)
    standardize = lambda x: (x - xm) / xstd
    unstandardize = lambda x: x * xstd + xm

    fun = lambda x: funstd(unstandardize(x))
""", """    xstd = 0.5 * (upper - lower)
    xm = lower + xstd

    def standardize(x):
        return (x - xm) / xstd

    def unstandardize(x):
        return xm + x * xstd

    def fun(x):
        return funstd(unstandardize(x))
"""),
        (K_, """        arx = np.array(
            [
                xmean + sigma * np.dot(B, D * np.random.randn(ndim))
                for i in range(popsize)
            ]
        )
        arxvalid = arx.copy()
""", """        arx = np.empty((popsize, ndim))
        for i in range(popsize):
            z = np.random.randn(ndim)
            arx[i] = xmean + sigma * B.dot(D * z)
        arxvalid = arx.copy()
"""),
    ],
    "cma-select": [
        (K_, """        arindex = np.argsort(arfitness)
        xold = xmean.copy()
        xmean = np.dot(weights, arx[arindex[:mu], :])
""", """        arindex = arfitness.argsort()
        xold = xmean
        parents = arx[arindex[:mu]]
        xmean = np.dot(weights, parents)
"""),
        (K_, """    weights = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
    weights /= weights.sum()
""", """    ranks = np.arange(1, mu + 1)
    weights = np.log(mu + 0.5) - np.log(ranks)
    weights = weights / np.sum(weights)
"""),
    ],
    "cma-mean": [
        (K_, """        xmean = np.dot(weights, arx[arindex[:mu], :])
""", """        xmean = np.zeros(ndim)
        for wk, k in zip(weights, arindex[:mu]):
            xmean = xmean + wk * arx[k]
"""),
    ],
    "cma-penalize": [
        (O + "cmaes/_constraints.py", """    arxvalid = np.where(arxvalid < -1.0, -ones, arxvalid)
    arxvalid = np.where(arxvalid > 1.0, ones, arxvalid)
""", """    arxvalid = np.clip(arxvalid, -1.0, 1.0)
"""),
        (O + "cmaes/_constraints.py", """    arfitness += np.dot((arxvalid - arx) ** 2, bnd_weights / bnd_scale)

    return""", """    penalty = np.dot((arx - arxvalid) ** 2, bnd_weights / bnd_scale)
    arfitness = arfitness + penalty

    return"""),
        (O + "cmaes/_constraints.py", """    ti = np.logical_or(xmean < -ones, xmean > ones)
    tx = np.where(xmean < -ones, -ones, xmean)
    tx = np.where(xmean > ones, ones, tx)
""", """    tx = np.minimum(np.maximum(xmean, -1.0), 1.0)
    ti = np.logical_or(xmean < -1.0, xmean > 1.0)
"""),
    ],
    "cma-converge": [
        (K_, """    # Stop if maximum iteration is reached
    if it >= maxiter:
        status = -1

    # Stop if mean position changes less than xtol
    elif np.linalg.norm(xold - xmean) <= xtol and arfitness[arindex[0]] < ftol:
        status = 0

    # Stop if fitness is less than ftol
    elif arfitness[arindex[0]] <= ftol:
        status = 1
""", """    fbest = arfitness[arindex[0]]
    moved = np.linalg.norm(xmean - xold)

    if it >= maxiter:
        return -1

    elif moved <= xtol and fbest < ftol:
        return 0

    elif fbest <= ftol:
        return 1
"""),
    ],
    "vd-mean": [
        (V_, """        dx = np.dot(weights, arx[arindex[:mu]]) - weights.sum() * xmean
        xold = xmean.copy()
        xmean += dx
""", """        xold = xmean.copy()
        dx = np.dot(weights, arx[arindex[:mu]]) - weights.sum() * xold
        xmean = xold + dx
"""),
    ],
    "optimizers-noop": [
        (D_, "    ndim = len(bounds)\n    lower, upper = np.transpose(bounds)\n", "    ndim = len(bounds)\n    pass\n    lower, upper = np.transpose(bounds)\n    _n = ndim + 1\n"),
        (P_, "    # Swarm maximum radius\n", "    assert popsize > 0\n    _unused = None\n"),
        (N_, "    # Number of resampling\n", "    _ = span.size\n"),
        (K_, "    # Number of parents\n", "    for _ in ():\n        pass\n"),
        (V_, "    # Number of parents\n", "    if False:\n        raise RuntimeError()\n"),
        (C_, "    # Selection\n    candfun = fun(cand)\n", "    _ = len(x)\n    candfun = fun(cand)\n"),
    ],
    "copy-style": [
        (P_, ".copy()", "[:].copy()", "all"),
        (D_, "gbest = X[gbidx].copy()", "gbest = np.array(X[gbidx])"),
        (C_, "xbest = x[idx].copy()", "xbest = np.array(x[idx])", "all"),
    ],
    "result-late": [
        (D_, """    res = OptimizeResult(
        x=gbest,
        success=status >= 0,
        status=status,
        message=messages[status],
        fun=gfit,
        nfev=it * popsize,
        nit=it,
    )
    if return_all:
        res.update({"xall": xall[:it], "funall": funall[:it]})

    return res
""", """    nfev = popsize * it
    success = not status < 0
    out = OptimizeResult()
    out["x"] = gbest
    out.update(success=success, status=status, message=messages[status])
    out["fun"] = gfit
    out["nfev"], out["nit"] = nfev, it
    if return_all:
        out["xall"] = xall[:it]
        out["funall"] = funall[:it]

    return out
"""),
    ],
    "shrink-target": [
        (PC2, """        condl = maskl.any()
        condu = masku.any()

        if condl and condu:
            bl = (lower[maskl] - X[maskl]) / V[maskl]
            bu = (upper[masku] - X[masku]) / V[masku]
            return min(bl.min(), bu.min())

        elif condl and not condu:
            bl = (lower[maskl] - X[maskl]) / V[maskl]
            return bl.min()

        elif not condl and condu:
            bu = (upper[masku] - X[masku]) / V[masku]
            return bu.min()

        else:
            return 1.0
""", """        out = np.logical_or(maskl, masku)
        if not out.any():
            return 1.0
        target = np.where(maskl, lower, upper)

        return ((target[out] - X[out]) / V[out]).min()
"""),
    ],
    "shrink-loop": [
        (PC2, """            beta = np.array(
                [shrink(x, v, ml, mu) for x, v, ml, mu in zip(X, V, maskl, masku)]
            )
            V *= beta[:, None]
""", """            for i in range(len(X)):
                V[i] *= shrink(X[i], V[i], maskl[i], masku[i])
"""),
    ],
    "random-mask": [
        (DC2, """        return np.where(
            np.logical_or(U < lower, U > upper),
            np.random.uniform(lower, upper, U.shape),
            U,
        )
""", """        new = np.random.uniform(lower, upper, U.shape)
        outside = np.logical_or(U < lower, U > upper)
        U = U.copy()
        U[outside] = new[outside]

        return U
"""),
    ],
    "cma-sorted": [
        (C2, """        xmean = np.dot(weights, arx[arindex[:mu], :])
""", """        arxsorted = arx[arindex]
        xmean = np.dot(weights, arxsorted[:mu])
"""),
        (C2, """        artmp = (arx[arindex[:mu], :] - np.tile(xold, (mu, 1))) / sigma
""", """        artmp = (arxsorted[:mu] - xold) / sigma
"""),
    ],
    "cma-best": [
        (C2, """        arbestfitness[it - 1] = arfitness[arindex[0]].copy()
""", """        ibest = arindex[0]
        fbest = arfitness[ibest]
        arbestfitness[it - 1] = fbest
"""),
        (C2, """    res = OptimizeResult(
        x=unstandardize(arxvalid[arindex[0]]),
        success=status >= 0,
        status=status,
        message=messages[status],
        fun=arfitness[arindex[0]],
""", """    res = OptimizeResult(
        x=unstandardize(arxvalid[ibest]),
        success=status >= 0,
        status=status,
        message=messages[status],
        fun=fbest,
"""),
        (C2, """                x=unstandardize(arxvalid[arindex[0]]),
                fun=arfitness[arindex[0]],
                nfev""", """                x=unstandardize(arxvalid[ibest]),
                fun=fbest,
                nfev"""),
    ],
    "penalize-loop": [
        (CC2, """    arxvalid = np.where(arxvalid < -1.0, -ones, arxvalid)
    arxvalid = np.where(arxvalid > 1.0, ones, arxvalid)
""", """    arxvalid = np.where(arx < -1.0, -1.0, np.where(arx > 1.0, 1.0, arx))
"""),
        (CC2, """    arfitness += np.dot((arxvalid - arx) ** 2, bnd_weights / bnd_scale)
""", """    scaled = bnd_weights / bnd_scale
    for k in range(popsize):
        arfitness[k] += (scaled * (arxvalid[k] - arx[k]) ** 2).sum()
"""),
    ],
    "penalize-weights": [
        (CC2, """        bnd_weights = np.array(
            [
                w * 1.2 ** min(1.0, mueff / 10.0 / ndim) if i else w
                for i, w in zip(idx, bnd_weights)
            ]
        )
""", """        factor = 1.2 ** min(1.0, mueff / 10.0 / ndim)
        bnd_weights = np.where(idx, bnd_weights * factor, bnd_weights)
"""),
        (CC2, """        bnd_weights.fill(2.0002 * np.median(dfithist))
""", """        bnd_weights = np.full(ndim, 2.0002 * np.median(dfithist))
"""),
    ],
    "cma-weights": [
        (C2, """    mu = max(1, int(muperc * popsize))
""", """    mu = int(muperc * popsize)
    if mu < 1:
        mu = 1
"""),
        (C2, """    weights = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
    weights /= weights.sum()
""", """    raw = np.array([np.log((mu + 0.5) / (i + 1.0)) for i in range(mu)])
    weights = raw / np.sum(raw)
"""),
    ],
    "converge-early": [
        (C2, """    # Stop if maximum iteration is reached
    if it >= maxiter:
        status = -1

    # Stop if mean position changes less than xtol
    elif np.linalg""", """    if it >= maxiter:
        return -1

    # Stop if mean position changes less than xtol
    if np.linalg"""),
    ],
    "async-merged": [
        (S2, """            cond1 = np.linalg.norm(xbest - cand[i]) <= xtol
            cond2 = candfun <= ftol
            if cond1 and cond2:
                xbest = cand[i].copy()
                xbestfun = candfun
                status = 0

            # Stop if best solution value is less than ftol
            elif candfun <= ftol:
                xbest = cand[i].copy()
                xbestfun = candfun
                status = 1

            # Otherwise, update best solution
            else:
                xbest = cand[i].copy()
                xbestfun = candfun
""", """            step = np.sqrt(np.sum((cand[i] - xbest) ** 2))
            xbest, xbestfun = cand[i].copy(), candfun
            if candfun <= ftol:
                status = 0 if step <= xtol else 1
"""),
    ],
    "sync-flat": [
        (S2, """    idx = candfun < xfun
    xfun[idx] = candfun[idx].copy()
    x[idx] = cand[idx].copy()
""", """    for k in np.flatnonzero(candfun < xfun):
        xfun[k] = candfun[k]
        x[k] = cand[k]
"""),
    ],
    "na-rotation": [
        (N2, """    nr = max(1, int(nrperc * popsize))
""", """    nr = int(nrperc * popsize)
    if nr == 0:
        nr = 1
"""),
        (N2, """    ix = Xallfit.argsort()[:nr]
    for i in range(popsize):
        k = ix[i % nr]
""", """    best = np.argsort(Xallfit)
    for i in range(popsize):
        k = best[i % nr]
"""),
    ],
    "restart-order": [
        (P2, """            idx = pbestfit.argsort()[: -nw - 1 : -1]
            V[idx] = np.zeros((nw, ndim))
            X[idx] = np.random.uniform(lower, upper, (nw, ndim))
            pbest[idx] = X[idx].copy()
            pbestfit[idx] = np.full(nw, np.inf)
""", """            worst = np.argsort(pbestfit)[::-1][:nw]
            new = np.random.uniform(lower, upper, (nw, ndim))
            X[worst] = new
            pbest[worst] = new
            V[worst] = 0.0
            pbestfit[worst] = np.inf
"""),
    ],
    "mutation-helper": [
        (P2, """    V = w * V + c1 * r1 * (pbest - X) + c2 * r2 * (gbest - X)
    X, V = cons(X, V)

    return X, V
""", """    return cons(X, velocity(X, V, pbest, gbest, w, c1 * r1, c2 * r2))


def velocity(X, V, pbest, gbest, w, a, b):
    return w * V + a * (pbest - X) + b * (gbest - X)
"""),
    ],
    "mcmc-exp": [
        (M, """                log_alpha = min(0.0, funall[i - 1] - funall[i])
                accept = log_alpha > np.log(np.random.rand())
""", """                delta = funall[i - 1] - funall[i]
                accept = np.random.rand() < np.exp(min(delta, 0.0))
"""),
    ],
    "mcmc-slice": [
        (M, """            jmax = min(ndim, j + ndim_per_iter) - 1
            perturbation = np.random.randn(jmax - j + 1) * stepsize[j : jmax + 1]

            xall[i] = xall[i - 1].copy()
            xall[i, j : jmax + 1] += perturbation
""", """            block = slice(j, min(ndim, j + ndim_per_iter))
            step = stepsize[block]
            xall[i] = xall[i - 1]
            xall[i, block] += step * np.random.randn(len(step))
"""),
    ],
    "pso-record": [
        (P2, """        if return_all:
            if nout > 0:
                xall[it - 1] = X[:nout].copy()
                funall[it - 1] = pfit[:nout].copy()

            else:
                idx = pfit.argmin()
                xall[it - 1] = X[idx].copy()
                funall[it - 1] = pfit[idx].copy()
""", """        if return_all:
            record(xall, funall, it - 1, X, pfit, nout)
"""),
        (P2, """def mutation(X, V, pbest""", """def record(xall, funall, k, X, pfit, nout):
    rows = slice(0, nout)
    if nout <= 0:
        best = np.argmin(pfit)
        rows = slice(best, best + 1)
    xall[k] = X[rows]
    funall[k] = pfit[rows]


def mutation(X, V, pbest"""),
    ],
    "sync-range": [
        (S2, """    idx = candfun < xfun
    xfun[idx] = candfun[idx].copy()
    x[idx] = cand[idx].copy()
""", """    for i in range(len(xfun)):
        if candfun[i] < xfun[i]:
            x[i] = cand[i]
            xfun[i] = candfun[i]
"""),
    ],
    "sync-where": [
        (S2, """    idx = candfun < xfun
    xfun[idx] = candfun[idx].copy()
    x[idx] = cand[idx].copy()
""", """    better = candfun < xfun
    x[:] = np.where(better[:, np.newaxis], cand, x)
    xfun[:] = np.where(better, candfun, xfun)
"""),
    ],
    "sync-status": [
        (S2, """    if cond1 and cond2:
        xbest = x[idx].copy()
        xbestfun = xfun[idx]
        status = 0

    # Stop if best solution value is less than ftol
    elif xfun[idx] <= ftol:
        xbest = x[idx].copy()
        xbestfun = xfun[idx]
        status = 1

    # Stop if maximum iteration is reached
    elif it >= maxiter:
        xbest = x[idx].copy()
        xbestfun = xfun[idx]
        status = -1

    # Otherwise, update best solution
    else:
        xbest = x[idx].copy()
        xbestfun = xfun[idx]
        status = None

    return xbest, xbestfun, candfun, status
""", """    status = None
    if cond2:
        status = 0 if cond1 else 1
    elif it >= maxiter:
        status = -1

    return x[idx].copy(), xfun[idx], candfun, status
"""),
    ],
    "async-guard": [
        (S2, """    status = None
    if candfun <= xfun[i]:
        x[i] = cand[i].copy()
""", """    status = None
    if not candfun <= xfun[i]:
        return xbest, xbestfun, candfun, status

    if True:
        x[i] = cand[i].copy()
"""),
    ],
    "de-cross": [
        ("stochopy/optimize/de/_de.py", """    mask = np.zeros_like(r1, dtype=bool)
    irand = np.random.randint(ndim, size=popsize)
    for i in range(popsize):
        mask[i, irand[i]] = True

    U[:] = cons(np.where(np.logical_or(mask, r1 <= CR), V, X))
""", """    cross = r1 <= CR
    irand = np.random.randint(ndim, size=popsize)
    for i, j in enumerate(irand):
        cross[i, j] = True

    U[:] = cons(np.where(cross, V, X))
"""),
    ],
    "na-concat": [
        (N2, """        Xall = np.vstack((X, Xall))
        Xallfit = np.concatenate((pfit, Xallfit))
""", """        Xall = np.concatenate([X, Xall], axis=0)
        Xallfit = np.hstack([pfit, Xallfit])
"""),
    ],
}
