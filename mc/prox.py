"""Exhaustive check of proximal maps against the optimality certificate of the defining problem

    prox(q) = argmin_x f(x - offset) + own(x) + q(x)

x is the minimiser iff  -grad(own + q)(x)  is a subgradient of f at x - offset."""
import numpy as np
from . import atoms as A, ref, buffers


def make_quad(spec):
    from regreg.identity_quadratic import identity_quadratic
    if spec is None:
        return None
    L, c, l, k = spec
    return identity_quadratic(L, c if c is None else np.array(c), l if l is None else np.array(l), k)


def vec(pattern, shape):
    n = int(np.prod(shape))
    return np.resize(np.array(pattern, float), n).reshape(shape)


def configs(shape, tier):
    """(own quadratic, offset, proximal quadratic builder) combinations"""
    off = vec((0.5, -1., 2.), shape)
    own0 = None
    own1 = (0, None, vec((1., 0., -0.5), shape), 1.)
    own2 = (0.7, vec((1., -1.), shape), vec((0., 0.5, 1.), shape), 2.)
    forms = {"center": lambda L, z: (L, z, 0, 0),
             "linear": lambda L, z: (L, 0, -L * z, 3.),
             "both": lambda L, z: (L, z - 1., -L * np.ones(z.shape), -1.),
             "none": lambda L, z: (L, None, -L * z, None)}
    out = []
    for L in (1, 0.4, 3.):
        for o in (None, off):
            for own in (own0, own1, own2):
                out.append((L, o, own, "center", forms["center"]))
    for f in ("linear", "both", "none"):
        out.append((0.4, off, own1, f, forms[f]))
        out.append((2., None, own0, f, forms[f]))
    out.append((1., np.zeros(shape), own0, "center", forms["center"]))
    if tier == "quick" and int(np.prod(shape)) >= 5:
        return out[1:18:2] + out[18:21]
    if tier == "thorough":
        for L in (0.1, 2, 10.):
            for o in (off, -2 * off):
                for own in (own0, own2):
                    for f in forms:
                        out.append((L, o, own, f, forms[f]))
    return out


def run_case(R, case, alphabet, tier, direct=True):
    pts = list(A.grid(alphabet, case.shape))
    params = case.params
    for param in params:
        for L, off, own, fname, form in configs(case.shape, tier):
            kw = {}
            o = None if off is None else off.copy()
            if o is not None:
                kw["offset"] = o
            q0 = make_quad(own)
            if q0 is not None:
                kw["quadratic"] = q0
            key = "prox:%s" % case.name
            info = dict(atom=case.name, param=param, L=L, offset=off, own=own, form=fname)
            with R.guard(key, info):
                atom = case.make(param, **kw)
            try:
                atom
            except NameError:
                continue
            held = []
            for z in pts:
                spec = form(L, z)
                R.trans()
                with R.guard(key, dict(info, z=z)):
                    R.context = (case.name, param, z.tolist())
                    q = make_quad(spec)
                    x = atom.proximal(q)
                    held.append((x, np.array(x)))
                    verify(R, case, param, off, own, spec, z, x, key, info)
            if not all(np.array_equal(a, b) for a, b in held):
                R.fail(key + ":alias", "a result returned earlier was overwritten by a later call", info)
            if off is not None and not np.array_equal(o, off):
                R.fail(key + ":mutates-offset", "offset array modified", info)
            del atom
        if direct:
            run_direct(R, case, param, pts)
        call_histories(R, case, param, pts, tier)
    R.state(len(pts) * len(params))


def verify(R, case, param, off, own, spec, z, x, key, info):
    x = np.asarray(x)
    if x.shape != case.shape or not np.all(np.isfinite(x)):
        R.fail(key, "result %r of shape %s" % (x.tolist(), x.shape), dict(info, z=z))
        return
    v = -ref.q_grad(spec, x)
    if own is not None:
        v = v - ref.q_grad(own, x)
    y = x if off is None else x - off
    msg = case.ok(param, y, v)
    R.trace()
    R.outcome("%s:%s" % (case.kind, "zero" if not np.any(y) else ("interior" if np.abs(v).max() < 1e-9 else "active")))
    if msg:
        R.fail(key, msg, dict(info, z=z, result=x))
    else:
        R.sample(dict(info, z=z, result=x)) if np.any(y) and np.abs(v).max() > 1e-6 else None


def call_histories(R, case, param, pts, tier):
    """every short sequence of proximal maps and values of one penalty, the centre living in one array of the caller"""
    from regreg.identity_quadratic import identity_quadratic
    off = vec((0.5, -1., 2.), case.shape)
    lin = (0, None, vec((1., 0., -0.5), case.shape), 1.)
    held = {}

    def same_quadratic(a, z):
        if held.get("z") is not z:
            held["z"], held["q"] = z, identity_quadratic(1.5, z, 0, 0)
        return a.proximal(held["q"])
    calls = [("proximal map", "z", lambda a, z: a.proximal(identity_quadratic(.4, z, 0, 0))), ("proximal map (same quadratic)", "z", same_quadratic),
             ("value", "z", lambda a, z: a.nonsmooth_objective(z, check_feasibility=True)),
             ("proximal optimum", "z", lambda a, z: a.proximal_optimum(identity_quadratic(1., None, z, 0)))]
    if case.kind == "lagrange":
        calls.append(("lagrange_prox", "z", lambda a, z: a.lagrange_prox(z, lipschitz=.5, lagrange=param)))
    if case.kind == "bound":
        calls.append(("bound_prox", "z", lambda a, z: a.bound_prox(z, bound=param)))
    calls = [c for c in calls if c[0] not in ("lagrange_prox", "bound_prox") or hasattr(type(case.make(param)), c[0])]
    slow = "sparse_group" in case.name or tier == "quick" and int(np.prod(case.shape)) > 4
    args = dict(z=[pts[-1], pts[len(pts) // 3]])
    buffers.explore(R, "calls:%s" % case.name, lambda: case.make(param, offset=off.copy(), quadratic=make_quad(lin)), calls[:3] if slow else calls, args,
                    dict(atom=case.name, param=param), depth=2, fresh=not slow)
    R.outcome("call history")


def run_direct(R, case, param, pts):
    """the overriding keyword arguments of lagrange_prox / bound_prox, float and integer input"""
    if case.kind not in ("lagrange", "bound"):
        return
    atom = None
    key = "direct:%s" % case.name
    with R.guard(key, dict(atom=case.name)):
        atom = case.make(case.params[-1])
    if atom is None or not hasattr(atom, case.kind + "_prox"):
        return
    for z in pts:
        ints = [z]
        if np.all(z == np.round(z)):
            ints.append(z.astype(int))
        for zz in ints:
            R.trans()
            z0 = zz.copy()
            info = dict(atom=case.name, param=param, z=zz, dtype=str(zz.dtype))
            with R.guard(key, info):
                if case.kind == "lagrange":
                    L = 0.5
                    x = atom.lagrange_prox(zz, lipschitz=L, lagrange=param)
                else:
                    L = 1.
                    x = atom.bound_prox(zz, bound=param)
                if not np.array_equal(z0, zz):
                    R.fail(key + ":mutates", "argument modified", info)
                verify(R, case, param, None, None, (L, z0.astype(float), None, 0), z0, x, key, info)


def units_for(factories, tier, only=None):
    """[(name, (factory, dims, case name, alphabet))]"""
    out = []
    for f, dims, budget in factories:
        for d in dims:
            for c in getattr(A, f)(d):
                if not c.prox:
                    continue
                a = A.alphabet_for(c.size, budget)
                out.append(("%s/%s" % (f, c.name), (f, d, c.name, a)))
    return out


def find(f, d, name):
    d = tuple(d) if isinstance(d, (list, tuple)) else d
    for c in getattr(A, f)(d):
        if c.name == name:
            return c
    raise KeyError(name)
