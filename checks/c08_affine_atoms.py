"""Penalties composed with linear and affine maps: value, dual pair, smoothing."""
import itertools
import warnings
import numpy as np
from mc import buffers, atoms as A, ref, prox, affine as F
from mc.prox import vec

PROPERTY = "C08"
LEVEL = "model_checking"
RULE = ("every (penalty, parameter, offset, transform with matching output, construction route, point) in bounds; the composed "
        "value is compared with the definition h(Mx + b), the dual pair with the linear part and the Fenchel conjugate, and the "
        "smoothed composition with the optimality certificate of the infimal convolution")
ASSUMPTIONS = ["an own quadratic is combined only with transforms without offset (its meaning is not documented otherwise)",
               "coordinates, parameters and transforms come from the stated finite families"]
BOUNDS = {"quick": "penalties of dimension 2, 3 and 3x2, 20 transforms each, 8 to 27 points; histories of length 3 over 7 operations",
          "thorough": "the same with nested transforms and up to 125 points; histories of length 4"}


def units(tier):
    out = []
    for f, dims in (("basic", (2, 3)), ("structured", (3,)), ("matrix", ((3, 2),))):
        for d in dims:
            for c in getattr(A, f)(d):
                out.append(("%s/%s" % (f, c.name), (f, d, c.name)))
    return out


def weight(name, args):
    return 4 if "sparse_group" in name else 1


def transforms(shape, tier, slow=False):
    el = F.elementary()
    ts = [t for t in el if t.osh == shape]
    more = []
    for t in el:
        if t.key in ("dense33+b", "dense32+b", "csr", "diag+b", "matrix coefs+b1", "dense23+b", "row+b", "scaler2", "reshape 6->32") \
                or tier == "thorough":
            more += [u for u in F.unary(t) if u.osh == shape]
    by = dict((t.key, t) for t in el)
    for a, b in (("dense33+b", "dense32+b"), ("dense23+b", "dense33+b"), ("row+b", "row+b"), ("row", "dense23+b"),
                 ("matrix coefs 33", "matrix coefs+b2")):
        more += [u for u in F.binary(by[a], by[b]) if u.osh == shape]
    if tier == "quick":
        return ts[:3] + ts[3::3] + more[::8] if slow else ts + more[::2]
    return ts + more


def run(R, name, args, tier):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        explore(R, prox.find(*args), tier)
        histories(R, prox.find(*args), tier)


def explore(R, case, tier):
    shape = case.shape
    off = vec((0.5, -1., 2.), shape)
    ts = transforms(shape, tier, "sparse_group" in case.name)
    params = case.params if tier == "thorough" else case.params[-2:-1] or case.params
    from regreg.atoms import affine_atom
    for k, t in enumerate(ts):
        for param in params:
            for o in (None, off):
                key = "affine_atom:%s" % case.name
                info = dict(atom=case.name, param=param, offset=o, transform=t.name)
                at, comp = None, None
                with R.guard(key, info):
                    at = case.make(param, **({} if o is None else dict(offset=o.copy())))
                    real = t.make()
                    comp = affine_atom(at, real)
                    b = t.b.reshape(shape)
                    inner = -b if o is None else o - b
                    check(R, case, param, inner, None, t, comp, key, info, tier)
                    a2 = at.offset
                    R.check((a2 is None) if o is None else np.array_equal(a2, off), key + ":mutates",
                            "the penalty's own offset changed", info)
            if not np.any(t.b):
                own = (0, None, vec((1., 0., -0.5), shape), 1.)
                info = dict(atom=case.name, param=param, own=own, transform=t.name)
                with R.guard(key, info):
                    comp = affine_atom(case.make(param, offset=off.copy(), quadratic=prox.make_quad(own)), t.make())
                    check(R, case, param, off, own, t, comp, key + ":quadratic", info, tier)
            if case.group == "basic":
                routes(R, case, param, t, info, tier)


HOPS = ("param", "offset", "no offset", "quadratic", "original", "look", "use dual")


def histories(R, case, tier):
    """all short sequences of operations on one composition, the penalty it was made from and what it returned"""
    from regreg.atoms import affine_atom
    shape = case.shape
    off, off2 = vec((0.5, -1., 2.), shape), vec((-1., .25, 0.), shape)
    lin = (0, None, vec((1., 0., -0.5), shape), 1.)
    params = case.params[-2:]
    ts = [t for t in transforms(shape, "quick", True) if t.M.shape[1] <= 3]
    ts = [t for t in ts if np.any(t.b)][:1] + [t for t in ts if not np.any(t.b)][:1]
    key = "history:%s" % case.name
    slow = "sparse_group" in case.name
    for t in ts[:1] if slow and tier == "quick" else ts:
        b = t.b.reshape(shape)
        x = [vec((1., -2., .5), t.ish), vec((-.5, 0., 3.), t.ish)]
        calls = [("value", "x", lambda c, x: c.nonsmooth_objective(x, check_feasibility=True)), ("value of the dual", "u", lambda c, u: c.dual[1].nonsmooth_objective(u))]
        if case.prox:
            calls.append(("smoothing", "x", lambda c, x: c.smoothed(prox.make_quad((.5, None, None, 0))).smooth_objective(x, "both")))
        buffers.explore(R, "calls:%s" % case.name, lambda: affine_atom(case.make(params[0], offset=off.copy()), t.make()), calls[:2] if slow and tier == "quick" else calls, dict(x=x, u=[vec((.3, -.2), shape), vec((.1, .5), shape)]),
                        dict(atom=case.name, transform=t.name), depth=2, fresh=False)
        for n in (1, 2) if slow and tier == "quick" else (1, 2, 3) if tier == "quick" or slow else (1, 2, 3, 4):
            for seq in itertools.product(HOPS, repeat=n):
                if n > 2 and seq[0] not in ("look", "use dual") or n > 3 and seq[2] not in ("look", "use dual"):
                    continue        # without a look in between the last change of each kind decides
                info = dict(atom=case.name, transform=t.name, operations=list(seq))
                R.context = lambda: info
                R.state()
                with R.guard(key, info):
                    at = case.make(params[0], offset=off.copy())
                    comp = affine_atom(at, t.make())
                    param, inner, own = params[0], off - b, None
                    for op in seq:
                        R.trans()
                        if op == "param" and case.kind in ("lagrange", "bound"):
                            param = params[1] if param == params[0] else params[0]
                            setattr(comp.atom, case.kind, param)
                        elif op == "offset":
                            inner = off2
                            comp.atom.offset = off2.copy()
                        elif op == "no offset":
                            inner = np.zeros(shape)
                            comp.atom.offset = None
                        elif op == "quadratic":
                            own = lin
                            comp.atom.quadratic = prox.make_quad(lin)
                        elif op == "original":       # belongs to the caller
                            at.offset = vec((7.,), shape)
                            at.quadratic = prox.make_quad((0, None, vec((3., -4.), shape), 5.))
                            if case.kind in ("lagrange", "bound"):
                                setattr(at, case.kind, 9.)
                        elif op == "look":
                            glance(R, case, param, inner, own, t, comp, key, info)
                        elif op == "use dual":       # a dual that was returned belongs to the caller
                            L, g = comp.dual
                            g.quadratic = prox.make_quad((2., None, vec((1., 3.), shape), 1.))
                            g.offset = vec((4., 1.), shape)
                            if case.kind in ("lagrange", "bound"):
                                setattr(g, "bound" if case.kind == "lagrange" else "lagrange", 11.)
                    glance(R, case, param, inner, own, t, comp, key, info)
                R.trace()
                R.outcome("history")


def glance(R, case, param, inner, own, t, comp, key, info):
    x = vec((1., -2., .5), t.ish)
    z = (t.M @ x.ravel()).reshape(case.shape)
    if not near(case, param, z - inner):
        want = case.val(param, z - inner) + (0. if own is None else ref.q_value(own, z))
        got = comp.nonsmooth_objective(x, check_feasibility=True)
        R.check(np.ndim(got) == 0 and close(got, want, 1e-5), key + ":value", lambda: "value %r, definition gives %r" % (got, want), info)
    dual(R, case, param, inner, own, t, comp, key, info)
    smooth(R, case, param, inner, own, t, comp, key, info, "one")


def routes(R, case, param, t, info, tier):
    """the linear / affine class methods: h(Mx + b + alpha)"""
    shape = case.shape
    cls = type(case.make(param))
    kw = {case.kind: param} if case.kind in ("lagrange", "bound") else {}
    alpha = vec((1., -0.5, 0.25), shape)
    pos = ()
    if "projection" in case.name:
        pos = (case.make(param).basis,)
    key = "classmethod:%s" % case.name
    raw = {"dense33": True, "dense32": True, "csr": True, "row": True}.get(t.key)
    for how in ("linear", "linear+offset", "affine"):
        if how == "affine" and not hasattr(cls, "affine") or how == "affine" and pos:
            continue
        i2 = dict(info, how=how)
        with R.guard(key + ":" + how, i2):
            op = t.make()
            if raw:
                op = op.linear_operator
            a = None if how == "linear" else alpha.copy()
            if how == "affine":
                comp = cls.affine(op, a, **kw)
            else:
                comp = cls.linear(op, *pos, **dict(kw, **({} if a is None else dict(offset=a))))
            inner = -t.b.reshape(shape) - (0 if a is None else alpha)
            check(R, case, param, inner, None, t, comp, key + ":" + how, i2, tier)
            R.check(a is None or np.array_equal(a, alpha), key + ":mutates", "offset argument modified", i2)
    if t.key == "diag":
        with R.guard(key + ":diag", info):
            comp = cls.linear(np.array([1., -2., 0.5]), *pos, **dict(kw, diag=True))
            check(R, case, param, np.zeros(shape), None, t, comp, key + ":diag", dict(info, how="diag"), tier)


def points(t, tier):
    n = t.M.shape[1]
    a = (-1., 0., 2.) if 3 ** n <= (125 if tier == "thorough" else 9) else (0., 1.5) if 2 ** n <= (32 if tier == "thorough" else 8) else None
    if a is not None:
        return list(A.grid(a, t.ish))
    I = np.eye(n)
    return [v.reshape(t.ish) for v in list(I) + list(-1.5 * I) + [np.zeros(n), np.resize([1., -2., 0.5], n)]]


def close(a, b, tol=1e-7):
    return a == b or np.isfinite(a) and np.isfinite(b) and abs(a - b) <= tol * max(1., abs(b))


def near(case, param, y):
    m = case.margin(param, y)
    s = ref.scale(y, 0 if param is None else param)
    return m is not None and m != np.inf and (1e-9 * s < m < 1e-3 * s)


def check(R, case, param, inner, own, t, comp, key, info, tier):
    R.state()
    shape = case.shape
    for x in points(t, tier):
        z = (t.M @ x.ravel()).reshape(shape)
        y = z - inner
        q = 0. if own is None else ref.q_value(own, z)
        x0 = x.copy()
        R.trans()
        if not near(case, param, y):
            want = case.val(param, y) + q
            got = comp.nonsmooth_objective(x, check_feasibility=True)
            R.trace()
            R.outcome("%s:%s" % (case.kind, "inf" if want == np.inf else "finite"))
            R.check(np.ndim(got) == 0 and close(got, want, 1e-5), key + ":value",
                    lambda: "value %r, definition gives %r" % (got, want), lambda: dict(info, x=x))
        R.check(np.array_equal(x, x0), key + ":mutates", "argument modified", lambda: dict(info, x=x))
    dual(R, case, param, inner, own, t, comp, key, info)
    smooth(R, case, param, inner, own, t, comp, key, info, tier)
    R.sample(info)


def dual(R, case, param, inner, own, t, comp, key, info):
    """(linear part, conjugate of z -> h(z - inner) + <l, z> + c)"""
    L, g = comp.dual
    shape = case.shape
    for x in (vec((1., -2., 0.5), t.ish), np.zeros(t.ish)):
        R.check(np.allclose(np.asarray(L.linear_map(x)).ravel(), t.M @ x.ravel()), key + ":dual", "linear part differs", info)
    for u in (vec((1., -1., 0.5), shape), vec((0., 2.), shape)):
        R.check(np.allclose(np.asarray(L.adjoint_map(u)).ravel(), t.M.T @ u.ravel()), key + ":dual", "adjoint differs", info)
    R.check(tuple(L.input_shape) == t.ish and tuple(L.output_shape) == shape, key + ":dual", lambda: "shapes %r -> %r of the dual's transform"
            % (L.input_shape, L.output_shape), info)
    l, c = (0., 0.) if own is None else (own[2], own[3])
    for u in (np.zeros(shape), vec((0.5, -0.25, 0.1), shape), vec((-3., 4., 1.), shape), -vec((0.5, 1.), shape), vec((1., 0.), shape)):
        R.trans()
        w = u - l
        a, b = case.conjval(param, w * (1 - 2e-3)), case.conjval(param, w * (1 + 2e-3))
        if (a == np.inf) != (b == np.inf):
            continue
        k = case.conjval(param, w)
        want = k + float(np.sum(inner * w)) - c if np.isfinite(k) else np.inf
        got = g.nonsmooth_objective(u, check_feasibility=True)
        R.check(close(got, want, 1e-4), key + ":dual", lambda: "dual value %r, definition gives %r" % (got, want), lambda: dict(info, u=u))


def smooth(R, case, param, inner, own, t, comp, key, info, tier):
    if not case.prox:
        return
    shape = case.shape
    sq = (0.5, None, None, 0) if own is None else (1., vec((0., 1.), shape), vec((1., -1.), shape), -0.5)
    sm = comp.smoothed(prox.make_quad(sq))
    for x in points(t, tier)[:: 3 if tier == "quick" else 1] if tier != "one" else [vec((1., -2., .5), t.ish)]:
        R.trans()
        z = (t.M @ x.ravel()).reshape(shape)
        val, g = sm.smooth_objective(x, "both")
        u = np.array(sm.atom.smooth_objective(z, "grad"))
        w = z - ref.q_grad(sq, u)
        y = w - inner
        v = u if own is None else u - ref.q_grad(own, w)
        bad = case.ok(param, y, v)
        R.check(not bad, key + ":smoothed", lambda: "gradient of the smoothed composition: %s" % bad, lambda: dict(info, x=x))
        R.check(np.shape(g) == t.ish and np.allclose(g.ravel(), t.M.T @ u.ravel(), atol=1e-9), key + ":smoothed",
                "gradient is not the adjoint of the inner gradient", lambda: dict(info, x=x))
        base = case.val(param, y, 1e-6)
        want = (base if np.isfinite(base) else 0.) + (0. if own is None else ref.q_value(own, w)) \
            + float(np.sum((z - w) * u)) - ref.q_value(sq, u)
        R.check(close(val, want, 2e-5) and close(sm.smooth_objective(x, "func"), val, 1e-9), key + ":smoothed",
                lambda: "smoothed value %r, definition gives %r" % (val, want), lambda: dict(info, x=x))
