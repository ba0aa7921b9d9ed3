"""The quadratic terms L/2 |x-mu|^2 + <eta,x> + gamma: every sequence of operations on them, against polynomials."""
import itertools
import warnings
from copy import copy, deepcopy
import numpy as np

PROPERTY = "C11"
LEVEL = "model_checking"
RULE = ("every sequence of operations (add a quadratic, add nothing, copy, collapse, recentre, conjugate, slice, normalise the stored "
        "Nones, print) up to the stated depth from every combination of field forms (absent, zero, scalar, float and integer vectors), "
        "run on the real objects next to an exact polynomial; after every step the value, the gradient, the minimiser and all the objects "
        "the sequence already holds are compared at points that determine an isotropic quadratic")
ASSUMPTIONS = ["functions are compared on 0, the basis vectors and two integer points, which determine a polynomial L/2|x|^2+<l,x>+c in three variables",
               "a nonzero scalar centre is explored on one-dimensional arguments only (see known findings)"]
BOUNDS = {"quick": "4 x 5 x 5 x 2 starting forms, all operation sequences of depth 2", "thorough": "4 x 5 x 5 x 3 starting forms, depth 3"}

V1, V2, V3 = np.array([1., -2., 0.5]), np.array([0., 3., -1.]), np.array([2, -1, 3])
COEFS = [None, 0, 1, 2.5]
CENTERS = [None, 0, V1, V2, V3]
LINEARS = [None, 0., 2., V2, V3]
CONSTS = [None, 0, 1.5]
POINTS = [np.zeros(3), np.array([1., 0., 0.]), np.array([0., 2., 0.]), np.array([0., 0., 1.]), np.array([2, 1, -1])]


class Poly(object):
    """L/2 |x|^2 + <l,x> + c"""

    def __init__(self, L, l, c):
        self.L, self.l, self.c = float(L), np.zeros(3) + l, float(c)

    @classmethod
    def of(cls, coef, center, linear, const):
        L = coef or 0
        mu = np.zeros(3) if center is None else np.zeros(3) + center
        l = np.zeros(3) if linear is None else np.zeros(3) + linear
        return cls(L, l - L * mu, (const or 0) + L * (mu ** 2).sum() / 2.)

    def __call__(self, x):
        return self.L * (x * x).sum() / 2. + (self.l * x).sum() + self.c

    def grad(self, x):
        return self.L * x + self.l

    def plus(self, o):
        return Poly(self.L + o.L, self.l + o.l, self.c + o.c)

    def shifted(self, a):               # x -> self(x + a)
        return Poly(self.L, self.l + self.L * a, self(np.asarray(a, float)))

    def conjugate(self):                # sup <u,x> - self(x)
        return Poly(1 / self.L, -self.l / self.L, (self.l ** 2).sum() / (2 * self.L) - self.c)


def units(tier):
    return [("coef=%r" % c, ("seq", c)) for c in COEFS] + [("problems", ("problems",)), ("scalar", ("scalar",))]


def weight(name, args):
    return 2 if args[0] == "seq" else 1


def run(R, name, args, tier):
    from regreg.identity_quadratic import identity_quadratic as iq
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if args[0] == "scalar":
            return scalar(R, iq)
        if args[0] == "problems":
            return problems(R, iq)
        for center, linear, const in itertools.product(CENTERS, LINEARS, CONSTS if tier == "thorough" else CONSTS[::2]):
            spec = (args[1], center, linear, const)
            R.context = repr(spec)
            explore(R, iq, lambda: iq(*deepcopy(spec)), Poly.of(*spec), [repr(spec)], 3 if tier == "thorough" else 2, [])


def same(a, b):
    with np.errstate(all="ignore"):
        return bool(np.all(np.abs(np.subtract(a, b)) <= 1e-9 + 1e-5 * np.abs(b)) or np.allclose(a, b, atol=1e-9))


def compare(R, q, p, key, path):
    info = dict(path=path)
    with R.guard(key, info):
        for x in POINTS:
            x0 = x.copy()
            R.trace()
            f, g = q.objective(x, "both")
            R.check(same(f, p(x)), key, lambda: "value %r at %r, should be %r" % (f, x.tolist(), p(x)), info)
            R.check(same(g + np.zeros(3), p.grad(x)), key, lambda: "gradient %r at %r, should be %r" % (g, x.tolist(), p.grad(x)), info)
            R.check(x is not POINTS[-1] or same(q.objective(x, "func"), f) and same(q.objective(x, "grad"), g), key, "modes disagree", info)
            R.check(np.array_equal(x, x0), key + ":mutates", "argument modified", info)
        t = q.true_center
        if p.L > 0:
            R.check(t is not None and same(t + np.zeros(3), -p.l / p.L), key + ":minimiser", lambda: "true_center %r" % (t,), info)
        zero = p.L == 0 and not np.any(p.l) and p.c == 0
        R.check(zero or not q.iszero, key + ":iszero", "reported zero although it is not", info)


def operations(iq):
    ops = [("add(%r)" % (s,), "add", s) for s in ((1.5, V2, V1, 2.), (0, None, V3, 0), (2, V3, None, None), (0, 0, 0, 0), (None, None, None, None))]
    ops += [("add(None)", "none", None), ("copy", "copy", None), ("collapsed", "collapsed", None), ("conjugate", "conjugate", None)]
    ops += [("recenter(%r)" % (a,), "recenter", a) for a in (V1, V3, np.zeros(3), None)]
    ops += [("noneify", "noneify", None), ("zeroify", "zeroify", None), ("slice", "slice", None), ("print", "print", None)]
    return ops


def explore(R, iq, make, p, path, depth, held):
    """make() replays the whole sequence so far on fresh objects, returning the current object and those held before"""
    got = None
    with R.guard("quadratic:%s" % path[-1].split("(")[0], dict(path=path)):
        got = make()
    if got is None:
        return
    R.state()
    compare(R, got, p, "quadratic:%s" % ("construct" if len(path) == 1 else path[-1].split("(")[0]), path)
    R.outcome("%s" % (p.L > 0))
    R.sample(dict(path=path))
    if not depth:
        return
    for name, kind, arg in operations(iq):
        step(R, iq, make, p, path, name, kind, arg, depth)


def step(R, iq, make, p, path, name, kind, arg, depth):
    key = "quadratic:%s" % kind
    path = path + [name]
    info = dict(path=path)
    R.trans()
    new, keep = p, None
    with R.guard(key, info):
        q = make()
        if kind == "add":
            o = iq(*deepcopy(arg))
            po = Poly.of(*arg)
            new, nxt = p.plus(po), q + o
            compare(R, o, po, key + ":operand", path)
            compare(R, q, p, key + ":operand", path)
            if isinstance(nxt.linear_term, np.ndarray):
                nxt.linear_term += 7.      # the sum is a new object: changing it leaves the terms alone
                compare(R, o, po, key + ":aliased", path)
                compare(R, q, p, key + ":aliased", path)
            replay = lambda: make() + iq(*deepcopy(arg))
        elif kind == "none":
            nxt, replay = q + None, lambda: make() + None
        elif kind == "copy":
            nxt = copy(q)
            for a in (nxt.center, nxt.linear_term):
                if isinstance(a, np.ndarray) and a.ndim:
                    a += 1
            compare(R, q, p, key + ":aliased", path)
            R.check(bool(q == copy(q)), key + ":equal", "a copy is not equal to its original", info)
            other = copy(q)
            other.constant_term = (other.constant_term or 0) + 1
            R.check(not (q == other), key + ":equal", "equal to a different quadratic", info)
            replay = lambda: copy(make())
        elif kind == "collapsed":
            nxt = q.collapsed()
            R.check(nxt.center is None or not np.any(nxt.center), key, "collapsed quadratic has a centre", info)
            compare(R, q, p, key + ":operand", path)
            replay = lambda: make().collapsed()
        elif kind == "recenter":
            a = None if arg is None else arg.copy()
            off, nxt = q.recenter(a)
            R.check((off is None) == (arg is None or not np.any(arg)) and (off is None or np.array_equal(off, arg)), key, "offset changed", info)
            if arg is not None:
                new = p.shifted(arg)
                R.check(np.array_equal(a, arg), key + ":mutates", "offset modified", info)
            compare(R, q, p, key + ":operand", path)
            replay = lambda: make().recenter(None if arg is None else arg.copy())[1]
        elif kind == "conjugate":
            if p.L == 0:
                c = q.conjugate
                R.check(same(c.objective(p.l.copy(), check_feasibility=True), -p.c), key + ":linear", "conjugate is not -c at the linear term", info)
                for d in np.eye(3):
                    R.check(c.objective(p.l + d, check_feasibility=True) == np.inf, key + ":linear", "conjugate is finite away from the linear term", info)
                return
            new = p.conjugate()
            if np.ndim(q.collapsed().linear_term) == 0 and np.any(p.l):
                compare(R, q.conjugate, new, key, path)      # its centre is a nonzero scalar: see known findings
                return
            compare(R, q, p, key + ":operand", path)
            replay = lambda: make().conjugate
        elif kind in ("noneify", "zeroify"):
            def replay():
                r = make()
                getattr(r, kind)()
                return r
        elif kind == "print":
            repr(q), q.latexify(), q._repr_latex_()
            compare(R, q, p, key, path)
            return
        elif kind == "slice":
            for s in (slice(0, 2), np.array([2, 0]), np.array([True, False, True])):
                x = np.zeros(3)
                x[s] = np.array([1., -2.])
                part = q[s]
                R.check(same(part.objective(x[s], "func") - part.objective(np.zeros(2), "func"), p(x) - p(np.zeros(3))) and part.constant_term == 0, key,
                        "the restriction to a subset of the coordinates is wrong", info)
                R.check(same(part.objective(x[s], "grad") + np.zeros(2), p.grad(x)[s]), key, "gradient of the restriction is wrong", info)
            compare(R, q, p, key, path)
            return
        explore(R, iq, replay, new, path, depth - 1, [])


def scalar(R, iq):
    """all fields scalar: a function of one variable; and conflicting shapes are refused"""
    for coef, center, linear, const in itertools.product((0, 1, 2.5), (None, 0, 1.5, -2), (None, 0, 3.), (0, -1.)):
        q = iq(coef, center, linear, const)
        info = dict(spec=[coef, center, linear, const])
        f = lambda x: coef * (x - (center or 0)) ** 2 / 2. + (linear or 0) * x + const
        with R.guard("quadratic:scalar", info):
            R.state()
            for r, n in ((q, 1), (q.collapsed(), 1), (q + q, 2), (copy(q), 1), (q + iq(0, 0, 0, 0), 1)):
                for x in (0., 1., -2., 3.5):
                    R.trans()
                    R.check(same(r.objective(np.array([x]), "func"), n * f(x)), "quadratic:scalar", "wrong value", info)
            # the same object applied to several coordinates
            for r in (q, q.collapsed()):
                x = np.array([1., 2., -1.])
                want = sum(f(v) for v in x) - 2 * const
                known = r is not q and center and same(r.objective(x, "func"), want - coef * center ** 2)   # |mu|^2 counted once, not per coordinate
                R.check(same(r.objective(x, "func"), want), "quadratic:scalar-center" if known else "quadratic:scalar-vector",
                        "value on three coordinates is %r, should be %r" % (r.objective(x, "func"), want), info)
                R.check(same(r.objective(x, "grad"), coef * (x - (center or 0)) + (linear or 0)), "quadratic:scalar-vector", "wrong gradient", info)
    q = iq(1, np.ones(2), np.ones(3))
    try:
        q.get_shapes()
        R.fail("quadratic:shapes", "conflicting shapes were accepted")
    except ValueError:
        pass


def problems(R, iq):
    """minimising a penalty plus a quadratic: the reported optimum is the value of the objective at the reported point, and nothing is lower"""
    import regreg.api as rr
    grid = [np.array(x, float) for x in itertools.product((-2, -1, -.5, 0, .25, 1, 2), repeat=3)]
    cases = [("l1", lambda **k: rr.l1norm(3, lagrange=.7, **k)), ("l2", lambda **k: rr.l2norm(3, lagrange=1.2, **k)),
             ("sup bound", lambda **k: rr.supnorm(3, bound=.8, **k)), ("nonneg", lambda **k: rr.nonnegative((3,), **k))]
    for (name, make), own, q, off in itertools.product(cases, ((0, 0, 0, 0), (1.5, V1, V2, 2.), (0, None, V2 / 10, 1.)),
                                                     ((1, V1, 0, 0), (2., V3, V2, 1.), (.5, None, V1, None)), (None, V2)):
        info = dict(atom=name, own=own, quadratic=q, offset=off)
        with R.guard("proximal", info):
            R.state()
            for how in ("proximal", "proximal_optimum", "solve", "solve optimum"):
                atom = make(quadratic=iq(*deepcopy(own)), offset=None if off is None else off.copy())
                Q, value = iq(*deepcopy(q)), None
                R.trans()
                if how == "proximal":
                    x = atom.proximal(Q)
                elif how == "proximal_optimum":
                    x, value = atom.proximal_optimum(Q)
                elif how == "solve":
                    x = atom.solve(Q)
                else:
                    value, x = atom.solve(Q, return_optimum=True)
                F = lambda z: atom.objective(z, check_feasibility=True) + Poly.of(*q)(z)
                shift = 0 if off is None else off
                best = min(F(g + shift) for g in grid)
                G = atom.objective(x, check_feasibility=False) + Poly.of(*q)(x)
                R.check(G <= best + 1e-6, "proximal:%s" % how, "value %r at the minimiser, but %r elsewhere" % (G, best), info)
                R.check(value is None or np.isclose(value, G, atol=1e-8), "proximal:%s:value" % how, "reported value %r, the objective is %r" % (value, G), info)
                R.check(same(Q.objective(V1, "func"), Poly.of(*q)(V1)) and same(atom.quadratic.objective(V1, "func"), Poly.of(*own)(V1)), "proximal:mutates",
                        "a quadratic was changed", info)
