"""Reference losses of one linear predictor per case: value, derivative and (expected) second derivative, in stable form."""
import numpy as np
from scipy.special import log_ndtr

# Values explored as linear predictors
ETA = np.array([-150., -25., -7., -3., -1., -0.25, 0., 0.5, 1., 2., 4., 9., 30., 200.])


def softplus(x):
    return np.maximum(x, 0) + np.log1p(np.exp(-np.abs(x)))


def expit(x):
    return np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))))


class Family(object):
    """f, g, h: value, first derivative, second derivative (None where undefined) per case"""

    def __init__(self, name, responses, f, g, h, mean, eta=ETA, extra=()):
        self.name, self.responses, self.f, self.g, self.h, self.mean, self.eta, self.extra = name, responses, f, g, h, mean, eta, extra

    # builders: saturated loss and glm
    def saturated(self, resp, **kw):
        import regreg.smooth.glm as G
        n = (len(resp[0]),)
        a = [np.array(v) if not np.isscalar(v) else v for v in resp]
        if self.name in ("logistic", "probit", "cloglog"):
            return getattr(G, self.name + "_loglike")(n, a[0], trials=None if resp[1] is None else a[1], **kw)
        if self.name == "huber":
            return G.huber_loss(n, a[0], resp[1], **kw)
        if self.name == "huber_svm":
            return G.huber_svm(n, a[0], resp[1], **kw)
        return getattr(G, self.name + "_loglike")(n, a[0], **kw)

    def glm(self, X, resp, **kw):
        from regreg.smooth.glm import glm
        a = [np.array(v) if not np.isscalar(v) else v for v in resp]
        if self.name in ("logistic", "probit", "cloglog"):
            return getattr(glm, self.name)(X, a[0], trials=None if resp[1] is None else a[1], **kw)
        if self.name in ("huber", "huber_svm"):
            return getattr(glm, self.name)(X, a[0], resp[1], **kw)
        return getattr(glm, self.name)(X, a[0], **kw)


def _phi_ratio(x):                      # pdf(x) / cdf(x)
    return np.exp(-x * x / 2. - log_ndtr(x)) / np.sqrt(2 * np.pi)


def _trials(r):
    return np.ones(len(r[0])) if r[1] is None else np.asarray(r[1], float)


def _logprob(x):                        # log(1 - exp(-e^x))
    e = np.exp(np.minimum(x, 50))
    return np.where(x < -30, x, np.log(-np.expm1(-e)))


def _cll_ratio(x):                      # density over probability: e^x e^{-e^x} / (1 - e^{-e^x})
    e = np.exp(np.minimum(x, 50))
    return np.where(x < -30, 1., np.exp(np.minimum(x, 50) - e) / np.where(x < -30, 1, -np.expm1(-e)))


def families():
    A = np.asarray
    binary = [([0., 1., 1.], None), ([1, 0, 0], None), ([2., 0., 5.], [4., 3., 5.]), ([0, 3, 1], [2, 3, 4])]
    e = lambda x: np.exp(np.minimum(x, 500))
    huber = lambda z, eps: np.where(np.abs(z) <= eps, z * z / (2 * eps), np.abs(z) - eps / 2.)
    hinge = lambda z, eps: np.where(z >= 1, 0, np.where(z <= 1 - eps, 1 - z - eps / 2., (1 - z) ** 2 / (2 * eps)))
    dhinge = lambda z, eps: -np.clip((1 - z) / eps, 0, 1)
    return [
        Family("gaussian", [([1., -2., 0.5],), ([0, 3, -1],)], lambda x, r: (x - A(r[0])) ** 2 / 2., lambda x, r: x - A(r[0]), lambda x, r: np.ones_like(x),
               lambda x: x),
        Family("logistic", binary, lambda x, r: _trials(r) * softplus(x) - A(r[0]) * x, lambda x, r: _trials(r) * expit(x) - A(r[0]),
               lambda x, r: _trials(r) * expit(x) * expit(-x), expit),
        Family("probit", binary, lambda x, r: -A(r[0]) * log_ndtr(x) - (_trials(r) - A(r[0])) * log_ndtr(-x),
               lambda x, r: -A(r[0]) * _phi_ratio(x) + (_trials(r) - A(r[0])) * _phi_ratio(-x),
               lambda x, r: _trials(r) * _phi_ratio(x) * _phi_ratio(-x), lambda x: np.exp(log_ndtr(x))),
        Family("cloglog", binary, lambda x, r: -A(r[0]) * _logprob(x) + (_trials(r) - A(r[0])) * e(x),
               lambda x, r: -A(r[0]) * _cll_ratio(x) + (_trials(r) - A(r[0])) * e(x),
               lambda x, r: _trials(r) * _cll_ratio(x) * e(x), lambda x: -np.expm1(-e(x)), eta=np.minimum(ETA, 9.)),
        Family("poisson", [([1., 0., 4.],), ([0, 2, 1],)], lambda x, r: e(x) - A(r[0]) * x, lambda x, r: e(x) - A(r[0]), lambda x, r: e(x), e,
               eta=np.minimum(ETA, 30.)),
        Family("huber", [([1., -2., 0.5], .5), ([0, 3, -1], 2.), ([1., -2., 0.5], 1)], lambda x, r: huber(x - A(r[0]), r[1]),
               lambda x, r: np.clip((x - A(r[0])) / r[1], -1, 1), None, None),
        Family("huber_svm", [([0., 1., 1.], .5), ([1, 0, 0], 2.), ([1, 0, 1], 1)], lambda x, r: hinge((2 * A(r[0]) - 1) * x, r[1]),
               lambda x, r: (2 * A(r[0]) - 1) * dhinge((2 * A(r[0]) - 1) * x, r[1]), None, None),
    ]
