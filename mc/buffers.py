"""Call histories of one object whose arguments live in arrays the caller changes in place between the calls.

Every sequence of (call, contents of its argument) up to the depth is run on one object with one array per argument; each
answer must be the one a fresh object gives for a fresh array, answers and arguments must still be intact at the end.
An answer kept for "the same array", a returned internal buffer or an argument used as work space shows here.
"""
import itertools
import numpy as np
from scipy import sparse


def flat(r):
    """an answer as a list of arrays"""
    if r is None:
        return []
    if isinstance(r, (tuple, list)):
        return [a for p in r for a in flat(p)]
    if sparse.issparse(r):
        return [r.toarray()]
    return [np.asarray(r)]


def same(a, b, rtol, atol):
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if p.shape != q.shape:
            return False
        if p.dtype == object or p.dtype.kind in "US":
            if not np.array_equal(p, q):
                return False
        elif not np.all((p == q) | (np.abs(p - q) <= atol + rtol * np.abs(q)) | (np.isnan(p) & np.isnan(q))):
            return False
    return True


def explore(R, key, make, calls, args, info=None, depth=2, rtol=1e-9, atol=1e-9, fresh=True):
    """calls: [(name, argument name, function(object, array))], args: {argument name: [arrays of one shape]}"""
    steps = [(c, j) for c in calls for j in range(len(args[c[1]]))]
    want = {}
    with R.guard(key, info):
        for c, j in steps:
            r = c[2](make(), args[c[1]][j].copy())
            want[c[0], j] = [np.array(a) for a in flat(r)]
            R.trans()
    if len(want) < len(steps):
        return
    obj = make()
    for seq in itertools.product(steps, repeat=depth):
        if fresh:
            obj = make()
        buf = {k: np.array(v[0]) for k, v in args.items()}
        kept = []
        label = lambda: dict(info or {}, history=["%s(%s := %s)" % (c[0], c[1], args[c[1]][j].tolist()) for c, j in seq])
        with R.guard(key + ":history", label):
            for c, j in seq:
                b = buf[c[1]]
                b[...] = args[c[1]][j]
                got = flat(c[2](obj, b))
                ok = same(got, want[c[0], j], rtol, atol)
                R.check(ok, key + ":history", lambda: "%s gives %s after this history, a fresh object gives %s"
                        % (c[0], [a.tolist() for a in got], [a.tolist() for a in want[c[0], j]]), label)
                R.check(np.array_equal(b, args[c[1]][j]), key + ":mutates", "%s changed its argument" % c[0], label)
                kept.append((c, j, got, b))
                R.trans()
            for c, j, got, b in kept:
                if any(np.shares_memory(a, b) for a in got):
                    continue                    # the argument itself handed back: its contents are the caller's
                R.check(same(got, want[c[0], j], rtol, atol), key + ":overwritten", "the answer of %s was overwritten by a later call" % c[0], label)
        R.trace()
    R.state(len(steps) ** depth)
