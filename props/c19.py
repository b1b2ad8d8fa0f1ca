"""Sampling of normals given by natural parameters."""
import lab as B
import numpy as np
from gpcm.normal import NaturalNormal
from symx.explore import Harness
from symx.patch import SymState
from props.c17 import precision


def drawn(c, q, num, values, start=0, glob=False, stream="a"):
    """A sample with given standard-normal draws, and how many draws it took."""
    seen = []

    def fix(kind, stream_, k):
        seen.append((kind, stream_, k))
        return values.get(k - start, 0.0)
    c.draws = fix
    try:
        if glob:
            c.global_state.set_state(("sym", "g", start))
            s = q.sample(num) if num != 1 else q.sample()
            end = c.global_state
        else:
            st = SymState(stream=stream)
            st.count = start
            end, s = q.sample(st, num) if num != 1 else q.sample(st)
    finally:
        c.draws = None
    return B.dense(s), seen, end


def distribution(c, n, num, how, glob):
    prec, P, L = precision(c, "l", n, how)
    m = c.mat("m", n, 1)
    q = NaturalNormal(P @ m, prec)
    s0, seen, end = drawn(c, q, num, {}, glob=glob)
    c.true("shape", np.shape(s0) == (n, num))
    c.true("standard-normal draws only", all(k == "n" for k, _, _ in seen))
    K = len(seen)
    c.true("draws in order", [k for _, _, k in seen] == list(range(K)))
    c.eq("mean", s0, m + c.const(np.zeros((n, num))))
    cols = []
    for k in range(K):
        sk, again, _ = drawn(c, q, num, {k: 1.0}, glob=glob)
        c.true("as many draws", len(again) == K)
        cols.append(sk - s0)
    one = c.const(np.eye(n))
    # the covariance of the columns: P times it is the identity (same column) or zero
    for i in range(num):
        for j in range(i + 1):
            cov = 0
            for D in cols:
                cov = cov + D[:, i:i + 1] @ D[:, j:j + 1].T
            c.eq(f"covariance of samples {i} and {j}", P @ cov, one if i == j else 0 * one)
    # linear in the draws, and deterministic
    z = {k: 0.5 * (k + 1) * (-1) ** k for k in range(K)}
    want = s0
    for k in range(K):
        want = want + z[k] * cols[k]
    c.eq("linear in the draws", drawn(c, q, num, z, glob=glob)[0], want)
    c.eq("determined by the state", drawn(c, q, num, z, glob=glob)[0], want)


def threading(c, n, how):
    """The state that comes back continues the stream; the given state determines the sample."""
    prec, P, L = precision(c, "l", n, how)
    m = c.mat("m", n, 1)
    q = NaturalNormal(P @ m, prec)
    a, seen, end = drawn(c, q, 2, {0: 1.0, 1: -2.0, 2: 0.5})
    K = len(seen)
    c.true("the returned state is the advanced one", (end.stream, end.count) == ("a", K))
    b, seen_b, end_b = drawn(c, q, 2, {0: 1.0, 1: -2.0, 2: 0.5}, start=K)
    c.true("the next draws are new", [k for _, _, k in seen_b] == list(range(K, 2 * K)) and end_b.count == 2 * K)
    c.eq("equal draws give equal samples", a, b)
    # global state
    g, seen_g, end_g = drawn(c, q, 2, {0: 1.0, 1: -2.0, 2: 0.5}, start=5, glob=True)
    c.true("the global state is used and advanced", {s for _, s, _ in seen_g} == {"g"} and end_g.count == 5 + K)
    c.eq("the same map of the draws", g, a)
    c.true("a state leaves the global one alone", len(drawn(c, q, 2, {})[1]) == K and c.global_state.count == 5 + K)
    # one draw after another from the global state
    seen_g = []

    def fix(kind, stream, k):
        seen_g.append((stream, k))
        return 0.5
    for nums in ((1, 1, 1), (2, 1, 3), (1, 2)):
        c.global_state.set_state(("sym", "g", 7))
        del seen_g[:]
        c.draws = fix
        for k in nums:
            q.sample(k) if k > 1 else q.sample()
        c.draws = None
        c.true("successive draws from the global state are new", seen_g == [("g", 7 + j) for j in range(n * sum(nums))])
        c.true("the global state ends after them", c.global_state.count == 7 + n * sum(nums))
    c.global_state.set_state(("sym", "g", 5 + K))
    # single sample by default
    c.true("one sample by default", np.shape(drawn(c, q, 1, {})[0]) == (n, 1))
    # the distribution itself is left alone
    c.eq("mean is left alone", B.dense(q.mean), m)


_b = "dimension one to three, one to three samples, general precision by its Cholesky factor"
_q = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3)]
HARNESSES = [
    Harness(distribution, [dict(n=n, num=k, how=h, glob=g) for n, k in _q for h, g in (("dense", False), ("diag", False), ("array", True))] +
            [dict(n=3, num=1, how="dense", glob=False), dict(n=3, num=2, how="diag", glob=False)],
            [dict(n=3, num=2, how="dense", glob=False), dict(n=3, num=3, how="dense", glob=True)], bounds=_b),
    Harness(threading, [dict(n=n, how=h) for n in (1, 2) for h in ("dense", "diag")], bounds=_b),
]
