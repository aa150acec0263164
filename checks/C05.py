from vlib.core import *
from hypothesis import strategies as st
from scipy.linalg import expm

RULE = """Cases are (group, representation expression, seed).  For every Lie algebra generator of the group and for random
combinations of them, the library's Lie algebra action is compared with an independent float64 evaluation (block
diagonal, Kronecker sum, minus transpose), applied to vectors and matrices, and exponentiated: exp(t drho(A)) has to be
the group action of exp(tA).  Non-trivial: at least two factors or summands and a group with a continuous part; distinct
by case."""
ASSUMPTIONS = ["the composition rules in vlib/ref.py (drho) are the intended meaning of the expressions"]
N = {"quick": 480, "thorough": 5000}
TOL = 3e-4
POOL = [g for g in gen.ALLBIG + gen.CUSTOM if gen.refg(g).lie] + [["S", 3], ["Z", 3]]


def enumerated(tier):
    for g in POOL:
        d = gen.refg(g).d
        yield {"group": g, "rep": ["sum", ["dual", ["V"]], ["V"], ["int", 2]], "seed": 0}
        if d <= 8:
            yield {"group": g, "rep": ["T", 1, 1], "seed": 0}
        if d <= 4:
            yield {"group": g, "rep": ["T", 1, 2], "seed": 0}
            yield {"group": g, "rep": ["prod", ["sum", ["V"], ["S"]], ["sum", ["dual", ["V"]], ["T", 2, 0]]], "seed": 0}


def strategy(tier):
    return st.builds(lambda c, s: dict(c, seed=s), gen.group_rep(cap=72 if tier == "quick" else 250, pool=POOL),
                     st.integers(0, 10 ** 6))


def run_case(case):
    c = setup(case)
    rng = rng_of(case)
    G, rg = c.Gs[0], c.refs[0]
    asts = ref.desugar(c.ast)
    ct, cf = (np.complex64, np.complex128) if c.cplx else (np.float32, np.float64)
    As = []
    own = list(G.lie_algebra)
    require(len(own) > 0 or not rg.lie, "the group has lost its Lie algebra")
    for i in rng.permutation(len(own))[:3]:
        As.append((own[int(i)], np.asarray(dense(own[int(i)]), dtype=cf)))
    if rg.lie:
        for _ in range(2):
            A = sum(z * a for z, a in zip(rng.standard_normal(len(rg.lie)) / np.sqrt(len(rg.lie)), rg.lie))
            A = np.asarray(A).astype(ct)
            As.append((A, A.astype(cf)))
    As.append((np.zeros((rg.d, rg.d), ct), np.zeros((rg.d, rg.d))))
    for A, Ad in As:
        want = ref.drho(asts, [Ad])
        M = c.R.drho(A)
        require(tuple(M.shape) == (c.n, c.n), f"drho(A) has shape {M.shape} for dimension {c.n}")
        D = dense(M)
        require_close(D, want, TOL, "dense drho(A)", scale=1.0)
        require_close(np.asarray(c.R.drho_dense(A)), want, TOL, "drho_dense(A)", scale=1.0)
        X = rng.standard_normal((c.n, 2)).astype(np.float32)
        sc = max(1.0, np.abs(want).sum(1).max())
        require_close(np.asarray(M @ X) / sc, want @ X / sc, TOL, "drho(A) applied to a matrix", scale=1.0)
        require_close(np.asarray(M @ X[:, 0]) / sc, want @ X[:, 0] / sc, TOL, "drho(A) applied to a vector", scale=1.0)
        t = .5
        g = expm(t * Ad)
        rho = dense(c.R.rho(np.asarray(g, dtype=ct)))
        require_close(rho, expm(t * D.astype(cf)), 1e-3, "rho(exp(tA)) is not exp(t drho(A))", scale=1.0)
    return Out(gen.leaves(c.ast) >= 2 and bool(rg.lie), *labels(case))
