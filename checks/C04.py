from vlib.core import *
from hypothesis import strategies as st

RULE = """Cases are (group, representation expression, element seed, kind of element).  The matrix the library assigns to a
group element is compared entrywise with an independent float64 evaluation of the expression (block diagonal in written
order, Kronecker product in written order, inverse transpose), densely, applied to vectors and matrices, under vmap, and
for the group's own lazily represented generators.  Non-trivial: at least two tensor factors or summands and an element
different from the identity; distinct by case."""
ASSUMPTIONS = ["the composition rules in vlib/ref.py (rho) are the intended meaning of the expressions",
               "group elements are handed over as float32/complex64 arrays"]
N = {"quick": 560, "thorough": 6000}
TOL = 3e-4


def enumerated(tier):
    for g in gen.ALLBIG:
        d = gen.refg(g).d
        yield {"group": g, "rep": ["sum", ["V"], ["dual", ["V"]], ["S"]], "seed": 0, "el": "random"}
        yield {"group": g, "rep": ["V"], "seed": 0, "el": "gens"}
        if d <= 9:
            yield {"group": g, "rep": ["T", 1, 1], "seed": 0, "el": "gens"}
        if d <= 5:
            yield {"group": g, "rep": ["sum", ["T", 1, 2], ["V"], ["T", 2, 0], ["S"]], "seed": 0, "el": "gens"}
            yield {"group": g, "rep": ["prod", ["sum", ["V"], ["S"]], ["sum", ["dual", ["V"]], ["V"], ["int", 2]]],
                   "seed": 0, "el": "samples"}


def strategy(tier):
    return st.builds(lambda c, s, e: dict(c, seed=s, el=e), gen.group_rep(cap=72 if tier == "quick" else 250),
                     st.integers(0, 10 ** 6), st.sampled_from(["random", "random", "samples", "gens"]))


def run_case(case):
    import jax
    c = setup(case)
    rng = rng_of(case)
    require(c.R.size() == c.n, f"size() is {c.R.size()}, expected {c.n}")
    asts = ref.desugar(c.ast)
    G = c.Gs[0]
    pairs = []  # (what to hand to the library, dense float64 matrix)
    ct, cf = (np.complex64, np.complex128) if c.cplx else (np.float32, np.float64)
    if case["el"] == "gens":
        for h in list(G.discrete_generators)[:4]:
            pairs.append((h, np.asarray(dense(h), dtype=cf)))
    elif case["el"] == "samples":
        for s in np.asarray(G.samples(2)):
            pairs.append((s, s.astype(cf)))
    if not pairs:
        for g in c.refs[0].elements(rng, 2, mag=.7):
            pairs.append((g.astype(ct), g.astype(ct).astype(cf)))
    nontriv = gen.leaves(c.ast) >= 2 and any(np.abs(g - np.eye(c.ds[0])).max() > 1e-3 for _, g in pairs)
    for g, gd in pairs:
        if np.max(np.abs(gd)) > 50 or np.linalg.cond(gd) > 1e4:
            continue
        want = ref.rho(asts, [gd])
        M = c.R.rho(g)
        require(tuple(M.shape) == (c.n, c.n), f"rho(g) has shape {M.shape} for dimension {c.n}")
        require_close(dense(M), want, TOL, "dense rho(g)", scale=1.0)
        require_close(np.asarray(c.R.rho_dense(g)), want, TOL, "rho_dense(g)", scale=1.0)
        X = rng.standard_normal((c.n, 3)).astype(np.float32)
        sc = max(1.0, np.abs(want).sum(1).max())
        require_close(np.asarray(M @ X) / sc, want @ X / sc, TOL, "rho(g) applied to a matrix", scale=1.0)
        require_close(np.asarray(M @ X[:, 0]) / sc, want @ X[:, 0] / sc, TOL, "rho(g) applied to a vector", scale=1.0)
    arr = [np.asarray(gd).astype(ct) for _, gd in pairs if np.max(np.abs(gd)) <= 50 and np.linalg.cond(gd) <= 1e4]
    if arr:
        batch = np.asarray(jax.vmap(c.R.rho_dense)(np.stack(arr)))
        if batch.ndim == 2:
            batch = batch[None]
        for b, g in zip(batch, arr):
            require_close(b, ref.rho(asts, [g.astype(cf)]), TOL, "rho_dense under vmap", scale=1.0)
    return Out(nontriv, *labels(case), "el:" + case["el"])
