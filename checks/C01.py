import itertools
from vlib.core import *
from hypothesis import strategies as st

RULE = """Cases are (group, representation expression, element seed): every built-in group family with enumerated small
tensors plus random expressions of sums, products, powers, duals, multiples and maps.  Non-trivial: the group has a
generator, the solution space is neither empty nor everything, and the expression has at least two tensor factors or
summands; distinct by the whole case."""
ASSUMPTIONS = ["groups and group actions of the oracle are the float64 model in vlib/ref.py",
               "float32 arithmetic: residuals up to 3e-4 of the scale of the operator are rounding"]
N = {"quick": 480, "thorough": 6000}
TOL = 3e-4


def enumerated(tier):
    for g in gen.ALLBIG:
        d = gen.refg(g).d
        yield {"group": g, "rep": ["V"], "seed": 0}
        if d <= 10:
            yield {"group": g, "rep": [">>", ["V"], ["V"]], "seed": 0}
        if d <= 4 or (d <= 6 and tier != "quick"):
            yield {"group": g, "rep": ["sum", ["T", 2, 1], ["S"], ["dual", ["V"]], ["T", 1, 1], ["V"]], "seed": 1}
    for g in ([["SO", 3], ["O", 3], ["S", 3], ["D", 4], ["SO11p"], ["SL", 2], ["SU", 2], ["Z", 3]]):
        yield {"group": g, "rep": ["T", 2, 2], "seed": 0}
        yield {"group": g, "rep": ["T", 4, 0], "seed": 0}
    yield {"group": ["Cube"], "rep": ["T", 4, 0], "seed": 0}
    V, D = ["V"], ["dual", ["V"]]
    for g in (["GL", 2], ["SL", 2], ["SO11p"]):  # orders of factors and summands that are not undone by themselves
        for w in itertools.product((V, D), repeat=4):
            if sorted(w) not in (list(w), list(w)[::-1]):
                yield {"group": g, "rep": ["prod", *w], "seed": 3}
        yield {"group": g, "rep": ["sum", D, ["prod", D, V, V], V, ["T", 2, 0], ["S"], ["prod", D, V, D], V], "seed": 4}
        yield {"group": g, "rep": ["prod", ["sum", D, V, ["S"]], ["sum", V, D], V], "seed": 5}
    for g in gen.CUSTOM:
        yield {"group": g, "rep": ["V"], "seed": 0}
        yield {"group": g, "rep": ["sum", ["T", 1, 1], ["T", 2, 0], ["V"]], "seed": 0}


def strategy(tier):
    return st.builds(lambda c, s: dict(c, seed=s), gen.group_rep(cap=64 if tier == "quick" else 216),
                     st.integers(0, 10 ** 6))


def run_case(case):
    c = setup(case)
    rng = rng_of(case)
    Q = dense(c.R.equivariant_basis())
    require(Q.ndim == 2 and Q.shape[0] == c.n, f"basis of a {c.n}-dimensional representation has shape {Q.shape}")
    require(np.isfinite(Q).all(), "basis is not finite")
    P = c.R.equivariant_projector()
    require(tuple(P.shape) == (c.n, c.n), f"projector of a {c.n}-dimensional representation has shape {P.shape}")
    v = rng.standard_normal((c.n, 2)).astype(np.float32)
    Pv = np.stack([np.asarray(P @ v[:, 0]), np.asarray(P @ v[:, 1])], -1)
    Pm = np.asarray(P @ v)
    require_close(Pv, Pm, TOL, "projector on vectors and on a matrix of columns disagree", scale=1.0)
    coef = rng.standard_normal((Q.shape[1], 2)).astype(np.float32)
    Qc = np.asarray(c.R.equivariant_basis() @ coef) if Q.shape[1] else np.zeros((c.n, 2))
    require_close(Qc, Q @ coef, TOL, "applying the basis to coefficients", scale=1.0)
    asts = ref.desugar(c.ast)
    for X, what in ((Q, "basis vector"), (Pm, "projected vector"), (Qc, "combination of basis vectors")):
        if X.size == 0:
            continue
        s = max(1.0, np.max(np.abs(X)))
        for C in ref.constraints(asts, c.refs):
            r = np.max(np.abs(C @ X)) / (s * max(1.0, np.abs(C).sum(1).max()))
            require(r <= TOL, f"{what} is moved by a generator of the group: residual {r:.3g}")
    # arbitrary elements: products of exponentials and of discrete generators, and the library's own samples
    els = [[g] for g in c.refs[0].elements(rng, 2, mag=.8)] if len(c.refs) == 1 else \
        [list(e) for e in zip(*[g.elements(rng, 2, mag=.8) for g in c.refs])]
    samp = [np.asarray(G.samples(1))[0] for G in c.Gs]
    if all(np.max(np.abs(s)) < 30 for s in samp):
        els.append([s.astype(np.complex128 if c.cplx else np.float64) for s in samp])
    for e in els:
        rho = ref.rho(asts, e)
        s = max(1.0, np.abs(rho).sum(1).max())
        for X, what in ((Q, "basis vector"), (Pm, "projected vector")):
            if X.size:
                r = np.max(np.abs(rho @ X - X)) / (s * max(1.0, np.max(np.abs(X))))
                require(r <= TOL, f"{what} is moved by a group element: residual {r:.3g}")
    nontrivial = (c.refs[0].lie or c.refs[0].disc) and 0 < Q.shape[1] < c.n and gen.leaves(c.ast) >= 2
    return Out(nontrivial, *labels(case), "size:%d" % (1 << c.n.bit_length()), "rank0" if Q.shape[1] == 0 else "rank+")
