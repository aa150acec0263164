from vlib.core import *
from hypothesis import strategies as st

RULE = """Cases are (two or three different groups, mixed representation expression over all of them, seed), including duals
of non-orthogonal groups, maps and sums in which the groups are interleaved.  Size, group and algebra action of a
dictionary of elements (dense, lazy, under vmap) are compared entrywise with the reference; the basis has to be
orthonormal, of the dimension of the space invariant under every group separately, and span it; the projector has to be
the orthogonal projection.  Non-trivial: base representations of at least two groups occur in the expression."""
ASSUMPTIONS = ["composition rules of vlib/ref.py with one group element per group", "groups of a case are pairwise different"]
N = {"quick": 360, "thorough": 4000}
TOL = 5e-4
POOL = [g for g in gen.REAL + gen.CUSTOM if gen.refg(g).d <= 4 and not gen.refg(g).cplx] + [["S", 5], ["SO", 5], ["Alt", 4]]
CPLX = [["U", 1], ["U", 2], ["SU", 2]]

V0, V1, V2 = ["V", 0], ["V", 1], ["V", 2]
D = lambda a: ["dual", a]
EXPRS = [["prod", V0, V1], ["prod", V1, V0], ["prod", V0, V1, V0], ["prod", D(V0), V1, V0, D(V1)],
         ["sum", V0, V1], ["sum", ["prod", V0, V1], V1, ["S"], V0, ["prod", V1, V0]], ["dual", ["prod", V0, V1]],
         [">>", ["sum", V0, V1], ["prod", V0, V1]], [">>", ["prod", V0, V1], ["prod", V1, V0]],
         ["mul", 2, ["prod", V0, V1]], ["sum", ["mul", 2, ["prod", V1, V0]], ["int", 2], ["prod", ["T", 1, 1, 0], V1]],
         ["prod", ["sum", V0, ["S"]], ["sum", V1, ["S"]]], ["dual", ["sum", ["prod", V0, V1], V0, V1]],
         ["pow", ["sum", V0, V1], 2], ["prod", ["T", 1, 1, 0], ["T", 1, 1, 1]], ["prod", V1, ["T", 1, 1, 0], D(V1)]]


def enumerated(tier):
    pairs = [(["SO", 3], ["S", 3]), (["S", 3], ["SO", 2]), (["SL", 2], ["O11"]), (["GL", 2], ["SL", 2]), (["Z", 2], ["SL", 2]),
             (["SO11p"], ["D", 3]), (["O", 2], ["Scaling", 2]), (["U", 2], ["Z", 3]), (["SO", 2], ["C", 4])]
    for i, (a, b) in enumerate(pairs):
        for j, e in enumerate(EXPRS):
            yield {"groups": [a, b], "rep": e, "seed": i + j}
    for i, e in enumerate([["prod", V0, V1, V2], ["prod", V2, V0, V1], ["prod", V1, V2, V0, V1], ["sum", ["prod", V2, V0], ["prod", V1, V2]],
                           [">>", ["prod", V2, V0], ["prod", V0, V1, V2]], D(["prod", V2, V1, V0])]):
        for gs in ([["SL", 2], ["S", 3], ["O11"]], [["Z", 2], ["SO", 2], ["GL", 2]], [["S", 2], ["Z", 2], ["O", 1]]):
            yield {"groups": gs, "rep": e, "seed": i}


@st.composite
def strategy_(draw, tier):
    k = draw(st.sampled_from([2, 2, 2, 3]))
    gs = []
    for _ in range(k):
        g = draw(gen.group(POOL, maxd=5 if k == 2 else 3).filter(lambda g: g not in gs))
        gs.append(g)
    if draw(st.integers(0, 7)) == 0:
        gs[0] = draw(st.sampled_from(CPLX))
    ds = [gen.refg(g).d for g in gs]
    cap = 72 if tier == "quick" else 200
    r = draw(gen.rep(ds, cap, depth=3, rank=2))
    if draw(st.booleans()):  # force interleaving
        i, j = draw(st.permutations(range(k)))[:2]
        n = ref.size(ref.desugar(r), ds)
        if n * ds[i] * ds[j] <= cap:
            r = ["prod", ["V", i], r, ["V", j]] if draw(st.booleans()) else ["prod", ["V", j], ["dual", ["V", i]], r]
        else:
            r = ["sum", ["prod", ["V", i], ["V", j]], r, ["V", j]]
    return {"groups": gs, "rep": r, "seed": draw(st.integers(0, 10 ** 6))}


def strategy(tier):
    return strategy_(tier)


def used(a):
    if a[0] == "V":
        return {a[1]}
    if a[0] == "T":
        return {a[3]} if a[1] + a[2] else set()
    out = set()
    for b in a[1:]:
        if isinstance(b, list):
            out |= used(b)
    return out


def run_case(case):
    import jax
    c = setup(case)
    rng = rng_of(case)
    des = ref.desugar(c.ast)
    R, n = c.R, c.n
    require(R.size() == n, f"size() is {R.size()}, expected {n}")
    ct = [np.complex64 if g.cplx else np.float32 for g in c.refs]
    batch = []
    for _ in range(2):
        e = [g.elements(rng, 1, mag=.6)[0].astype(t) for g, t in zip(c.refs, ct)]
        if max(np.abs(x).max() for x in e) > 20:
            continue
        batch.append(e)
        ed = [x.astype(complex if np.iscomplexobj(x) else float) for x in e]
        want = ref.rho(des, ed)
        M = R.rho(dict(zip(c.Gs, e)))
        require(tuple(M.shape) == (n, n), f"rho has shape {M.shape} for dimension {n}")
        require_close(dense(M), want, TOL, "dense rho of a dictionary of elements", scale=1.0)
        X = rng.standard_normal((n, 2)).astype(np.float32)
        sc = max(1.0, np.abs(want).sum(1).max())
        require_close(np.asarray(M @ X) / sc, want @ X / sc, TOL, "rho applied to a matrix", scale=1.0)
        require_close(np.asarray(M @ X[:, 0]).reshape(-1) / sc, want @ X[:, 0] / sc, TOL, "rho applied to a vector", scale=1.0)
    if batch:
        st_ = {G: np.stack([b[i] for b in batch]) for i, G in enumerate(c.Gs)}
        got = np.asarray(jax.vmap(R.rho_dense)(st_))
        for b, g in zip(batch, got if got.ndim == 3 else [got] * len(batch)):
            require_close(g, ref.rho(des, [x.astype(complex if np.iscomplexobj(x) else float) for x in b]), TOL,
                          "rho_dense of dictionaries under vmap", scale=1.0)
    As = []
    for g, t in zip(c.refs, ct):
        A = sum((z * a for z, a in zip(rng.standard_normal(len(g.lie)), g.lie)), np.zeros((g.d, g.d)))
        As.append(np.asarray(A).astype(t))
    want = ref.drho(des, [A.astype(complex if np.iscomplexobj(A) else float) for A in As])
    require_close(dense(R.drho(dict(zip(c.Gs, As)))), want, TOL, "dense drho of a dictionary of algebra elements", scale=1.0)
    B, gap = ref.invariant_basis(des, c.refs)
    if gap < 1e-5:
        raise Discard()
    QQ = R.equivariant_basis()
    Q = dense(QQ)
    require(Q.shape == (n, B.shape[1]), f"basis has shape {Q.shape}, expected {(n, B.shape[1])}")
    require_close(Q.conj().T @ Q, np.eye(Q.shape[1]), TOL, "basis is not orthonormal", scale=1.0)
    PB = B @ B.conj().T
    require_close(Q @ Q.conj().T, PB, TOL, "span of the basis", scale=1.0)
    P = R.equivariant_projector()
    require(tuple(P.shape) == (n, n), f"projector has shape {P.shape}")
    X = rng.standard_normal((n, 2)).astype(np.float32)
    require_close(np.asarray(P @ X), PB @ X, TOL, "projection of a matrix", scale=1.0)
    require_close(np.asarray(P @ X[:, 0]).reshape(-1), PB @ X[:, 0], TOL, "projection of a vector", scale=1.0)
    if Q.shape[1]:
        w = rng.standard_normal(Q.shape[1]).astype(np.float32)
        require_close(np.asarray(QQ @ w).reshape(-1), Q @ w, TOL, "basis times coefficients", scale=1.0)
    return Out(len(used(c.ast)) >= 2, "groups:%d" % len(used(c.ast)), *labels(case),
               "rank0" if B.shape[1] == 0 else "rank+", "cplx" if c.cplx else "")
