from vlib.core import *
from vlib import xreps, nets
from hypothesis import strategies as st

RULE = """Cases are (framework, one or two groups, input and output expression, batch shape, seed).  The layer's parameters
are overwritten with random values; the matrix and offset of the layer, read off from its outputs, are compared with the
exact orthogonal projections of the parameters onto the equivariant matrices and invariant vectors (float64 reference);
outputs on batches of any shape, under jit and on transformed inputs are compared with that affine map and its
equivariance.  Non-trivial: the space of equivariant maps is neither zero nor everything."""
ASSUMPTIONS = ["weight is stored as (outputs, inputs)", "real groups"]
N = {"quick": 110, "thorough": 3000}
TOL = 5e-4
POOL = [g for g in gen.REAL + gen.ALT + gen.CUSTOM if gen.refg(g).d <= 6 and not gen.refg(g).cplx]
CAP = {"quick": 14, "thorough": 24}
BATCH = [[], [1], [3], [2, 3], [0], [5]]


def enumerated(tier):
    i = 0
    V = ["V"]
    pairs = [(["sum", V, ["S"]], ["sum", ["S"], V, V]), (["T", 1, 1], ["sum", V, ["dual", V]]), (["sum", ["mul", 2, V], ["int", 2]], ["T", 2, 0])]
    for fw in nets.FRAMEWORKS:
        for g in [["SO", 3], ["S", 3], ["SL", 2], ["O11"], ["Z", 4], ["Trivial", 2], ["DkeR3", 3], ["GL", 2], ["D", 3]]:
            a, b = pairs[i % 3]
            yield {"fw": fw, "groups": [g], "rin": a, "rout": b, "batch": BATCH[i % 6], "seed": i}
            i += 1
        for gs in [[["SO", 2], ["S", 3]], [["SL", 2], ["Z", 2]]]:
            yield {"fw": fw, "groups": gs, "rin": ["sum", ["prod", ["V", 1], ["V", 0]], ["V", 0]], "rout": ["sum", ["V", 0], ["prod", ["V", 0], ["V", 1]]],
                   "batch": BATCH[i % 6], "seed": i}
            i += 1


@st.composite
def strategy_(draw, tier):
    cap = CAP[tier]
    if draw(st.integers(0, 4)) == 0:
        gs = [draw(gen.group(POOL, maxd=3)), draw(gen.group(POOL, maxd=3))]
        if gs[0] == gs[1]:
            gs = gs[:1]
    else:
        gs = [draw(st.one_of(gen.group(POOL), gen.group(POOL), gen.custom(3).filter(lambda g: not gen.refg(g).cplx)))]
    rs = [gen.refg(g) for g in gs]
    ds = [r.d for r in rs]
    extra = [["X", n] for n in xreps.names(rs[0])] if len(gs) == 1 else ()
    c = max(cap, *ds)
    rin, rout = draw(gen.rep(ds, c, depth=3, rank=2, extra=extra)), draw(gen.rep(ds, c, depth=3, rank=2, extra=extra))
    return {"fw": draw(st.sampled_from(nets.FRAMEWORKS)), "groups": gs, "rin": rin, "rout": rout,
            "batch": draw(st.sampled_from(BATCH)), "seed": draw(st.integers(0, 10 ** 6))}


def strategy(tier):
    return strategy_(tier)


def run_case(case):
    rng = rng_of(case)
    refs = [gen.refg(s) for s in case["groups"]]
    Gs = [make_group(s) for s in case["groups"]]
    ds = [r.d for r in refs]
    ain, aout = ref.desugar(case["rin"]), ref.desugar(case["rout"])
    nin, nout = ref.size(ain, ds), ref.size(aout, ds)
    rin, rout = make_rep(case["rin"], Gs), make_rep(case["rout"], Gs)
    if isinstance(rin, int) or isinstance(rout, int) or nin == 0 or nout == 0:
        raise Discard()
    BW, gap = ref.invariant_basis(["prod", aout, ["dual", ain]], refs)
    Bb, gap2 = ref.invariant_basis(aout, refs)
    if min(gap, gap2) < 1e-5:
        raise Discard()
    L = nets.linear(case["fw"], rin, rout)
    require(L.shapes() == {(0, "w"): (nout, nin), (0, "b"): (nout,)}, f"parameters {L.shapes()} for a layer {nin} -> {nout}")
    vals = L.randomize(rng, 2.0)
    w, b = vals[(0, "w")].astype(float), vals[(0, "b")].astype(float)
    W = (BW @ (BW.T @ w.reshape(-1))).reshape(nout, nin)
    c = Bb @ (Bb.T @ b)
    y0 = L(np.zeros(nin))
    require_close(y0, c, TOL, "offset of the layer is not the invariant part of its bias", scale=1.0)
    rows = L(np.eye(nin)) - y0
    require_close(rows.T, W, TOL, "matrix of the layer is not the equivariant part of its weight", scale=1.0)
    bs = case["batch"]
    x = rng.standard_normal(bs + [nin]).astype(np.float32)
    y = L(x)
    require(y.shape == tuple(bs) + (nout,), f"input of shape {x.shape} gives output of shape {y.shape}")
    require_close(y, x @ W.T + c, TOL, "output on a batch", scale=1.0)
    if case["fw"] != "torch":
        import jax
        require_close(np.asarray(jax.jit(L.raw())(x)), x @ W.T + c, TOL, "output under jit", scale=1.0)
    gs = [r.elements(rng, 1, .5)[0] for r in refs]
    if all(np.abs(g).max() < 10 for g in gs):
        r1, r2 = ref.rho(ain, gs), ref.rho(aout, gs)
        x = rng.standard_normal(nin)
        ya, yb = L(r1 @ x), r2 @ L(x)
        sc = max(1.0, np.abs(r1).sum(1).max(), np.abs(r2).sum(1).max()) * max(1.0, np.abs(W).sum(1).max())
        require_close(ya / sc, yb / sc, TOL, "layer does not commute with the group", scale=1.0)
    # the initial parameters of a fresh layer have to be usable as well
    r = BW.shape[1]
    return Out(0 < r < nin * nout, "fw:" + case["fw"], "groups:%d" % len(Gs), *["grp:" + s[0] for s in case["groups"]],
               "bias" if Bb.shape[1] else "nobias", "batch:%d" % len(bs), "rank0" if r == 0 else "")
