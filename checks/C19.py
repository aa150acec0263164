from vlib.core import *
from vlib import xreps, nets
from hypothesis import strategies as st

RULE = """Cases are (framework, group, input and output expression, batch shape, seed); the layer's coefficients are
overwritten with random values.  The layer has to be equivariant, homogeneous of degree two in its input, linear in its
coefficients, with no coefficient without effect; the matrix W(x) produced by bilinear_weights transforms as the
representation of maps and is linear in x and in the coefficients; outputs on a batch are the outputs of its members.  The number of coefficients has to be the number the construction promises: for every
irreducible summand r of the space of maps that occurs (m times there and n times in the input, scalars excepted),
m*min(n, dim r).  Non-trivial: at least one coefficient."""
ASSUMPTIONS = ["real groups; one group per case", "the canonical summands of a reference expression are found by expanding sums and products"]
N = {"quick": 170, "thorough": 2500}
TOL = 5e-4
POOL = [g for g in gen.REAL + gen.ALT + gen.CUSTOM if gen.refg(g).d <= 5 and not gen.refg(g).cplx]
BATCH = [[], [1], [3], [2, 2], [4]]


def enumerated(tier):
    V, S = ["V"], ["S"]
    pairs = [(["sum", V, S], ["sum", S, V, V]), (["sum", ["T", 1, 1], V], V), (["sum", ["mul", 3, V], ["T", 2, 0], ["int", 2]], ["sum", V, ["T", 2, 0], S]),
             (V, V), (["T", 2, 0], ["sum", V, S]), (["sum", ["dual", V], V], ["sum", ["dual", V], S]), (S, V), (["sum", V, ["T", 0, 2]], ["T", 1, 1])]
    i = 0
    for g in [["SO", 3], ["S", 3], ["SL", 2], ["O11"], ["Z", 4], ["Trivial", 2], ["DkeR3", 3], ["GL", 2], ["D", 3], ["O", 2]]:
        for a, b in pairs[i % 2::2]:
            yield {"fw": nets.FRAMEWORKS[i % 4], "group": g, "rin": a, "rout": b, "batch": BATCH[i % 5], "seed": i}
            i += 1
        i += 1


@st.composite
def strategy_(draw, tier):
    g = draw(st.one_of(gen.group(POOL), gen.custom(3).filter(lambda g: not gen.refg(g).cplx)))
    rg = gen.refg(g)
    extra = [["X", n] for n in xreps.names(rg)]
    c = max(13 if tier == "quick" else 20, rg.d)
    rin, rout = draw(gen.rep([rg.d], c, depth=3, rank=2, extra=extra)), draw(gen.rep([rg.d], c, depth=3, rank=2, extra=extra))
    if draw(st.booleans()):
        rin = ["sum", rin, ["V"]] if draw(st.booleans()) else ["sum", ["V"], rin]
    if draw(st.booleans()):
        rout = ["sum", rout, ["S"], ["V"]]
    return {"fw": draw(st.sampled_from(nets.FRAMEWORKS)), "group": g, "rin": rin, "rout": rout,
            "batch": draw(st.sampled_from(BATCH)), "seed": draw(st.integers(0, 10 ** 6))}


def strategy(tier):
    return strategy_(tier)


def summands(ast, orth):
    """Multiset of monomials (sorted tuples of factors) of the expanded expression."""
    t = ast[0]
    if t == "V":
        return {(("V", 0),): 1}
    if t == "X":
        return {(("X", ast[1], 0),): 1}
    if t == "S":
        return {(): 1}
    if t == "dual":
        flip = lambda f: f if orth else f[:-1] + (1 - f[-1],)
        return {tuple(sorted(map(flip, k))): v for k, v in summands(ast[1], orth).items()}
    out = {}
    if t == "sum":
        for a in ast[1:]:
            for k, v in summands(a, orth).items():
                out[k] = out.get(k, 0) + v
        return out
    out = {(): 1}
    for a in ast[1:]:
        new = {}
        for k, v in summands(a, orth).items():
            for k2, v2 in out.items():
                key = tuple(sorted(k + k2))
                new[key] = new.get(key, 0) + v * v2
        out = new
    return out


def run_case(case):
    from emlp.reps import bilinear_weights
    import jax
    rng = rng_of(case)
    rg = gen.refg(case["group"])
    G = make_group(case["group"])
    ain, aout = ref.desugar(case["rin"]), ref.desugar(case["rout"])
    nin, nout = ref.size(ain, [rg.d]), ref.size(aout, [rg.d])
    rin, rout = make_rep(case["rin"], [G]), make_rep(case["rout"], [G])
    if isinstance(rin, int) or isinstance(rout, int) or nin == 0 or nout == 0:
        raise Discard()
    size = lambda mono: int(np.prod([rg.d if f[0] == "V" else ref.size(["X", f[1]], [rg.d]) for f in mono])) if mono else 1
    W_s, x_s = summands(["prod", aout, ["dual", ain]], rg.orthogonal), summands(ain, rg.orthogonal)
    want = sum(W_s.get(k, 0) * min(n, size(k)) for k, n in x_s.items() if k != ())
    nw, f = bilinear_weights(rout, rin)
    require(int(nw) == want, f"{nw} coefficients, expected {want} (summands of the maps {W_s}, of the input {x_s})")
    L = nets.bilinear(case["fw"], rin, rout)
    require(L.shapes() == {(0, "bi"): (want,)}, f"parameters {L.shapes()}, expected {want} coefficients")
    x = rng.standard_normal(nin).astype(np.float32)
    w = rng.standard_normal(want).astype(np.float32)
    W = np.asarray(f(w, x))
    require(W.shape == (nout, nin), f"weights have shape {W.shape} for a map {nin} -> {nout}")
    sc = max(1.0, np.abs(x).max()) * 10
    for s in range(want):  # linear in the coefficients, none of them dead
        e = np.zeros(want, np.float32)
        e[s] = 1
        if s < 6 or s == want - 1:
            xs = rng.standard_normal((3, nin)).astype(np.float32)
            require(np.abs(np.asarray(f(e, xs))).max() > 1e-6, f"coefficient {s} of {want} has no effect")
    w2 = rng.standard_normal(want).astype(np.float32)
    require_close(np.asarray(f(2 * w - w2, x)), 2 * W - np.asarray(f(w2, x)), TOL, "weights are not linear in the coefficients", scale=sc)
    x2 = rng.standard_normal(nin).astype(np.float32)
    require_close(np.asarray(f(w, 3 * x - x2)), 3 * W - np.asarray(f(w, x2)), TOL, "weights are not linear in the input", scale=sc)
    bss = {min(n, size(k)) for k, n in x_s.items() if k != () and k in W_s}
    for bs in sorted(bss)[-2:] + [int(rng.integers(1, 7))]:  # batches, also of as many members as there are copies
        xs = rng.standard_normal((bs, nin)).astype(np.float32)
        one = np.stack([np.asarray(f(w, v)) for v in xs])
        require_close(np.asarray(f(w, xs)), one, TOL, f"weights of a batch of {bs} differ from those of its members", scale=sc)
    gs = [g for g in rg.elements(rng, 3, .5) if np.abs(g).max() < 6 and cond(g) < 50][:2]
    for g in gs:
        r1, r2 = ref.rho(ain, [g]), ref.rho(aout, [g])
        k = np.abs(r2).sum(1).max() * np.abs(np.linalg.inv(r1)).sum(1).max() * np.abs(r1).sum(1).max()
        if k > 1e3:
            continue
        require_close(np.asarray(f(w, (r1 @ x).astype(np.float32))) / k, r2 @ W @ np.linalg.inv(r1) / k, TOL,
                      "weights do not transform as a map between the representations", scale=1.0)
    # the layer
    vals = L.randomize(rng)
    y = L(x)
    require(y.shape == (nout,), f"output of shape {y.shape}")
    xb = rng.standard_normal(case["batch"] + [nin]).astype(np.float32)
    yb = L(xb)
    require(yb.shape == tuple(case["batch"]) + (nout,), f"input of shape {xb.shape} gives output of shape {yb.shape}")
    one = np.stack([L(v) for v in xb.reshape(-1, nin)]).reshape(yb.shape)
    require_close(yb, one, TOL, "output on a batch differs from the outputs of its members", scale=1.0)
    require_close(L(-2 * x), 4 * y, TOL, "layer is not homogeneous of degree two", scale=1.0)
    if want:
        k = (0, "bi")
        L.set({k: 2 * vals[k]})
        require_close(L(x), 2 * y, TOL, "layer is not linear in its coefficients", scale=1.0)
        L.set(vals)
    else:
        require(np.abs(y).max() == 0, "layer without coefficients is not zero")
    for g in gs:
        r1, r2 = ref.rho(ain, [g]), ref.rho(aout, [g])
        k = max(1.0, np.abs(r2).sum(1).max()) * max(1.0, np.abs(r1).sum(1).max()) ** 2
        if k > 1e3:
            continue
        require_close(L(r1 @ x) / k, r2 @ y / k, TOL, "layer does not commute with the group", scale=.1)
    return Out(want > 0, "fw:" + case["fw"], "grp:" + case["group"][0], "batch:%d" % len(case["batch"]), "coeff" if want else "nocoeff",
               "sum" if len(x_s) > 1 else "single")
