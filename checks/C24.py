from vlib.core import *
from vlib import nets
from hypothesis import strategies as st

RULE = """Cases are (model kind, group, representation, hidden representation or channels, layers, batch shape, seed), with all
parameters overwritten by random values.  EMLPode(z,t) has to be an equivariant, time independent vector field that computes
the same function as EMLP with the same parameters; EMLPH an invariant scalar whose value on a batch is the sum over its
members, whose gradient transforms with the dual representation and matches the per-member gradients and EMLP's outputs;
MLPode and MLPH the same relations with MLP.  Integrated with BHamiltonianFlow-style dynamics J grad H the field of an
orthogonal group is equivariant.  Non-trivial: output or gradient not constant over the two probes."""
ASSUMPTIONS = ["real groups; one group per case", "float32 arithmetic: tolerance is relative, plus the measured response to a relative input perturbation"]
N = {"quick": 44, "thorough": 1500}
POOL = [g for g in gen.REAL + gen.ALT + [g for g in gen.CUSTOM if not gen.refg(g).cplx] if gen.refg(g).d <= 4]
BATCH = [[], [1], [3], [2, 2]]


def enumerated(tier):
    V, S = ["V"], ["S"]
    i = 0
    for g in [["SO", 3], ["S", 3], ["SL", 2], ["O11"], ["DkeR3", 3], ["Z", 4]]:
        for kind in ["EMLPode", "EMLPH"]:
            yield {"kind": kind, "group": g, "rin": [["mul", 2, V], ["sum", V, S, ["dual", V]]][i % 2], "layers": 1 + i % 2,
                   "hidden": [["sum", S, V, ["T", 2, 0]], ["sum", ["T", 1, 1], V, S]][i // 2 % 2], "batch": BATCH[i % 4], "seed": i}
            i += 1
    for kind in ["EMLPode", "EMLPH", "MLPode", "MLPH"]:
        yield {"kind": kind, "group": ["O2eR3"], "rin": ["mul", 4, V], "hidden": 9, "layers": 2, "batch": [2], "seed": i}
        i += 1


@st.composite
def strategy_(draw, tier):
    g = draw(gen.group(POOL))
    rg = gen.refg(g)
    d = rg.d
    V, S = ["V"], ["S"]
    cand = [V, ["T", 2, 0]] + ([] if rg.orthogonal else [["dual", V], ["T", 1, 1], ["T", 0, 2]])
    cand = [c for c in cand if ref.size(ref.desugar(c), [d]) <= 9]
    parts = [c for c in draw(st.permutations(cand)) if draw(st.integers(0, 2))][:3] or [V]
    parts = draw(st.permutations(parts + [S]))
    rin = draw(st.one_of(gen.rep([d], max(8, d), depth=2, rank=2), st.just(["mul", 2, V]), st.just(["sum", V, ["dual", V]])))
    return {"kind": draw(st.sampled_from(["EMLPode", "EMLPH", "EMLPode", "EMLPH", "MLPode", "MLPH"])), "group": g, "rin": rin,
            "rout": draw(gen.rep([d], max(8, d), depth=2, rank=2)) if draw(st.integers(0, 3)) == 0 else None,
            "hidden": draw(st.one_of(st.integers(1, 12), st.just(["sum", *parts]), st.just(["sum", *parts]))),
            "layers": draw(st.integers(1, 2)), "batch": draw(st.sampled_from(BATCH)), "seed": draw(st.integers(0, 10 ** 6))}


def strategy(tier):
    return strategy_(tier)


class Field:
    """objax model called with extra arguments"""

    def __init__(self, L, kind):
        self.L, self.kind = L, kind

    def __call__(self, x, t=0.):
        import jax.numpy as jnp
        x = jnp.asarray(np.asarray(x, np.float32))
        return np.asarray(self.L.net(x, t) if self.kind.endswith("ode") else self.L.net(x))


def run_case(case):
    import jax
    import jax.numpy as jnp
    rng = rng_of(case)
    kind = case["kind"]
    ham, mlp = kind.endswith("H"), kind.startswith("MLP")
    rg = gen.refg(case["group"])
    G = make_group(case["group"])
    ain = ref.desugar(case["rin"])
    rout_ast = ["S"] if ham else (case.get("rout") or case["rin"])
    aout = ref.desugar(rout_ast)
    n, m = ref.size(ain, [rg.d]), ref.size(aout, [rg.d])
    rin, rout = make_abstract(case["rin"]), make_abstract(rout_ast)
    if min(n, m) == 0 or isinstance(rin, int) or isinstance(rout, int):
        raise Discard()
    h = case["hidden"]
    ch = 7 if mlp else h if isinstance(h, int) else make_abstract(h)
    k = case["layers"]
    np_state = np.random.get_state()
    L = nets.Net("objax", lambda M: getattr(M, kind)(rin, rout, G, ch=ch, num_layers=k), n)
    np.random.set_state(np_state)
    base = nets.Net("objax", lambda M: (M.MLP if mlp else M.EMLP)(rin, rout, G, ch=ch, num_layers=k), n)
    require(L.net.rep_in.size() == n and L.net.rep_out.size() == m and L.net.G == G, "rep_in, rep_out or G of the model")
    vals = L.randomize(rng, .9)
    require(base.shapes() == L.shapes(), f"parameters of {kind} differ from those of the plain network: {L.shapes()} / {base.shapes()}")
    base.set(vals)
    F = Field(L, kind)
    x = (rng.standard_normal((2, n)) * 1.5 / np.sqrt(n)).astype(np.float32)
    same_choice = mlp or not isinstance(h, int)  # no random choice between equal summands is left
    bs = case["batch"]
    xb = (rng.standard_normal(bs + [n]) / np.sqrt(n)).astype(np.float32)
    jit = lambda x: (L.net(x, 0.) if not ham else L.net(x))
    y = np.stack([F(v) for v in x])
    noise = np.abs(np.stack([F(v * np.float32(1 + 2e-6)) for v in x]) - y).max()
    sc = max(np.abs(y).max(), 1e-2) + 3e4 * noise
    if not ham:
        require(y.shape == (2, m), f"vector field of shape {y.shape[1:]} for an output of dimension {m}")
        for t in (1.5, np.float32(-3), jnp.ones(())):
            require_close(np.asarray(F(x[0], t)), y[0], 1e-5, "vector field depends on time", scale=sc)
        yb = F(xb)
        require(yb.shape == tuple(bs) + (m,), f"input of shape {xb.shape} gives output of shape {yb.shape}")
        require_close(yb.reshape(-1, m), np.stack([F(v) for v in xb.reshape(-1, n)]), 1e-3, "output on a batch", scale=sc)
        require_close(F(x), y, 1e-3, "output on a batch", scale=sc)
        if same_choice:
            require_close(F(x), base(x), 1e-3, "vector field differs from the plain network with the same parameters", scale=sc)
        require_close(np.asarray(jax.vmap(jit)(x)), y, 1e-3, "vector field under vmap", scale=sc)
    else:
        require(y.shape == (2,), f"Hamiltonian of shape {y.shape[1:]}")
        require_close(F(x), y.sum(), 1e-3, "Hamiltonian of a batch is not the sum over its members", scale=sc)
        require_close(F(xb), sum([float(F(v)) for v in xb.reshape(-1, n)], 0.), 1e-3, "Hamiltonian of a batch is not the sum over its members",
                      scale=sc * max(1, int(np.prod(bs))))
        require_close(np.asarray(L.net.H(jnp.asarray(x[0]))), y[0], 1e-5, "H and call differ", scale=sc)
        if same_choice:
            require_close(y, base(x)[:, 0], 1e-3, "Hamiltonian differs from the plain network with the same parameters", scale=sc)
        grad = jax.grad(lambda v: L.net(v))
        gx = np.stack([np.asarray(grad(jnp.asarray(v))) for v in x])
        gs = max(np.abs(gx).max(), .1) + 3e4 * noise
        require_close(np.asarray(grad(jnp.asarray(x))), gx, 2e-3, "gradient on a batch is not the gradient of the members", scale=gs)
        dx = rng.standard_normal((2, n)).astype(np.float32)
        fd = lambda e: (np.stack([F(v) for v in x + e * dx]) - np.stack([F(v) for v in x - e * dx])) / (2 * e)
        d1, d2 = fd(np.float32(1e-2)), fd(np.float32(5e-3))
        require((np.abs(d2 + (d2 - d1) / 3 - (gx * dx).sum(1)) <= .03 * np.maximum(np.abs(gx * dx).sum(1), 1) + 3 * np.abs(d2 - d1) + 1e3 * noise).all(),
                "gradient of the Hamiltonian does not predict its differences")
    varies = np.abs(y[0] - y[1]).max() > 1e-6
    if mlp:
        return Out(varies, "kind:" + kind, "grp:" + case["group"][0])
    used = 0
    for g in rg.elements(rng, 3, .4):
        if np.abs(g).max() > 4 or cond(g) > 30:
            continue
        r1, r2 = ref.rho(ain, [g]), ref.rho(aout, [g])
        i1 = np.linalg.inv(r1)
        if max(np.abs(r1).sum(1).max(), np.abs(r2).sum(1).max(), np.abs(i1).sum(0).max()) > 40:
            continue
        gx_ = (x @ r1.T).astype(np.float32)
        ya, yb = np.stack([F(v) for v in gx_]), y if ham else y @ r2.T
        noise2 = np.abs(np.stack([F(v * np.float32(1 + 2e-6)) for v in gx_]) - ya).max() + noise
        t = 1e-3 * max(np.abs(ya).max(), np.abs(yb).max()) + 30 * noise2 * max(1, np.abs(r2).sum(1).max()) + 1e-5
        dv = np.abs(ya - yb).max()
        require(dv <= t, f"{kind} does not commute with the group: deviation {dv:.3g} > {t:.3g}")
        if ham:
            ga = np.stack([np.asarray(grad(jnp.asarray(v))) for v in gx_])
            gb = gx @ i1
            s = max(np.abs(ga).max(), np.abs(gb).max(), .1)
            require_close(ga, gb, 5e-3, "gradient of the Hamiltonian does not transform with the dual representation", scale=s + 3e3 * noise2 * np.abs(i1).sum(0).max())
        used += 1
    return Out(varies and used > 0, "kind:" + kind, "grp:" + case["group"][0], "constant" if not varies else "", "layers:%d" % k)
