from vlib.core import *
from hypothesis import strategies as st

RULE = """Cases are (kind, group, representations, statistics, batch, seed).  standardize: the wrapped model has to see
(x - mean) / std and its output come back as std * y + mean (two or four statistics, scalars or arrays, objax and torch), with
the training flag passed on.  augment: without training the model's output, with training rho_out(g)^-1 model(rho_in(g) x) for
one group element per sample, read off from what the model saw (the input contains the columns of the identity); elements
differ between samples and calls, belong to the group, and an equivariant model is unchanged.  error: equivariance_error is
below 1e-3 for equivariant matrices and bases, bounded by 1, and away from zero for matrices and bases that are not.
Non-trivial: statistics differ from (0,1), or the group is not trivial."""
ASSUMPTIONS = ["real groups of moderate condition"]
N = {"quick": 140, "thorough": 4000}
POOL = [g for g in gen.REAL + gen.ALT + [g for g in gen.CUSTOM if not gen.refg(g).cplx] if gen.refg(g).d <= 6]


def enumerated(tier):
    i = 0
    V, S = ["V"], ["S"]
    for g in [["SO", 3], ["S", 3], ["SL", 2], ["O11"], ["D", 3], ["Z", 4], ["Lorentz"], ["O", 2], ["Trivial", 2], ["Cube"]]:
        for b in (True, False):
            yield {"kind": "augment", "group": g, "rin": [["sum", S, V], ["T", 1, 1]][i % 2], "rout": [["sum", V, S], ["T", 0, 1], ["T", 2, 0]][i % 3], "batch": 1 + i % 5, "bound": b, "seed": i}
            yield {"kind": "error", "group": g, "rin": [["sum", S, V], V][i % 2], "rout": [["sum", V, S], ["dual", V]][i // 2 % 2], "seed": i}
            i += 1
    for fw in ("objax", "torch"):
        for n in (2, 4):
            for form in ("scalar", "vector", "mixed"):
                yield {"kind": "standardize", "fw": fw, "n": n, "form": form, "batch": [3], "nin": 4, "nout": 2, "seed": i}
                i += 1


@st.composite
def strategy_(draw, tier):
    kind = draw(st.sampled_from(["augment", "augment", "error", "standardize"]))
    seed = draw(st.integers(0, 10 ** 6))
    if kind == "standardize":
        return {"kind": kind, "fw": draw(st.sampled_from(["objax", "torch"])), "n": draw(st.sampled_from([2, 4])), "form": draw(st.sampled_from(["scalar", "vector", "mixed"])),
                "batch": draw(st.sampled_from([[], [1], [4], [2, 3]])), "nin": draw(st.integers(1, 6)), "nout": draw(st.integers(1, 4)), "seed": seed}
    g = draw(gen.group(POOL))
    d = gen.refg(g).d
    c = max(12, d)
    rin, rout = draw(gen.rep([d], c, depth=2, rank=2)), draw(gen.rep([d], c, depth=2, rank=2))
    if kind == "error":
        return {"kind": kind, "group": g, "rin": rin, "rout": rout, "seed": seed}
    return {"kind": kind, "group": g, "rin": rin, "rout": rout, "batch": draw(st.integers(1, 6)), "bound": draw(st.booleans()), "seed": seed}


def strategy(tier):
    return strategy_(tier)


def standardize(case, rng):
    nin, nout, fw = case["nin"], case["nout"], case["fw"]
    f32 = lambda a: np.asarray(a, np.float32)
    A = f32(rng.standard_normal((nin, nout)))

    def stat(n, pos, vec):
        s = (n,) if vec else ()
        return f32(np.exp(rng.standard_normal(s)) if pos else rng.standard_normal(s))
    vec = {"scalar": (0, 0, 0, 0), "vector": (1, 1, 1, 1), "mixed": (0, 1, 1, 0)}[case["form"]]
    stats = [stat(nin, 0, vec[0]), stat(nin, 1, vec[1]), stat(nout, 0, vec[2]), stat(nout, 1, vec[3])][:case["n"]]
    seen = []
    x = f32(rng.standard_normal(case["batch"] + [nin]))
    if fw == "objax":
        import jax.numpy as jnp
        from emlp.nn import Standardize
        from objax import Module

        class M(Module):
            def __call__(self, x, training=None):
                seen.append((np.asarray(x), training))
                return jnp.tanh(x @ A)
        W = Standardize(M(), tuple(stats) if not vec[0] else [jnp.asarray(s) for s in stats])
        call = lambda t: np.asarray(W(jnp.asarray(x), t))
        callkw = lambda t: np.asarray(W(jnp.asarray(x), training=t))
    else:
        import torch
        from emlp.nn.pytorch import Standardize

        class M(torch.nn.Module):
            def __init__(self):
                super().__init__()
                self.p = torch.nn.Parameter(torch.from_numpy(A))

            def forward(self, x, training=None):
                seen.append((x.detach().numpy(), training))
                return torch.tanh(x @ self.p)
        W = Standardize(M(), tuple(torch.as_tensor(s) for s in stats))
        require(len(list(W.parameters())) == 1, "parameters of the wrapped model are not parameters of the wrapper")
        call = lambda t: W(torch.from_numpy(x), t).detach().numpy()
        callkw = lambda t: W(torch.from_numpy(x), training=t).detach().numpy()
    z = (x.astype(float) - stats[0]) / stats[1]
    y = np.tanh(z @ A)
    if case["n"] == 4:
        y = y * stats[3] + stats[2]
    for c in (call, callkw):
        for t in (True, False):
            out = c(t)
            require_close(seen[-1][0], z, 1e-4, "input seen by the standardised model", scale=1.0)
            require(seen[-1][1] is t, "training flag is not passed to the model")
            require_close(out, y, 1e-4, "output of the standardised model", scale=1.0)
    return Out(True, "standardize", "fw:" + fw, "stats:%d" % case["n"], "form:" + case["form"])


def augment(case, rng):
    import jax.numpy as jnp
    from emlp.datasets import GroupAugmentation
    rg = gen.refg(case["group"])
    G = make_group(case["group"])
    d = rg.d
    a1, a2 = ref.desugar(case["rin"]), ref.desugar(case["rout"])
    n1, n2 = ref.size(a1, [d]), ref.size(a2, [d])
    full = ["sum", case["rin"], ["mul", d, ["V"]]]
    build_ = (lambda a: make_rep(a, [G])) if case["bound"] else make_abstract
    rin, rout = build_(full), build_(case["rout"])
    if isinstance(rin, int) or isinstance(rout, int) or n2 == 0:
        raise Discard()
    k = n1 + d * d
    W = rng.standard_normal((k, n2)).astype(np.float32) / np.float32(np.sqrt(k))
    seen = []

    def model(x, training=True):
        seen.append((np.asarray(x), training))
        return jnp.sin(x @ W)
    A = GroupAugmentation(model, rin, rout, G)
    b = case["batch"]
    x = rng.standard_normal((b, k)).astype(np.float32)
    x[:, n1:] = np.eye(d).reshape(-1)  # column i of the identity is the i-th vector
    out = np.asarray(A(jnp.asarray(x), False))
    require(seen[-1][1] is False or seen[-1][1] == False, "training flag")  # noqa: E712
    require_close(out, np.sin(x @ W), 1e-4, "without training the model has to be used as it is", scale=1.0)
    require_close(seen[-1][0], x, 1e-6, "without training the model has to see the input", scale=1.0)
    allg = []
    for call in (lambda: A(jnp.asarray(x), True), lambda: A(jnp.asarray(x))):
        out = np.asarray(call())
        xin, tr = seen[-1]
        require(tr == True, "training flag")  # noqa: E712
        require(xin.shape == x.shape and out.shape == (b, n2), f"shapes {xin.shape} {out.shape}")
        y = np.sin(xin.astype(float) @ W)
        for i in range(b):
            g = xin[i, n1:].reshape(d, d).T.astype(float)
            allg.append(g)
            if np.abs(g).max() > 8 or cond(g) > 100:
                continue
            r1, r2 = ref.rho(a1, [g]), ref.rho(a2, [g])
            s = max(1, np.abs(r1).sum(1).max()) if n1 else 1
            if n1:
                require_close(xin[i, :n1] / s, r1 @ x[i, :n1] / s, 2e-3, "model has to see one group element acting on the whole input", scale=1.0)
            if cond(r2) < 300:
                inv = np.linalg.inv(r2)
                s = max(1, np.abs(inv).sum(1).max())
                require_close(out[i] / s, inv @ y[i] / s, 2e-3, "output has to be transformed back with the same element", scale=1.0)
    if len(rg.lie):
        big = [g for g in allg]
        require(all(np.abs(p - q).max() > 1e-6 for i, p in enumerate(big) for q in big[:i]), "the same group element for different samples")
    if rg.orthogonal:
        for g in allg:
            require_close(g @ g.T, np.eye(d), 1e-3, "augmented with an element outside the group", scale=1.0)
    # an equivariant map is unchanged
    B, gap = ref.invariant_basis(["prod", a2, ["dual", ref.desugar(full)]], [rg]) if n2 * k <= 400 else (None, 0)
    if B is not None and B.shape[1] and gap > 1e-5 and all(np.abs(g).max() < 8 for g in allg):
        E = (B @ rng.standard_normal(B.shape[1])).reshape(n2, k).astype(np.float32)
        A2 = GroupAugmentation(lambda x, t: x @ E.T, rin, rout, G)
        o = np.asarray(A2(jnp.asarray(x), True))
        require(np.isfinite(o).all(), "not finite")
        if rg.orthogonal:
            require_close(o, x @ E.T, 2e-3, "augmentation changes an equivariant model", scale=max(1, np.abs(x @ E.T).max()))
    nontriv = any(np.abs(g - np.eye(d)).max() > 1e-3 for g in allg)
    return Out(nontriv, "augment", "grp:" + case["group"][0], "bound" if case["bound"] else "late")


def error(case, rng):
    from emlp.reps import equivariance_error
    rg = gen.refg(case["group"])
    G = make_group(case["group"])
    a1, a2 = ref.desugar(case["rin"]), ref.desugar(case["rout"])
    n1, n2 = ref.size(a1, [rg.d]), ref.size(a2, [rg.d])
    rin, rout = make_rep(case["rin"], [G]), make_rep(case["rout"], [G])
    if isinstance(rin, int) or isinstance(rout, int) or min(n1, n2) == 0 or n1 * n2 > 400:
        raise Discard()
    B, gap = ref.invariant_basis(["prod", a2, ["dual", a1]], [rg])
    if gap < 1e-5:
        raise Discard()
    e = lambda W: [float(equivariance_error(W.astype(np.float32), rin, rout, G)) for _ in range(8)]
    if B.shape[1]:
        W = (B @ rng.standard_normal(B.shape[1])).reshape(n2, n1)
        for M in (W, B, 50 * W, B[:, :1]):
            v = e(M)
            require(all(0 <= q < 1e-3 for q in v), f"error {max(v)} for an equivariant matrix of shape {M.shape}")
    W = rng.standard_normal((n2, n1))
    bad = W.reshape(-1) - B @ (B.T @ W.reshape(-1))
    nontriv = np.linalg.norm(bad) > .1 * np.linalg.norm(W)
    if nontriv:
        bad = (bad / np.linalg.norm(bad) * 5).reshape(n2, n1)
        mean = 0
        for q in rg.elements(rng, 20, .5):
            if np.abs(q).max() < 4:
                mean = max(mean, np.abs(bad @ ref.rho(a1, [q]) - ref.rho(a2, [q]) @ bad).max())
        v = e(bad)
        require(all(np.isfinite(v)) and max(v) <= 1.001, f"relative error {max(v)} is not at most 1")
        if mean > .1:
            require(max(v) > .02, f"error only {max(v)} for a matrix without any equivariant part (typical deviation {mean:.2g})")
            Q = np.concatenate([B[:, :4] * 1, bad.reshape(-1, 1) / 5], 1)
            v = e(Q)
            require(max(v) > .005, f"error only {max(v)} for a basis one element of which is not equivariant")
    return Out(nontriv, "error", "grp:" + case["group"][0])


def run_case(case):
    rng = rng_of(case)
    return {"standardize": standardize, "augment": augment, "error": error}[case["kind"]](case, rng)
