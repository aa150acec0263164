from vlib.core import *
from hypothesis import strategies as st

RULE = """Cases are (group, one to three input expressions, output expression, seed).  The basis of the map space is
reshaped to (out, in) (respectively (out, in_2, in_1) for multilinear maps) and every element has to commute with the
reference actions; projecting an arbitrary weight matrix must give an equivariant matrix, and contraction with inputs
must be equivariant; the dimension of the map space is compared with the reference.  Non-trivial: the map space is
neither empty nor full and in and out are not both the bare vector; distinct by case."""
ASSUMPTIONS = ["row major layout (output index first, the first declared input last) as documented for multilinear maps"]
N = {"quick": 400, "thorough": 4000}
TOL = 4e-4
POOL = [g for g in gen.WITHCUSTOM if gen.refg(g).d <= 6]


def enumerated(tier):
    for g in POOL:
        d = gen.refg(g).d
        if d <= 4:
            yield {"group": g, "ins": [["sum", ["V"], ["S"]]], "out": ["sum", ["S"], ["mul", 2, ["V"]]], "seed": 0, "form": ">>"}
            yield {"group": g, "ins": [["V"]], "out": ["T", 1, 1] if d <= 3 else ["V"], "seed": 0, "form": "<<"}
        yield {"group": g, "ins": [["V"]], "out": ["dual", ["V"]], "seed": 0, "form": ">>"}
        if d <= 3:
            yield {"group": g, "ins": [["V"], ["sum", ["V"], ["S"]]], "out": ["V"], "seed": 0, "form": ">>"}
            yield {"group": g, "ins": [["sum", ["S"], ["V"]], ["V"]], "out": ["sum", ["V"], ["S"]], "seed": 0, "form": "<<"}
    for g in (["SO", 3], ["S", 3], ["O", 2], ["SL", 2], ["Z", 3]):
        yield {"group": g, "ins": [["V"], ["V"], ["V"]], "out": ["V"] if g != ["SO", 3] else ["S"], "seed": 0, "form": ">>"}


@st.composite
def strategy_(draw, tier):
    cap = 70 if tier == "quick" else 216
    g = draw(gen.group(POOL))
    d = gen.refg(g).d
    k = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    root = max(d, int(round(cap ** (1.0 / (k + 1)) + (1 if k > 1 else 3))))
    ins, tot = [], 1
    for _ in range(k):
        c = max(1, min(root, cap // tot))
        r = draw(gen.rep([d], max(c, 1), depth=2)) if c >= d else ["S"]
        tot *= ref.size(ref.desugar(r), [d])
        ins.append(r)
    c = max(1, min(2 * root, cap // tot))
    out = draw(gen.rep([d], c, depth=2)) if c >= d else draw(st.sampled_from([["S"], ["sum", ["S"], ["S"]]]))
    return {"group": g, "ins": ins, "out": out, "seed": draw(st.integers(0, 10 ** 6)),
            "form": draw(st.sampled_from([">>", "<<"]))}


def strategy(tier):
    return strategy_(tier)


def run_case(case):
    rng = rng_of(case)
    rg, G = gen.refg(case["group"]), make_group(case["group"])
    ins = [make_rep(a, [G]) for a in case["ins"]]
    out = make_rep(case["out"], [G])
    if any(isinstance(r, int) for r in ins + [out]):
        raise Discard()
    ni = [ref.size(ref.desugar(a), [rg.d]) for a in case["ins"]]
    no = ref.size(ref.desugar(case["out"]), [rg.d])
    # R3<<R2<<R1 is R1>>(R2>>R3): axes (out, last declared first ... ) = (R3, R2, R1)
    ast = case["out"]
    M = out
    if case["form"] == ">>":
        for r, a in list(zip(ins, case["ins"]))[::-1]:
            M = r >> M
            ast = [">>", a, ast]
        shape = (no, *ni[::-1]) if False else None
        # innermost written last: in_1>>(in_2>>out): vec layout (out, in_2.., in_1)
        shape = (no, *ni[::-1])
        axes = case["ins"][::-1]
    else:
        for r, a in zip(ins, case["ins"]):
            M = M << r
            ast = ["<<", ast, a]
        shape = (no, *ni)
        axes = case["ins"]
    n = int(np.prod(shape))
    require(M.size() == n, f"map space has size {M.size()}, expected {n}")
    Q = dense(M.equivariant_basis())
    B, gap = ref.invariant_basis(ref.desugar(ast), [rg])
    if gap < 1e-5:
        raise Discard()
    require(Q.shape == (n, B.shape[1]), f"map space basis has shape {Q.shape}, expected {(n, B.shape[1])}")
    w = rng.standard_normal(n).astype(np.float32)
    W = np.asarray(M.equivariant_projector() @ w)
    mats = [Q[:, i].reshape(shape) for i in rng.permutation(Q.shape[1])[:4]] + [W.reshape(shape)]
    els = [e for e in rg.elements(rng, 2, mag=.7)] + [h for h in rg.disc[:2]]
    for g in els:
        ro = ref.rho(ref.desugar(case["out"]), [g])
        ri = [ref.rho(ref.desugar(a), [g]) for a in axes]
        sc = np.abs(ro).sum(1).max() * np.prod([np.abs(r).sum(1).max() for r in ri])
        for K in mats:
            # K(ri x, ...) = ro K(x,...)
            L = K
            for ax, r in enumerate(ri):
                L = np.moveaxis(np.tensordot(L, r, axes=([ax + 1], [0])), -1, ax + 1)
            Rr = np.tensordot(ro, K, axes=([1], [0]))
            s = max(1.0, sc) * max(1.0, np.abs(K).max())
            require_close(L / s, Rr / s, TOL, "a solution of the map space is not an equivariant map", scale=1.0)
    # the library's own matrices tell the same story for plain linear maps
    if len(ins) == 1:
        g = els[0].astype(np.complex64 if rg.cplx else np.float32)
        if np.abs(g).max() < 20:
            ro, ri = np.asarray(out.rho_dense(g)), np.asarray(ins[0].rho_dense(g))
            K = W.reshape(no, ni[0])
            s = max(1.0, np.abs(ro).sum(1).max() * np.abs(ri).sum(1).max() * max(1, np.abs(K).max()))
            require_close(K @ ri / s, ro @ K / s, TOL, "projected weight matrix does not commute with the library's action", scale=1.0)
    nontriv = 0 < Q.shape[1] < n and (len(ins) > 1 or gen.leaves(case["ins"][0]) + gen.leaves(case["out"]) > 2)
    return Out(nontriv, "maps:%d" % len(ins), "form:" + case["form"], "fam:" + gen.families(case["group"]), "grp:" + case["group"][0])
