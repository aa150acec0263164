from vlib.core import *
from vlib import xreps, nets
from hypothesis import strategies as st

RULE = """Cases are (framework, group, hidden expression, batch shape, seed).  gated(rep) has to be rep followed by one
scalar for every summand that is neither a scalar nor a permutation representation (size, action, summand counts against
the expanded reference expression).  The nonlinearity has to multiply every value by the sigmoid of one fixed pre-activation:
its own value on scalar and permutation summands, a gate scalar elsewhere; all values of one summand share one gate, two
summands never do, no gate is unused; the result is equivariant from gated(rep) to rep for reference group elements, and
the same on every batch shape.  Non-trivial: at least one gate and at least two summands."""
ASSUMPTIONS = ["one group per case (mixed tensors are documented as unsupported)", "real groups",
               "user-defined representations are not permutation representations unless they say so"]
N = {"quick": 420, "thorough": 5000}
TOL = 3e-4
POOL = [g for g in gen.REAL + gen.ALT + gen.CUSTOM if gen.refg(g).d <= 8 and not gen.refg(g).cplx]
BATCH = [[], [1], [3], [2, 2], [0]]


def enumerated(tier):
    V, S = ["V"], ["S"]
    reps = [V, ["dual", V], ["T", 2, 0], ["sum", V, S], ["sum", S, V, V], ["mul", 3, V], ["sum", ["T", 1, 1], V, ["int", 2], ["dual", V]],
            ["prod", ["sum", V, S], ["sum", S, V]], ["mul", 2, ["sum", V, S, V]], ["dual", ["sum", V, ["T", 2, 0], S]], ["int1"],
            [">>", ["sum", V, S], V], ["pow", ["sum", S, V], 2]]
    i = 0
    for g in [["SO", 3], ["S", 3], ["SL", 2], ["O11"], ["Z", 4], ["Trivial", 2], ["DkeR3", 3], ["O", 1], ["D", 3], ["prod", ["O", 2], ["S", 2]],
              ["custom", "perm", 3, 1, "numpy"], ["custom", "sperm", 3, 3, "lazy"], ["D", 1], ["C", 1], ["Z", 1]]:
        for r in reps[i % 2::2] if tier == "quick" else reps:
            r = ["mul", 2, S] if r == ["int1"] else r
            yield {"fw": nets.FRAMEWORKS[i % 4], "group": g, "rep": r, "batch": BATCH[i % 5], "seed": i}
            i += 1


@st.composite
def strategy_(draw, tier):
    g = draw(st.one_of(gen.group(POOL), gen.custom(4).filter(lambda g: not gen.refg(g).cplx)))
    rg = gen.refg(g)
    extra = [["X", n] for n in xreps.names(rg)]
    r = draw(gen.rep([rg.d], max(40 if tier == "quick" else 120, rg.d), depth=3, rank=3, extra=extra))
    return {"fw": draw(st.sampled_from(nets.FRAMEWORKS)), "group": g, "rep": r,
            "batch": draw(st.sampled_from(BATCH)), "seed": draw(st.integers(0, 10 ** 6))}


def strategy(tier):
    return strategy_(tier)


def run_case(case):
    from emlp.nn import gated
    from checks.C19 import summands
    rng = rng_of(case)
    rg = gen.refg(case["group"])
    G = make_group(case["group"])
    ast = ref.desugar(case["rep"])
    n = ref.size(ast, [rg.d])
    R = make_rep(case["rep"], [G])
    if isinstance(R, int) or n == 0:
        raise Discard()
    mono = summands(ast, rg.orthogonal)
    perm = rg.permutation
    # a product is a permutation representation when all its factors are; scalars are neither gated
    plain = lambda k: k == () or (perm and all(f[0] == "V" for f in k))
    ngates = sum(v for k, v in mono.items() if not plain(k))
    size = lambda k: int(np.prod([rg.d if f[0] == "V" else ref.size(["X", f[1]], [rg.d]) for f in k])) if k else 1
    RG = gated(R)
    require(RG.size() == n + ngates, f"gated() has size {RG.size()}, expected {n}+{ngates}")
    for g in [g.astype(np.float32) for g in rg.elements(rng, 2, .5) if np.abs(g).max() < 20]:
        want = ref.bdiag([ref.rho(ast, [g.astype(float)]), np.eye(ngates)]) if ngates else ref.rho(ast, [g.astype(float)])
        require_close(dense(RG.rho(g)), want, TOL, "gated() does not act as the representation followed by scalars", scale=1.0)
    L = nets.gate(case["fw"], R, n + ngates)
    require(L.shapes() == {}, f"the nonlinearity has parameters {L.shapes()}")
    v = rng.permutation(np.linspace(-2.5, 2.5, n + ngates)).astype(np.float32) + rng.uniform(-.01, .01, n + ngates).astype(np.float32)
    y = L(v)
    require(y.shape == (n,), f"output of shape {y.shape} for a representation of dimension {n}")
    sig = 1 / (1 + np.exp(-v.astype(float)))
    ratio = y.astype(float) / v[:n]
    which = [np.flatnonzero(np.abs(sig - r) < 1e-4) for r in ratio]
    require(all(len(w) == 1 for w in which), "some output is not its input times the sigmoid of exactly one pre-activation")
    which = np.array([w[0] for w in which])
    own = which == np.arange(n)
    nplain = sum(v_ * size(k) for k, v_ in mono.items() if plain(k))
    require(own.sum() == nplain, f"{own.sum()} values gate themselves, expected {nplain}")
    require((which[~own] >= n).all(), "a value is gated by another value of the representation")
    used, counts = np.unique(which[~own], return_counts=True)
    require(list(used) == list(range(n, n + ngates)), f"gates used {used}, expected {n}..{n + ngates - 1}")
    want = sorted(size(k) for k, v_ in mono.items() if not plain(k) for _ in range(v_))
    require(sorted(counts) == want, f"gates cover {sorted(counts)} values, expected {want}")
    for g in rg.elements(rng, 3, .5):
        if np.abs(g).max() > 20:
            continue
        r1 = ref.rho(ast, [g])
        r1g = ref.bdiag([r1, np.eye(ngates)]) if ngates else r1
        sc = max(1.0, np.abs(r1).sum(1).max())
        require_close(L(r1g @ v) / sc, r1 @ y / sc, TOL, "nonlinearity does not commute with the group", scale=1.0)
    xb = rng.standard_normal(case["batch"] + [n + ngates]).astype(np.float32)
    yb = L(xb)
    require(yb.shape == tuple(case["batch"]) + (n,), f"input of shape {xb.shape} gives output of shape {yb.shape}")
    s = 1 / (1 + np.exp(-xb.astype(float)))
    require_close(yb, s[..., which] * xb[..., :n], TOL, "output on a batch", scale=1.0)
    return Out(ngates > 0 and sum(mono.values()) > 1, "fw:" + case["fw"], *labels({"group": case["group"], "rep": case["rep"]}),
               "gates:%d" % min(ngates, 5), "perm" if perm else "")
