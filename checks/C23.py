from vlib.core import *
from hypothesis import strategies as st
from math import comb

RULE = """Cases are (group, number of channels, framework module, seed).  The representation has to have exactly the requested
size, consist of tensors T(p,q) of the group only, be in canonical order, and contain for every rank the number of tensors
that an independent model of the documented heuristic allocates (the same number of channels to every rank up to the largest
that fits, repeated on what is left), with every type of a rank getting at least its share of the complete binomial rounds;
the group's dimension, solutions and the shared Vector and Scalar stay usable.  Repeated draws have to reach every type.
Non-trivial: tensors of at least two ranks."""
ASSUMPTIONS = ["for one-dimensional groups at most 32 channels (known finding above that)"]
N = {"quick": 240, "thorough": 6000}
POOL = [g for g in gen.ALLBIG + gen.CUSTOM if g != ["RubiksCube"]] + [["RubiksCube"]]


def enumerated(tier):
    i = 0
    for g in [["SO", 2], ["SL", 2], ["S", 3], ["GL", 3], ["Sp", 2], ["U", 2], ["SO13"], ["Cube"], ["D", 5], ["SL", 4]]:
        d = gen.refg(g).d
        # values around the points where a further rank starts to fit
        for ch in sorted({c for m in range(1, 7) for c in ((m + 1) * d ** m - 1, (m + 1) * d ** m, (m + 1) * d ** m + 1) if c <= (400 if tier == "quick" else 3000)} | {1, 2, 384}):
            yield {"group": g, "ch": ch, "seed": i}
            i += 1
    for g in [["SL", 2], ["GL", 2], ["SO13p"], ["Sp", 2], ["U", 2], ["SL", 3]]:
        yield {"group": g, "ch": gen.refg(g).d * 2 + 1, "kind": "reach", "seed": i}
        i += 1
    for g in [["SO", 1], ["GL", 1], ["Z", 1]]:
        for ch in (1, 2, 7, 32):
            yield {"group": g, "ch": ch, "seed": i}
            i += 1


@st.composite
def strategy_(draw, tier):
    g = draw(st.one_of(gen.group(POOL), gen.group(POOL), gen.custom(4)))
    top = 32 if gen.refg(g).d == 1 else 900 if tier == "quick" else 5000
    ch = draw(st.one_of(st.integers(1, min(40, top)), st.integers(1, top)))
    return {"group": g, "ch": ch, "seed": draw(st.integers(0, 10 ** 6))}


def strategy(tier):
    return strategy_(tier)


def model(ch, d):
    """tensors per rank: the largest m with (m+1) d^m <= ch gets d^(m-r) tensors of every rank r <= m; repeat on the rest"""
    counts = {}
    while ch > 0:
        m = max(k for k in range(ch) if (k + 1) * d ** k <= ch) if ch > 1 else 0
        for r in range(m + 1):
            counts[r] = counts.get(r, 0) + d ** (m - r)
        ch -= (m + 1) * d ** m
    return counts


def run_case(case):
    from emlp.nn import uniform_rep
    from emlp.reps.product_sum_reps import SumRep
    from emlp.reps import T, Scalar, V, Vector
    spec, ch = case["group"], case["ch"]
    rg = gen.refg(spec)
    G = make_group(spec)
    d = rg.d
    want = model(ch, d)
    orth = G.is_orthogonal

    def parts(R):
        out = {}
        for r in (R if isinstance(R, SumRep) else [R]):
            out[r] = out.get(r, 0) + 1
        return out

    def types(R):
        """{(p,q): multiplicity} for a sum of tensors"""
        out, left = {}, parts(R)
        for r in want:
            for p in range(r, -1, -1):
                t = T(p, r - p, G)
                c = left.pop(t, 0)
                if c:
                    out[(p, r - p)] = out.get((p, r - p), 0) + c
        require(not left, f"summands {list(left)} are not tensors of the group of rank up to {max(want)}")
        return out
    if case.get("kind") == "reach":
        seen = set()
        for _ in range(60):
            seen |= set(types(uniform_rep(ch, G)))
        missing = [(p, r - p) for r in want for p in range(r + 1) if (p, r - p) not in seen] if not orth else []
        require(not missing, f"types {missing} are never allocated in 60 draws of {ch} channels")
        return Out(len(want) > 1, "reach", "grp:" + spec[0])
    R = uniform_rep(ch, G)
    require(R.concrete, "representation is not bound to the group")
    require(R.size() == ch, f"{ch} channels requested, got {R.size()}")
    got = types(R)
    for r, n in want.items():
        have = {t: c for t, c in got.items() if sum(t) == r}
        require(sum(have.values()) == n, f"{sum(have.values())} tensors of rank {r} instead of {n}", reps=str(R))
        if not orth:
            full = n // 2 ** r
            for p in range(r + 1):
                require(have.get((p, r - p), 0) >= full * comb(r, p), f"T({p},{r - p}) occurs {have.get((p, r - p), 0)} times, "
                        f"{full} complete rounds of {2 ** r} tensors contain it {full * comb(r, p)} times")
    C, perm = R.canonicalize()
    require(np.array_equal(np.asarray(perm), np.arange(ch)), "representation is not in canonical order")
    require(C == R and hash(C) == hash(R), "canonical form differs from the representation")
    # layout: blocks of equal type are contiguous and act as tensors of that type, in the order in which the sum lists them
    rng = rng_of(case)
    if ch <= 120:
        g = rg.elements(rng, 1, .4)[0]
        if np.abs(g).max() < 10:
            blocks = []
            for rep, c in parts(R).items():
                pq = next(t for t in got if T(t[0], t[1], G) == rep)
                blocks += [ref.rho(ref.desugar(["T", *pq]), [g])] * c
            M = ref.bdiag(blocks)
            dt = np.complex64 if rg.cplx else np.float32
            A = dense(R.rho(g.astype(dt)))
            require_close(A / max(1, np.abs(M).max()), M / max(1, np.abs(M).max()), 1e-4, "action of the allocated representation", scale=1.0)
    require(Vector is V and V.G is None and Scalar.G is None and not V.concrete, "shared Vector or Scalar was modified")
    return Out(len(want) > 1, "grp:" + spec[0], "orth" if orth else "tensor types", "ranks:%d" % len(want))
