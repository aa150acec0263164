from vlib.core import *
from hypothesis import strategies as st

RULE = """Cases are pairs of representation expressions over one group or over two groups, each object built twice from
scratch.  Equal expressions must compare equal, hash equal and be interchangeable as dictionary keys; whenever the
library calls two representations equal their actions must agree entrywise; groups are equal exactly when they are the
same group; canonicalisation must return a permutation that intertwines the representation with its canonical form.
Non-trivial: both expressions have at least two factors or summands; distinct by case."""
ASSUMPTIONS = ["two specs denote different groups unless the reference solution spaces of small tensors and all "
               "generators coincide"]
N = {"quick": 480, "thorough": 6000}
TOL = 3e-4
POOL = [g for g in gen.WITHCUSTOM if gen.refg(g).d <= 5]


def enumerated(tier):
    pool = gen.ALLBIG
    for i in range(0, len(pool), 6):
        yield {"kind": "groups", "specs": pool[i:i + 6] + pool[(i * 7 + 3) % len(pool):][:3]}
    byd = {}
    for g in pool:
        byd.setdefault(gen.refg(g).d, []).append(g)
    for d, l in sorted(byd.items()):
        if d <= 6:
            yield {"kind": "groups", "specs": l}
    perms = [["sum", ["V"], ["T", 2, 0]], ["sum", ["T", 2, 0], ["V"]], ["prod", ["V"], ["dual", ["V"]]],
             ["prod", ["dual", ["V"]], ["V"]], ["sum", ["V"], ["dual", ["V"]]], ["sum", ["dual", ["V"]], ["V"]],
             ["sum", ["S"], ["V"]], ["sum", ["V"], ["S"]], ["mul", 2, ["V"]], ["mul", 3, ["V"]], ["T", 2, 1], ["T", 1, 2],
             ["prod", ["V"], ["dual", ["V"]], ["V"]], ["prod", ["V"], ["V"], ["dual", ["V"]]], ["V"], ["dual", ["V"]], ["S"]]
    for g in (["SL", 2], ["SO", 3], ["S", 3]):
        for i in range(len(perms)):
            for j in range(i, len(perms)):
                if (i + j) % 3 == 0 or g == ["SL", 2]:
                    yield {"kind": "reps", "group": g, "a": perms[i], "b": perms[j], "seed": i}


@st.composite
def strategy_(draw, tier):
    g = draw(gen.group(POOL))
    d = gen.refg(g).d
    a = draw(gen.rep([d], 40, depth=2))
    how = draw(st.sampled_from(["other", "other", "same", "swap"]))
    if how == "other":
        b = draw(gen.rep([d], 40, depth=2))
    elif how == "same" or len(a) < 3 or a[0] not in ("sum", "prod"):
        b = a
    else:
        b = [a[0]] + a[1:][::-1]
    c = {"kind": "reps", "group": g, "a": a, "b": b, "seed": draw(st.integers(0, 10 ** 6))}
    if draw(st.integers(0, 3)) == 0:
        c["group2"] = draw(gen.group([h for h in POOL if gen.refg(h).d == d]))
    return c


def strategy(tier):
    return strategy_(tier)


def same_ref_group(s1, s2):
    """do the two specs denote the same group with the same base representation?"""
    a, b = gen.refg(s1), gen.refg(s2)
    if s1 == s2:
        return True
    if a.d != b.d or a.cplx != b.cplx:
        return False
    for ast in (["T", 1, 1], ["T", 2, 2]) if a.d <= 3 else (["T", 1, 1],):
        A, B = ref.invariant_basis(ast, [a])[0], ref.invariant_basis(ast, [b])[0]
        if A.shape != B.shape or np.abs(A @ A.conj().T - B @ B.conj().T).max() > 1e-6:
            return False
    return None  # undecided


def eqhash(A, B, what):
    require(A == B and not (A != B), f"{what}: not equal")
    require(hash(A) == hash(B), f"{what}: equal but different hashes")
    require({A: 1}.get(B) == 1 and len({A, B}) == 1, f"{what}: not interchangeable as dictionary keys")


def run_case(case):
    if case["kind"] == "groups":
        objs = [(s, make_group(s)) for s in case["specs"]]
        again = [(s, make_group(s)) for s in case["specs"]]
        for (s, A), (_, B) in zip(objs, again):
            eqhash(A, B, f"two constructions of {s}")
        n = 0
        for i, (s, A) in enumerate(objs):
            for t, B in again[i + 1:]:
                same = same_ref_group(s, t)
                if A == B:
                    n += 1
                    require(same is not False, f"groups {s} and {t} compare equal")
                    require(hash(A) == hash(B), f"{s} and {t} are equal with different hashes")
        return Out(len(objs) > 1, "groups")
    rng = rng_of(case)
    spec = case["group"]
    spec2 = case.get("group2", spec)
    rg, rg2 = gen.refg(spec), gen.refg(spec2)
    G, G2 = make_group(spec), make_group(spec2)
    A, A2, B = make_rep(case["a"], [G]), make_rep(case["a"], [make_group(spec)]), make_rep(case["b"], [G2])
    if isinstance(A, int) or isinstance(B, int):
        raise Discard()
    require(A == A2 and not (A != A2), "the same expression built twice is not equal to itself")
    eqhash(A, A2, "the same expression built twice")
    ct = np.complex64 if rg.cplx else np.float32
    cf = complex if rg.cplx else float
    g = rg.elements(rng, 1, mag=.6)[0].astype(ct)
    desa, desb = ref.desugar(case["a"]), ref.desugar(case["b"])
    na, nb = ref.size(desa, [rg.d]), ref.size(desb, [rg2.d])
    rA = ref.rho(desa, [g.astype(cf)])
    canons = []
    for R, des, n, r_, dd in ((A, desa, na, rg, rA), (B, desb, nb, rg2, None)):
        canon, perm = R.canonicalize()
        perm = np.asarray(perm)
        require(perm.shape == (n,) and (np.sort(perm) == np.arange(n)).all(), f"canonicalize() of a {n}-dimensional "
                f"representation returns {perm.tolist()[:12]}..., not a permutation")
        require(canon.size() == n, "the canonical form has a different size")
        c2, p2 = canon.canonicalize()
        require((np.asarray(p2) == np.arange(n)).all() and c2 == canon, "the canonical form is not canonical")
        hash(canon)
        canons.append((canon, perm))
        if dd is not None:
            K = dense(canon.rho(g))
            require_close(K, dd[np.ix_(perm, perm)], TOL, "the canonical form does not act as the permuted representation", scale=1.0)
    ca = A2.canonicalize()[0]
    eqhash(canons[0][0], ca, "canonical forms of the same expression")
    if spec == spec2:
        if A == B:
            require(na == nb, "equal representations of different sizes")
            rB = ref.rho(desb, [g.astype(cf)])
            require_close(rA, rB, 1e-6, "two representations compare equal but act differently", scale=1.0)
        if A == B:
            require(hash(A) == hash(B), "equal representations with different hashes")
        cA, cB = canons[0][0], canons[1][0]
        if cA == cB:
            require(hash(cA) == hash(cB), "equal canonical forms with different hashes")
            require_close(dense(cA.rho(g)), dense(cB.rho(g)), TOL, "equal canonical forms act differently", scale=1.0)
        if case["a"] == case["b"]:
            require(A == B, "the same expression built twice is not equal")
    elif A == B and gen.leaves(case["a"]) and gen.leaves(case["b"]):
        require(same_ref_group(spec, spec2) is not False, f"representations of {spec} and {spec2} compare equal")
    return Out(gen.leaves(case["a"]) >= 2 and gen.leaves(case["b"]) >= 2, "eq" if A == B else "neq",
               "canon-eq" if canons[0][0] == canons[1][0] else "canon-neq", "fam:" + gen.families(spec))
