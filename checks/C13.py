from vlib.core import *
from hypothesis import strategies as st

RULE = """Cases are (group, number of samples, random seed) over shipped, embedded, product and user-defined groups.  Every
sample must be a matrix of the group (isometry and determinant conditions of the definition, membership in the exactly
enumerated finite group, and fixing every invariant tensor of the reference model); the samples together must not be
confined to a smaller group: vectors fixed by all samples are exactly the invariants, and samples of a small finite
group generate it.  Non-trivial: the group is not trivial; distinct by case."""
ASSUMPTIONS = ["sampling is random but not necessarily uniform; 24 or more samples of a group generate a dense enough set",
               "samples with entries above 30 are judged relative to their size"]
N = {"quick": 280, "thorough": 4000}
POOL = gen.WITHCUSTOM + [["RubiksCube"], ["S", 9], ["SO", 7], ["SU", 4], ["GL", 4]]


def enumerated(tier):
    for i, g in enumerate(POOL):
        yield {"group": g, "n": 24 if i % 2 else 31, "seed": i}


def strategy(tier):
    return st.builds(lambda g, n, s: {"group": g, "n": n, "seed": s},
                     st.one_of(gen.group(POOL), gen.group(POOL), gen.custom(4),
                               st.sampled_from([["C", 7], ["C", 9], ["D", 8], ["D", 9], ["C", 12], ["Z", 9], ["S", 8], ["SO", 6], ["DkeR3", 6]])),
                     st.sampled_from([1, 2, 3, 24, 24, 40]), st.integers(0, 10 ** 6))


_fin = {}


def finite_elements(spec, rg):
    k = str(spec)
    if k not in _fin:
        n, els = (None, None)
        if not rg.lie and not (rg.order is not None and rg.order > 1500):
            n, els = ref.closure_order(rg.disc or [np.eye(rg.d)], 1500)
        _fin[k] = els
    return _fin[k]


_inv = {}


def invariants(spec, rg, ast):
    k = str((spec, ast))
    if k not in _inv:
        _inv[k] = ref.invariant_basis(ast, [rg])
    return _inv[k]


def run_case(case):
    spec, n = case["group"], case["n"]
    rg, G = gen.refg(spec), make_group(spec)
    d = rg.d
    gs = np.asarray(G.samples(n))
    require(gs.shape == (n, d, d), f"samples({n}) has shape {gs.shape} for a group of dimension {d}")
    one = np.asarray(G.sample())
    require(one.shape == (d, d), f"sample() has shape {one.shape}")
    gs = np.concatenate([gs, one[None]])
    require(np.isfinite(gs).all(), "a sample is not finite")
    gs = gs.astype(complex if rg.cplx or np.iscomplexobj(gs) else float)
    if not rg.cplx and np.iscomplexobj(gs):
        require(np.abs(gs.imag).max() < 1e-5, "samples of a real group are complex")
        gs = gs.real
    size = np.abs(gs).max((1, 2))
    gs, size = gs[size < 1000], size[size < 1000]
    if not len(gs):
        raise Discard()
    E = finite_elements(spec, rg)
    for g, s in zip(gs, size):
        if E is not None:
            F = np.stack(E)
            dist = np.abs(F - g).max((1, 2)).min()
            require(dist < 2e-3, f"a sample of {spec} is not an element of the group (distance {dist:.3g})")
        elif rg.member is not None and s < 30:
            require(rg.member(g), f"a sample of {spec} is not an element of the group", sample=g.tolist())
    moved = np.abs(gs - np.eye(d)).max() > 1e-3
    trivial = (E is not None and len(E) == 1) or \
        not any(np.abs(A).max() > 1e-9 for A in rg.lie) and not any(np.abs(h - np.eye(d)).max() > 1e-9 for h in rg.disc)
    asts = [["V"], ["T", 1, 1], ["T", 2, 0]] + ([["T", 0, 2], ["T", 3, 0]] if d <= 3 else []) if d <= 9 else [["V"]]
    ok = gs[size < 30]
    sd = gs.std(0).max() if n >= 24 else 1
    for ast in asts:
        B, gap = invariants(spec, rg, ast)
        if gap < 1e-4:
            continue
        m = B.shape[0]
        M = np.zeros((m, m), dtype=complex)
        for g in ok:
            r = ref.rho(ref.desugar(ast), [g])
            s = max(1.0, np.abs(r).sum(1).max())
            dev = np.abs(r @ B - B).max() / s if B.size else 0
            require(dev < 1e-3, f"a sample of {spec} moves an invariant of {ast}: {dev:.3g}")
            C = (r - np.eye(m)) / s
            M += C.conj().T @ C
        if len(ok) >= 24 and not trivial and B.shape[1] < m:
            w = np.linalg.eigvalsh(M)
            require(w[B.shape[1]] > 1e-6, f"all samples of {spec} leave more invariant than the group does ({ast})", eigenvalues=w[:B.shape[1] + 2])
    if n >= 24 and not trivial:
        require(moved and sd > 1e-3, f"all {n} samples of {spec} are the same")
        if E is not None and len(E) <= 200 and rg.disc:
            distinct = []
            for g in gs:
                if not any(np.abs(g - h).max() < 2e-3 for h in distinct):
                    distinct.append(g)
            snapped = [E[int(np.abs(np.stack(E) - g).max((1, 2)).argmin())] for g in distinct]
            k, _ = ref.closure_order(snapped, 1500)
            require(k == len(E), f"{n} samples of {spec} generate a subgroup of order {k} of a group of order {len(E)}")
    return Out(not trivial, "fam:" + gen.families(spec), "grp:" + spec[0], "finite" if E is not None else "continuous", "n:%d" % n)
