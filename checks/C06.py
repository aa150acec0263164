from vlib.core import *
from hypothesis import strategies as st

RULE = """Cases are (expression, two groups of possibly different dimension, seed).  The expression is written once without
a group and instantiated with both groups in turn (and the first again), and once directly over each group; what is
already bound is also bound again to either group (an assertion is accepted when the dimensions differ): sizes, group
action, number of solutions, component iteration and the dictionary view must agree with each other and with the
reference evaluation.  A second family of cases checks the algebraic laws between two expressions (multiples, powers,
integers as scalars, maps, dual of dual).  Non-trivial: at least two factors or summands; distinct by case."""
ASSUMPTIONS = ["the reading of the operators in vlib/ref.py is the intended one (order as written, row major products)"]
N = {"quick": 300, "thorough": 4000}
TOL = 3e-4
SMALL = [g for g in gen.REAL + gen.CUSTOM if gen.refg(g).d <= 4 and not gen.refg(g).cplx]

EXPRS = [["sum", ["V"], ["int", 2]], ["sum", ["int", 3], ["V"], ["dual", ["V"]]], ["T", 2, 1], ["mul", 3, ["T", 1, 1]],
         ["prod", ["sum", ["V"], ["S"]], ["sum", ["dual", ["V"]], ["V"], ["S"]]], ["pow", ["sum", ["V"], ["S"]], 2],
         [">>", ["sum", ["V"], ["V"]], ["sum", ["S"], ["T", 1, 1]]], ["dual", ["sum", ["T", 2, 0], ["V"]]],
         ["dual", ["prod", ["V"], ["dual", ["V"]]]], ["rmul", ["sum", ["S"], ["V"]], 2], ["<<", ["V"], ["sum", ["V"], ["V"]]],
         ["dual", ["dual", ["T", 1, 1]]], ["sum", ["T", 0, 0], ["T", 0, 2], ["T", 2, 0], ["T", 1, 1]],
         ["prod", ["S"], ["V"], ["S"]], ["pow", ["V"], 0], ["sum", ["S"], ["S"]], ["mul", 4, ["S"]],
         ["sum", ["V"], ["S"], ["V"], ["S"], ["V"]], ["prod", ["V"], ["dual", ["V"]], ["V"]],
         ["sum", ["prod", ["V"], ["dual", ["V"]]], ["mul", 2, ["V"]], ["prod", ["dual", ["V"]], ["V"]]]]


def enumerated(tier):
    for i, e in enumerate(EXPRS):
        for a, b in ((["SO", 3], ["SL", 2]), (["GL", 2], ["S", 4]), (["O13"], ["D", 3]), (["S", 3], ["SO11p"])):
            yield {"kind": "late", "groups2": [a, b], "rep": e, "seed": i}
    for g in (["SL", 2], ["S", 3], ["SO", 3], ["U", 2]):
        for i in range(0, len(EXPRS), 2):
            yield {"kind": "laws", "group": g, "rep": EXPRS[i], "rep2": EXPRS[(i + 5) % 4], "k": 1 + i % 4, "seed": i}


@st.composite
def strategy_(draw, tier):
    seed = draw(st.integers(0, 10 ** 6))
    if draw(st.booleans()):
        a, b = draw(gen.group(SMALL)), draw(gen.group(SMALL))
        if draw(st.booleans()):
            b = draw(st.sampled_from([g for g in SMALL if gen.refg(g).d == gen.refg(a).d]))
        d = max(gen.refg(a).d, gen.refg(b).d)
        r = draw(gen.rep([d], 60))
        return {"kind": "late", "groups2": [a, b], "rep": r, "seed": seed}
    g = draw(gen.group(SMALL + [["U", 2], ["SU", 2]]))
    d = gen.refg(g).d
    return {"kind": "laws", "group": g, "rep": draw(gen.rep([d], 12, depth=2)), "rep2": draw(gen.rep([d], 6, depth=2)),
            "k": draw(st.integers(1, 4)), "seed": seed}


def strategy(tier):
    return strategy_(tier)


def same_rho(A, B, g, what, n=None):
    a, b = dense(A.rho(g)), dense(B.rho(g))
    require_close(a, b, TOL, what, scale=1.0)


def elements(rg, rng, cplx):
    ct = np.complex64 if cplx else np.float32
    out = [g.astype(ct) for g in rg.elements(rng, 3, mag=.7)]
    return [g for g in out if np.abs(g).max() < 20] or [np.eye(rg.d, dtype=ct)]


def check_views(R, ast, rg, g, rng):
    """iteration, len, as_dict of a direct sum"""
    if not hasattr(R, "as_dict"):
        return False
    parts = list(R)
    require(len(parts) == len(R), f"len() is {len(R)} but iteration yields {len(parts)} components")
    n = R.size()
    require(sum(p.size() for p in parts) == n, "component sizes do not add up to the size of the sum")
    v = rng.standard_normal((2, n)).astype(np.float32)
    d1 = R.as_dict(v)
    gv = (dense(R.rho(g)) @ v.T).T
    d2 = R.as_dict(np.asarray(gv))
    tot = 0
    for rep, block in d1.items():
        block = np.asarray(block)
        require(block.shape[0] == 2 and block.shape[-1] == rep.size(), f"as_dict block of shape {block.shape} for {rep}")
        tot += block.shape[1] * block.shape[2]
        rho = dense(rep.rho(g))
        require_close(np.einsum("ij,bcj->bci", rho, block), np.asarray(d2[rep]), TOL,
                      f"the components listed under {rep} do not transform by it", scale=1.0)
    require(tot == n, "as_dict drops or repeats components")
    allv = np.sort(np.concatenate([np.asarray(b).reshape(2, -1) for b in d1.values()], -1), -1)
    require_close(allv, np.sort(v, -1), 1e-6, "as_dict changes the values")
    return True


def run_case(case):
    from emlp.reps import V, T, Scalar
    rng = rng_of(case)
    ast = case["rep"]
    asts = ref.desugar(ast)
    if case["kind"] == "late":
        abs_ = make_abstract(ast)
        if isinstance(abs_, int):
            raise Discard()
        seq = [case["groups2"][0], case["groups2"][1], case["groups2"][0]]
        insts = []
        for spec in seq:
            rg, G = gen.refg(spec), make_group(spec)
            R = abs_(G)
            insts.append((R, rg, G, spec))
        rebound = {"refused": 0, "done": 0}
        for R, rg, G, spec in insts:
            n = ref.size(asts, [rg.d])
            require(R.size() == n, f"late-bound size {R.size()}, expected {n}")
            C = make_rep(ast, [G])
            if not isinstance(C, int):
                require(C.size() == n, f"directly bound size {C.size()}, expected {n}")
            g = elements(rg, rng, rg.cplx)[0]
            want = ref.rho(asts, [g.astype(complex if rg.cplx else float)])
            require_close(dense(R.rho(g)), want, TOL, "late-bound rho", scale=1.0)
            if not isinstance(C, int):
                require_close(dense(C.rho(g)), want, TOL, "directly bound rho", scale=1.0)
            check_views(R, ast, rg, g, rng)
            for what, X in (("late-bound", R), ("directly bound", C)):  # binding again what is already bound
                if isinstance(X, int):
                    continue
                for spec2 in seq[:2]:
                    rg2 = gen.refg(spec2)
                    if (spec2 != spec and rg.orthogonal and not rg2.orthogonal and
                                         gen.heads(ast) & {"dual", ">>", "<<", "T"}):
                        continue  # over an orthogonal group duals are not kept
                    n2 = ref.size(asts, [rg2.d])
                    try:
                        X2 = X(make_group(spec2))
                    except AssertionError:
                        if rg2.d == rg.d:
                            raise
                        rebound["refused"] += 1  # not every bound expression fits another dimension
                        continue
                    rebound["done"] += rg2.d != rg.d
                    require(X2.size() == n2, f"{what} expression bound again: size {X2.size()}, expected {n2}")
                    g2 = elements(rg2, rng, rg2.cplx)[0]
                    require_close(dense(X2.rho(g2)), ref.rho(asts, [g2.astype(complex if rg2.cplx else float)]), TOL,
                                  f"rho of the {what} expression bound again to {spec2}", scale=1.0)
            A = R.T
            require(A.size() == n, "the dual changes the size")
            require_close(dense(A.rho(g)), ref.inv_t(want), TOL * 3, "dual of the representation", scale=1.0)
            if not isinstance(C, int):
                require_close(dense(C.T.rho(g)), ref.inv_t(want), TOL * 3, "dual of the directly bound representation", scale=1.0)
                require_close(dense(C.T.T.rho(g)), want, TOL * 3, "dual of the dual", scale=1.0)
            if n <= 40:
                B, gap = ref.invariant_basis(asts, [rg])
                if gap > 1e-5:
                    Q = dense(R.equivariant_basis())
                    require(Q.shape == (n, B.shape[1]), f"late-bound basis shape {Q.shape}, expected {(n, B.shape[1])}")
                    require_close(Q @ Q.conj().T, B @ B.conj().T, 5e-4, "late-bound solution space", scale=1.0)
        return Out(gen.leaves(ast) >= 2, "late", *["rebound to another dimension: " + k for k in rebound if rebound[k]], *[f"op:{h}" for h in gen.heads(ast)])
    rg, G = gen.refg(case["group"]), make_group(case["group"])
    A, B = make_rep(ast, [G]), make_rep(case["rep2"], [G])
    if isinstance(A, int) or isinstance(B, int):
        raise Discard()
    k = case["k"]
    g = elements(rg, rng, rg.cplx)[0]
    nA, nB = A.size(), B.size()
    laws = [("k*A = A+...+A", k * A, lambda: sum([A] * k)), ("A*k = k*A", A * k, lambda: k * A),
            ("A+0 = A", A + 0, lambda: A), ("0+A = A", 0 + A, lambda: A),
            ("A+k = A + k scalars", A + k, lambda: A + k * Scalar), ("k+A = k scalars + A", k + A, lambda: k * Scalar + A),
            ("A>>B = B*A.T", A >> B, lambda: B * A.T), ("B<<A = A>>B", B << A, lambda: A >> B),
            ("Scalar*A = A", Scalar * A, lambda: A), ("A*Scalar = A", A * Scalar, lambda: A),
            ("A**1 = A", A ** 1, lambda: A), ("(A*B).T = A.T*B.T", (A * B).T, lambda: A.T * B.T),
            ("(A+B).T = A.T+B.T", (A + B).T, lambda: A.T + B.T), ("A.T.T = A", A.T.T, lambda: A)]
    if nA * nA <= 150:
        laws.append(("A**2 = A*A", A ** 2, lambda: A * A))
    for what, L, rf in laws:
        Rr = rf()
        require(L.size() == Rr.size(), f"{what}: sizes {L.size()} and {Rr.size()}")
        same_rho(L, Rr, g, what)
    S = A + B
    require(S.size() == nA + nB and (A * B).size() == nA * nB, "sizes of sum and product")
    gd = g.astype(complex if rg.cplx else float)
    require_close(dense(S.rho(g)), ref.bdiag([ref.rho(asts, [gd]), ref.rho(ref.desugar(case["rep2"]), [gd])]), TOL,
                  "rho of a sum", scale=1.0)
    require_close(dense((A * B).rho(g)), np.kron(ref.rho(asts, [gd]), ref.rho(ref.desugar(case["rep2"]), [gd])), TOL,
                  "rho of a product", scale=1.0)
    check_views(S, None, rg, g, rng)
    if hasattr(A * B, "as_dict"):
        check_views(A * B, None, rg, g, rng)
    p, q = k % 3, (k + 1) % 2
    if rg.d ** (p + q) <= 100:
        X, Y = T(p, q, G), (V ** p * V.T ** q)(G)
        require(X.size() == rg.d ** (p + q), f"T({p},{q}) has size {X.size()}")
        same_rho(X, Y, g, "T(p,q,G) and (V**p*V.T**q)(G)")
        same_rho(X, T(p, q)(G), g, "T(p,q,G) and T(p,q)(G)")
    return Out(gen.leaves(ast) + gen.leaves(case["rep2"]) >= 2, "laws", "fam:" + gen.families(case["group"]))
