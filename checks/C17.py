from vlib.core import *
from hypothesis import strategies as st

RULE = """Three kinds of case.  (system) a linear constraint C with prescribed null space of dimension 0..40, real or complex,
stored densely, as a stack of blocks, as a Kronecker product or as a product of lazy operators, nonzero singular values 0.4..1.6 times a scale:
the library's iterative solver is run on it.  (rep) the iterative solver is run on the constraint matrix of a group x tensor
expression.  (big) equivariant_basis of a sum with terms of 3900 to 8200 components, which the library solves iteratively on its own:
groups generated by permutations of up to 90 points, optionally twisted by signs, complex phases or scales.  Oracle: the prescribed null
space / the exact float64 null space of the reference generators / the orbits of the generators on index tuples.  The number of
solutions, orthonormality and the spanned subspace are compared.  Non-trivial: 0 < nullity < dimension; distinct by case."""
ASSUMPTIONS = ["systems whose smallest nonzero singular value is below 0.3 are discarded (the solver stops at a residual of 1e-5)",
               "the solver starts from random vectors and may report that it did not converge; a case fails only when four starts do so",
               "entries of the basis may deviate from the exact null space by 5e-3 (the tolerance on the residual, divided by the "
               "smallest singular value of the random start)"]
N = {"quick": 120, "thorough": 2500}
BUDGET = {"quick": 90, "thorough": 1500}
TOL = 5e-3


def enumerated(tier):
    for i, (n, m, k, cp) in enumerate([(1, 1, 0, 0), (1, 1, 1, 0), (1, 3, 1, 1), (4, 4, 4, 0), (12, 12, 12, 1), (30, 40, 4, 0), (30, 40, 5, 0),
                                       (30, 40, 9, 0), (30, 40, 10, 0), (30, 40, 11, 1), (40, 40, 19, 0), (40, 60, 20, 0),
                                       (40, 60, 21, 0), (45, 45, 40, 1), (50, 30, 20, 0), (30, 60, 0, 1), (6, 6, 5, 0)]):
        yield {"n": n, "m": m, "k": k, "cplx": cp, "scale": 1.0, "form": ("dense", "stack", "kron", "product")[i % 4], "seed": i}
    for s in (0.5, 3.0, 8.0, 15.0):
        yield {"n": 16, "m": 20, "k": 3, "cplx": 0, "scale": s, "form": "dense", "seed": 5}
    for g, r in ((["O", 2], ["T", 6, 0]), (["Z", 10], ["T", 2, 0]), (["Z", 5], ["T", 1, 1]), (["S", 3], ["T", 3, 1]), (["SO13p"], ["T", 2, 2]),
                 (["SU", 2], ["T", 2, 2]), (["GL", 2], ["T", 2, 2]), (["Sp", 2], ["T", 3, 0]), (["Trivial", 3], ["T", 2, 0])):
        yield {"group": g, "rep": r, "seed": 0}
    big = [([63], "plain", [[2, 0]], "numpy"), ([33, 33], "phase", [[1, 1]], "lazy"), ([8], "plain", [[4, 0]], "numpy"),
           ([16], "sign", [[2, 1], [1, 0]], "numpy"), ([22, 22, 22], "scale", [[0, 2], [0, 1], [1, 0]], "lazy"),
           ([33, 33], "phase", [[2, 0]], "numpy"), ([20, 30, 40], "sign", [[1, 1]], "numpy"), ([64], "phase", [[0, 2], [0, 0], [1, 1]], "numpy")]
    for i, (b, kind, terms, form) in enumerate(big):
        yield {"blocks": b, "kind": kind, "terms": terms, "form": form, "seed": i}


@st.composite
def strategy_(draw, tier):
    kind = draw(st.sampled_from(["system"] * 4 + ["rep"] * 5 + (["big"] if tier == "thorough" else [])))
    seed = draw(st.integers(0, 9999))
    if kind == "system":
        n = draw(st.integers(1, 50))
        return {"n": n, "m": draw(st.integers(1, 70)), "k": draw(st.one_of(st.integers(0, min(n, 12)), st.integers(0, n))),
                "cplx": draw(st.integers(0, 1)), "scale": draw(st.sampled_from([1.0, 1.0, 1.0, 0.6, 2.5, 6.0])),
                "form": draw(st.sampled_from(["dense", "stack", "kron", "product"])), "seed": seed}
    if kind == "rep":
        g = draw(gen.group(gen.WITHCUSTOM, 6)) if draw(st.integers(0, 2)) else draw(gen.custom(3))
        d = gen.refg(g).d
        cap = 90 if tier == "quick" else 300
        p = draw(st.integers(0, 6))
        q = draw(st.integers(0, 6))
        while d ** (p + q) > cap or p + q > 7:
            p, q = (p - 1, q) if p >= q else (p, q - 1)
        if p + q == 0:
            p = 1
        return {"group": g, "rep": ["T", p, q], "seed": seed}
    p, q, lo, hi = draw(st.sampled_from([(2, 0, 63, 85), (1, 1, 63, 85), (0, 2, 63, 85), (3, 0, 16, 19), (2, 1, 16, 19), (1, 2, 16, 19),
                                         (4, 0, 8, 9), (2, 2, 8, 9)]))
    d = draw(st.integers(lo, hi))
    nb = draw(st.integers(1, 3 if p + q == 2 else 1))
    cuts = sorted(draw(st.sampled_from(range(12, d - 11))) for _ in range(nb - 1)) if nb > 1 else []
    blocks = [b - a for a, b in zip([0] + cuts, cuts + [d])]
    if min(blocks) < 12 and nb > 1:
        blocks = [d]
    small = draw(st.lists(st.sampled_from([[1, 0], [0, 1], [0, 0]]), max_size=3))
    return {"blocks": blocks, "kind": draw(st.sampled_from(["plain", "sign", "phase", "scale"])), "terms": draw(st.permutations([[p, q]] + small)),
            "form": draw(st.sampled_from(["numpy", "lazy"])), "seed": seed}


def strategy(tier):
    return strategy_(tier)


def orth(rng, a, b, cp):
    return np.linalg.qr(rng.standard_normal((a, b)) + (1j * rng.standard_normal((a, b)) if cp else 0))[0]


def f32(M):
    import jax.numpy as jnp
    return jnp.asarray(M.astype(np.complex64 if np.iscomplexobj(M) else np.float32))


def system(case):
    from emlp.reps.linear_operator_base import Lazy
    from emlp.reps.linear_operators import ConcatLazy, LazyKron
    rng = rng_of(case)
    n, k, cp, form = case["n"], case["k"], case["cplx"], case["form"]
    m = max(case["m"], n - k)
    rank = n - k
    V = orth(rng, n, n, cp)
    s = rng.uniform(.4, 1.6, rank) * case["scale"]
    if form == "kron":  # C = A (x) B has the null space of dimension n*p - rank*p for invertible B
        A = (orth(rng, m, rank, cp) * s) @ V[:, :rank].conj().T
        B = orth(rng, 2, 2, cp)
        Nl = np.kron(V[:, rank:], np.eye(2))
        return LazyKron([Lazy(f32(A)), Lazy(f32(B))]), Nl
    if form == "product":
        A = (orth(rng, m, rank, cp) * s) @ V[:, :rank].conj().T
        B = orth(rng, n, n, cp)
        return Lazy(f32(A @ B)) @ Lazy(f32(B.conj().T)), V[:, rank:]
    if form == "stack":
        t = 2 + case["seed"] % 2
        A = (orth(rng, t * m, rank, cp) * s) @ V[:, :rank].conj().T
        return ConcatLazy([Lazy(f32(a)) for a in np.split(A, t)]), V[:, rank:]
    return Lazy(f32((orth(rng, m, rank, cp) * s) @ V[:, :rank].conj().T)), V[:, rank:]


def solve(f, case):
    """The result of a solver that starts from random vectors and may announce that it failed."""
    from emlp.reps.representation import ConvergenceError
    for i in range(4):
        np.random.seed((case["seed"] * 7919 + i) % 2 ** 31)
        try:
            return f()
        except (AssertionError, ConvergenceError) as e:
            last = e
    raise Violation(f"no solution from four random starts: {type(last).__name__}: {last}"[:250])


def compare(Q, B, n):
    Q = np.asarray(Q)
    require(Q.ndim == 2 and Q.shape[0] == n, f"solutions of a {n}-dimensional problem have shape {Q.shape}")
    require(Q.shape[1] == B.shape[1], f"{Q.shape[1]} solutions found, the solution space has dimension {B.shape[1]}")
    require_close(Q.conj().T @ Q, np.eye(Q.shape[1]), 5e-4, "solutions are not orthonormal", scale=1.0)
    require_close(B @ (B.conj().T @ Q), Q, TOL, "a returned vector is no solution", scale=1.0)
    require_close(Q @ (Q.conj().T @ B), B, TOL, "a solution is not in the span of the result", scale=1.0)


def run_case(case):
    from emlp.reps.representation import krylov_constraint_solve
    if "n" in case:
        C, B = system(case)
        if not 0.5 <= case["scale"] <= 3:  # a badly scaled problem may be refused, but not answered wrongly
            try:
                Q = solve(lambda: krylov_constraint_solve(C), case)
            except Violation:
                return Out(False, "refused")
        else:
            Q = solve(lambda: krylov_constraint_solve(C), case)
        compare(Q, B, C.shape[1])
        return Out(0 < B.shape[1] < C.shape[1], "system:" + case["form"], "complex" if case["cplx"] else "real",
                   "nullity:%s" % ("0" if not B.shape[1] else "1-9" if B.shape[1] < 10 else "10+"), "scale:%g" % case["scale"])
    if "group" in case:
        c = setup(case)
        B, gap = ref.invariant_basis(c.ast, c.refs)
        C = c.R.constraint_matrix()
        sv = np.linalg.svd(dense(C).astype(complex), compute_uv=False)
        if gap < .05 or ((sv > 1e-4) & (sv < .3)).any() or sv.max() > 12:
            raise Discard()
        compare(solve(lambda: krylov_constraint_solve(C), case), B, c.n)
        return Out(0 < B.shape[1] < c.n, *labels(case), "rep", "complex" if c.cplx else "real",
                   "nullity:%s" % ("0" if not B.shape[1] else "1-9" if B.shape[1] < 10 else "10+"))
    return big(case)


def monomial(case):
    """Two generators h e_i = c_i e_p(i) as a list of (p, c)."""
    rng = rng_of({k: case[k] for k in ("blocks", "kind", "seed")})
    d = sum(case["blocks"])
    D = {"plain": np.ones(d), "sign": np.ones(d), "phase": np.exp(2j * np.pi * rng.random(d)), "scale": rng.uniform(.9, 1.1, d)}[case["kind"]]
    out = []
    for _ in range(2):
        p, off = [], 0
        for b in case["blocks"]:
            p += list(off + rng.permutation(b))
            off += b
        p = np.array(p)
        c = D[p] / D
        if case["kind"] == "sign":
            c = c * rng.choice([-1, 1], d)
        out.append((p, c))
    return out


def tensor_invariants(gens, d, p, q):
    """Orbit by orbit solution of x[P(i)] = c(i) x[i] for index tuples i."""
    N = d ** (p + q)
    maps = []
    for perm, c in gens:
        P, Cf = np.zeros(1, int), np.ones(1)
        for j in range(p + q):
            cj = c if j < p else 1 / c
            P = (P[:, None] * d + perm[None]).reshape(-1)
            Cf = (Cf[:, None] * cj[None]).reshape(-1)
        maps.append((P, Cf))
    inv = []
    for P, Cf in maps:
        Pi = np.argsort(P)
        inv.append((Pi, 1 / Cf[Pi]))
    maps += inv
    maps = [(P.tolist(), Cf.tolist()) for P, Cf in maps]
    seen = [None] * N
    sols = []
    for s in range(N):
        if seen[s] is not None:
            continue
        seen[s] = 1.0
        comp, ok = [s], True
        for i in comp:
            xi = seen[i]
            for P, Cf in maps:
                j, v = P[i], Cf[i] * xi
                if seen[j] is None:
                    seen[j] = v
                    comp.append(j)
                elif abs(seen[j] - v) > 1e-6 * max(1, abs(v)):
                    ok = False
        if ok:
            x = np.zeros(N, complex)
            x[comp] = [seen[i] for i in comp]
            sols.append(x / np.linalg.norm(x))
    return np.array(sols).reshape(len(sols), N).T


_groups = {}


def big(case):
    import emlp.groups as G
    from emlp.reps import T, Scalar
    from emlp.reps.linear_operator_base import Lazy
    gens = monomial(case)
    d = sum(case["blocks"])
    mats = []
    for p, c in gens:
        M = np.zeros((d, d), complex if np.iscomplexobj(c) else float)
        M[p, np.arange(d)] = c
        mats.append(f32(M))
    form = case["form"]

    class Monomial(G.Group):
        def __init__(self, key):
            self.discrete_generators = [Lazy(M) for M in mats] if form == "lazy" else np.stack([np.asarray(M) for M in mats])
            super().__init__(key)
    g = Monomial(repr([case[k] for k in ("blocks", "kind", "form", "seed")]))
    R, Bs = None, []
    for p, q in case["terms"]:
        t = T(p, q, g)
        R = t if R is None else R + t
        Bs.append(np.ones((1, 1)) if p + q == 0 else tensor_invariants(gens, d, p, q))
    n = sum(b.shape[0] for b in Bs)
    B = np.zeros((n, sum(b.shape[1] for b in Bs)), complex)
    i = j = 0
    for b in Bs:
        B[i:i + b.shape[0], j:j + b.shape[1]] = b
        i, j = i + b.shape[0], j + b.shape[1]

    def basis():
        T_ = R.equivariant_basis()
        return dense(T_)
    Q = solve(basis, case)
    compare(Q, B, n)
    x = rng_of(case, "x").standard_normal(n).astype(np.float32)
    require_close(np.asarray(R.equivariant_projector() @ f32(x)), B @ (B.conj().T @ x), 2e-2, "projection onto the solutions", scale=1.0)
    return Out(0 < B.shape[1] < n, "big:" + case["kind"], "rank%d" % sum(max(case["terms"], key=sum)), "blocks:%d" % len(case["blocks"]),
               "terms:%d" % len(case["terms"]), "nullity:%s" % ("0" if not B.shape[1] else "1-9" if B.shape[1] < 10 else "10+"))
