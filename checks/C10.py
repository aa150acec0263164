from vlib.core import *
from vlib import linop
from hypothesis import strategies as st

RULE = """Cases are (operator expression, seed, jit): random trees of sums, differences, scalings (real, complex, either
side), products, powers, transposes, adjoints, inverse transposes, Kronecker products and sums, direct sums with
multiplicities and concatenations over dense, user-defined and structured leaves.  Shape, densification, products with
vectors, columns and matrices, adjoint products and transposes are compared with the same expression over float64
matrices; operands of the wrong size must be refused.  Non-trivial: at least three nodes and a matrix that is not a
multiple of the identity; distinct by case."""
ASSUMPTIONS = ["float32 arithmetic: deviations up to 5e-4 of the size of the product of the operand norms are rounding",
               "inverse transposes only of expressions whose reference condition number is below 50"]
N = {"quick": 560, "thorough": 6000}
TOL = 5e-4
BUDGET = {"quick": 100, "thorough": 1500}


def enumerated(tier):
    L = lambda m, n, s, k="f": ["lazy", m, n, s, k]
    for k in "fci":
        a, b, r = L(3, 3, 1, k), L(3, 3, 2, "f"), L(2, 3, 3, k)
        for i, e in enumerate([["+", a, b], ["-", a, b], ["neg", r], ["scale", [1., 2.], r], ["rscale", -3, r], ["@", r, a],
                               ["*", a, ["T", r]], ["pow", a, 0], ["pow", a, 1], ["pow", a, 3], ["T", ["@", r, a]],
                               ["H", ["@", r, a]], ["invT", ["@", a, b]], ["invT", ["scale", 2, a]], ["invT", ["+", a, b]],
                               ["invT", ["pow", a, 2]], ["invT", ["kron", a, b]], ["invT", ["dsum", [a, b], [1, 2]]],
                               ["H", ["scale", [0., 1.], a]], ["T", ["pow", a, 2]], ["H", ["H", r]], ["T", ["H", r]],
                               ["T", ["custom", 2, 3, 4, k]], ["H", ["mv", 2, 3, 4, k]], ["H", ["mm", 2, 3, 4, k]],
                               ["T", ["concat", r, ["dense", 2, 3, 1, k]]], ["H", ["kronsum", a, b]],
                               ["@", ["H", r], ["+", r, ["dense", 2, 3, 5, "f"]]],
                               ["invT", ["-", a, ["scale", .5, b]]], ["invT", ["neg", a]]]):
            yield {"op": e, "seed": i, "jit": 0}


def strategy(tier):
    dims = st.integers(1, 6)
    d = 3 if tier == "quick" else 4
    return st.tuples(dims, dims).flatmap(
        lambda mn: st.builds(lambda op, s, j: {"op": op, "seed": s, "jit": int(j == 0)},
                             linop.tree(mn[0], mn[0] if mn[1] == 6 else mn[1], d), st.integers(0, 999), st.integers(0, 7)))


def absd(a):
    """a bound for the rounding of the expression: the same expression with absolute values"""
    t = a[0]
    s = lambda b: absd(b)
    if t in ("+", "-"):
        return s(a[1]) + s(a[2])
    if t == "neg":
        return s(a[1])
    if t in ("scale", "rscale"):
        return abs(linop.scalar(a[1])) * s(a[2])
    if t in ("@", "*"):
        return s(a[1]) * s(a[2])
    if t == "pow":
        return max(1.0, s(a[1]) ** a[2])
    if t in ("T", "H"):
        return s(a[1])
    if t == "invT":
        M = linop.evald(a[1])
        return np.linalg.norm(np.linalg.inv(M)) * np.linalg.cond(M) * max(1.0, s(a[1]) / max(1e-9, np.linalg.norm(M, 2)))
    if t == "kron":
        return float(np.prod([s(b) for b in a[1:]]))
    if t == "kronsum":
        return sum(s(b) for b in a[1:])
    if t == "dsum":
        return sum(s(b) for b in a[1])
    if t == "concat":
        return sum(s(b) for b in a[1:])
    return max(1.0, float(np.linalg.norm(linop.evald(a))))


def check_operator(M, D, scale, rng, jit=False, lazy=True):
    import jax
    m, n = D.shape
    require(tuple(M.shape) == (m, n), f"operator has shape {M.shape}, its matrix has shape {(m, n)}")
    close = lambda got, want, what: require_close(np.asarray(got) / scale, want / scale, TOL, what, scale=1.0)
    V = rng.standard_normal((n, 3)).astype(np.float32)
    if np.iscomplexobj(D) and np.abs(D.imag).max() > 0:
        V = (V + 1j * rng.standard_normal((n, 3))).astype(np.complex64)
    v = V[:, 0]
    close(M @ v, D @ v, "operator times vector")
    close(M @ V, D @ V, "operator times matrix")
    close(M @ V[:, :1], D @ V[:, :1], "operator times column")
    close(dense(M), D, "dense form")
    if not lazy:
        return
    close(M.to_dense(), D, "to_dense")
    close(M * v, D @ v, "operator * vector")
    close(M(V), D @ V, "operator called on a matrix")
    close(M.dot(v), D @ v, "dot")
    close(M.matvec(v), D @ v, "matvec")
    close(M.matvec(V[:, :1]), D @ V[:, :1], "matvec of a column")
    close(M.matmat(V), D @ V, "matmat")
    U = rng.standard_normal((m, 2)).astype(np.float32)
    if V.dtype == np.complex64:
        U = (U + 1j * rng.standard_normal((m, 2))).astype(np.complex64)
    u = U[:, 0]
    DH, DT = D.conj().T, D.T
    H, T = M.H, M.T
    require(tuple(H.shape) == (n, m) and tuple(T.shape) == (n, m), f"transposes of a {(m, n)} operator have shapes {H.shape} {T.shape}")
    close(H @ u, DH @ u, "adjoint times vector")
    close(H @ U, DH @ U, "adjoint times matrix")
    close(H @ U[:, :1], DH @ U[:, :1], "adjoint times column")
    close(T @ u, DT @ u, "transpose times vector")
    close(T @ U, DT @ U, "transpose times matrix")
    close(M.rmatvec(u), DH @ u, "rmatvec")
    close(M.rmatmat(U), DH @ U, "rmatmat")
    close(dense(H), DH, "dense adjoint")
    close(dense(T), DT, "dense transpose")
    close(H.H @ v, D @ v, "adjoint of the adjoint")
    close(T.T @ v, D @ v, "transpose of the transpose")
    if jit:
        close(jax.jit(lambda x: M @ x)(v), D @ v, "operator times vector under jit")
        close(jax.jit(lambda x: M.T @ x)(U), DT @ U, "transpose times matrix under jit")
        close(np.asarray(jax.vmap(lambda x: M @ x)(V.T)).T, D @ V, "operator times vector under vmap")
        if V.dtype == np.float32:
            g = jax.grad(lambda x: ((M @ x) * u).real.sum())(v)
            close(g, DT @ u, "gradient of a bilinear form of the operator")
    for bad, f in ((np.zeros(n + 1, np.float32), M.__matmul__), (np.zeros((n + 1, 2), np.float32), M.__matmul__),
                   (np.zeros(m + 1, np.float32), M.rmatvec), (np.zeros((m + 1, 2), np.float32), M.rmatmat)):
        try:
            r = f(bad)
        except Exception:
            continue
        raise Violation(f"an operand of shape {bad.shape} is accepted by a {(m, n)} operator (result of shape {np.shape(r)})")


def refuse(f, what):
    try:
        f()
    except Exception:
        return
    raise Violation(what)


def run_case(case):
    a = case["op"]
    rng = rng_of(case)
    D = linop.evald(a)
    scale = absd(a)
    if not np.isfinite(scale) or scale > 1e7 or D.size > 1500:
        raise Discard()
    M = linop.build(a)
    from emlp.reps.linear_operator_base import LinearOperator, Lazy
    lazy = isinstance(M, LinearOperator)
    check_operator(M, D, scale, rng, case["jit"], lazy)
    if lazy:
        m, n = D.shape
        other = Lazy(np.zeros((n + 1, m + 2), np.float32))
        refuse(lambda: M @ other, "product of operators whose dimensions do not match")
        refuse(lambda: M + other, "sum of operators of different shapes")
        if m != n:
            refuse(lambda: M ** 2, "power of a rectangular operator")
        refuse(lambda: M @ 2.0, "scalar operand of @")
        if m == n:
            refuse(lambda: M ** -1, "negative power")
    isI = D.shape[0] == D.shape[1] and np.allclose(D, D[0, 0] * np.eye(len(D)))
    return Out(linop.count(a) >= 3 and not isI, *["op:" + o for o in sorted(linop.ops_of(a))], "jit" if case["jit"] else "",
               "complex" if np.abs(np.imag(D)).max() > 0 else "real")
