from vlib.core import *
from vlib import linop
from checks.C10 import check_operator, absd
from hypothesis import strategies as st

RULE = """Cases are one structured operator (Kronecker product or sum of up to five dense or lazy, square or rectangular
factors, direct sum with multiplicities, concatenation, permutation, cyclic shift, row swap, quarter turn, identity,
directional derivative of an operator valued function) of dimension up to about 200, and operands of every layout.  Its
action, adjoint, transpose, inverse transpose, densification, shape and behaviour under jit / vmap / grad are compared with
the explicitly written matrix.  Non-trivial: not a multiple of the identity; distinct by case."""
ASSUMPTIONS = ["float32 arithmetic: deviations up to 5e-4 of the size of the product of the operand norms are rounding",
               "row swaps exchange two different rows"]
N = {"quick": 320, "thorough": 6000}
TOL = 5e-4
BUDGET = {"quick": 100, "thorough": 1500}


def enumerated(tier):
    out = []
    for n in range(1, 8):
        out += [["I", n], ["perm", n, n], ["perm", n, n + 50]]
        out += [["shift", n, k] for k in (1, 0, -1, 2, n, n + 1)]
        out += [["rot", n, k] for k in range(-1, 5)]
        out += [["swap", n, i, (i + 1 + j) % n] for i in range(n) for j in range(min(2, n - 1)) if n > 1]
    A = lambda m, n, s, k="f", t="lazy": [t, m, n, s, k]
    out += [["kron", A(2, 3, 1), A(3, 2, 2, "c"), A(1, 4, 3, "f", "dense")], ["kron", A(2, 3, 1)],
            ["kron", A(2, 2, 1, "f", "dense"), ["perm", 3, 1], ["shift", 2, 1]],
            ["kron", ["kron", A(2, 2, 1), A(3, 3, 2)], ["rot", 2, 1]],
            ["kronsum", A(2, 2, 1), A(3, 3, 2, "c"), A(2, 2, 3, "f", "dense")], ["kronsum", A(2, 2, 1), A(2, 2, 4), A(2, 2, 3), A(2, 2, 9)],
            ["kronsum", A(3, 3, 1), ["kron", A(2, 2, 1), A(2, 2, 2)]],
            ["dsum", [A(2, 3, 1)], [3]], ["dsum", [A(2, 3, 1), A(3, 1, 2, "f", "dense"), A(1, 1, 4)], [2, 1, 3]],
            ["dsum", [A(2, 2, 1, "c", "dense"), ["perm", 3, 1]], [1, 2]], ["dsum", [A(1, 1, 1)], [1]],
            ["concat", A(2, 3, 1), A(2, 3, 2, "c"), A(2, 3, 3, "f", "dense")], ["concat", A(1, 1, 1)]]
    for i, e in enumerate(out):
        yield {"op": e, "seed": i, "jit": int(i % 5 == 0)}
    for i, e in enumerate([x for x in out if x[0] in ("perm", "shift", "swap", "rot", "I") or
                           x[0] in ("kron", "dsum") and linop.has_invT(x)]):
        if linop.is_sq(e) and np.linalg.cond(linop.evald(e)) < 100:
            yield {"op": ["invT", e], "seed": i, "jit": 0}
    for g, r in ((["SO", 2], ["T", 2, 0]), (["SO", 3], ["sum", ["V"], ["T", 1, 1]]), (["SL", 2], ["T", 1, 1]), (["O13"], ["dual", ["V"]]),
                 (["SU", 2], ["V"])):
        yield {"jvp": g, "rep": r, "seed": 1}


@st.composite
def strategy_(draw, tier):
    big = 1 if tier == "quick" else 2
    seed = draw(st.integers(0, 9999))
    k = draw(st.sampled_from(["kron", "kron", "kronsum", "kronsum", "dsum", "dsum", "dsum", "concat", "perm", "shift", "swap", "rot",
                              "invT", "invT", "jvp"]))
    fac = lambda m, n: draw(linop.leaf(m, n, arrays=True)) if draw(st.integers(0, 5)) else \
        draw(linop.tree(m, n, 1, arrays=True))
    op = None
    if k == "jvp":
        g = draw(st.sampled_from([h for h in gen.CONT + gen.NONCOMPACT + gen.COMPLEX if gen.refg(h).lie and gen.refg(h).d <= 4]))
        return {"jvp": g, "rep": draw(gen.rep([gen.refg(g).d], 30, depth=2)), "seed": seed}
    if k in ("kron", "kronsum"):
        q = draw(st.integers(1, 5))
        fs, m, n = [], 1, 1
        for _ in range(q):
            a = draw(st.integers(1, 5))
            b = a if k == "kronsum" else draw(st.integers(1, 5))
            if m * a > 120 * big or n * b > 120 * big:
                a = b = 1
            m, n = m * a, n * b
            fs.append(fac(a, b))
        op = [k] + fs
    elif k == "dsum":
        q = draw(st.integers(1, 4))
        ms, cs = [], []
        for _ in range(q):
            ms.append(fac(draw(st.integers(1, 5)), draw(st.integers(1, 5))))
            cs.append(draw(st.sampled_from([1, 1, 2, 3, 5])))
        op = ["dsum", ms, cs]
    elif k == "concat":
        a, b = draw(st.integers(1, 5)), draw(st.integers(1, 6))
        op = ["concat"] + [fac(a, b) for _ in range(draw(st.integers(1, 5)))]
    elif k == "invT":
        q = draw(st.sampled_from(["kron", "dsum", "perm", "shift", "rot", "swap"]))
        n = draw(st.integers(2, 5))
        sq = lambda d: draw(st.sampled_from([["lazy", d, d, draw(st.integers(0, 999)), draw(st.sampled_from("fc"))],
                                             ["dense", d, d, draw(st.integers(0, 999)), "f"], ["perm", d, seed], ["shift", d, 1]]))
        op = {"kron": lambda: ["kron"] + [sq(draw(st.integers(1, 3))) for _ in range(draw(st.integers(2, 3)))],
              "dsum": lambda: ["dsum", [sq(draw(st.integers(1, 4))) for _ in range(2)], [draw(st.integers(1, 3)), draw(st.integers(1, 3))]],
              "perm": lambda: ["perm", n * 2, seed], "shift": lambda: ["shift", n, draw(st.integers(-3, 9))],
              "rot": lambda: ["rot", n, draw(st.integers(-3, 5))], "swap": lambda: ["swap", n, 0, n - 1]}[q]()
        if np.linalg.cond(linop.evald(op)) < 100:
            op = ["invT", op]
    elif k == "perm":
        op = ["perm", draw(st.integers(1, 60)), seed]
    elif k == "shift":
        op = ["shift", draw(st.integers(1, 40)), draw(st.integers(-60, 60))]
    elif k == "swap":
        n = draw(st.integers(2, 30))
        i = draw(st.integers(0, n - 1))
        op = ["swap", n, i, (i + draw(st.integers(1, n - 1))) % n]
    elif k == "rot":
        op = ["rot", draw(st.integers(1, 9)), draw(st.integers(-6, 6))]
    return {"op": op, "seed": seed, "jit": int(seed % 7 == 0)}


def strategy(tier):
    return strategy_(tier)


def run_case(case):
    rng = rng_of(case)
    if "jvp" in case:
        return run_jvp(case, rng)
    a = case["op"]
    D = linop.evald(a)
    scale = absd(a)
    if not np.isfinite(scale) or scale > 1e7 or D.size > 60000:
        raise Discard()
    M = linop.build(a)
    from emlp.reps.linear_operator_base import LinearOperator
    check_operator(M, D, scale, rng, case["jit"], isinstance(M, LinearOperator))
    isI = D.shape[0] == D.shape[1] and np.allclose(D, D[0, 0] * np.eye(len(D)))
    return Out(not isI, "kind:" + a[0], "under invT:" + a[1][0] if a[0] == "invT" else "", "jit" if case["jit"] else "",
               "complex" if np.abs(np.imag(D)).max() > 0 else "real", "size:%d" % (1 << int(max(D.shape)).bit_length()))


def run_jvp(case, rng):
    from emlp.reps.linear_operators import LazyJVP
    import jax.numpy as jnp
    c = setup({"group": case["jvp"], "rep": case["rep"]})
    rg = c.refs[0]
    ct = np.complex64 if c.cplx else np.float32
    As = [np.asarray(sum(z * A for z, A in zip(rng.standard_normal(len(rg.lie)), rg.lie))) for _ in range(2)]
    # at the identity the derivative of the action is the algebra action; elsewhere use a central difference of the oracle
    from scipy.linalg import expm
    for X0, TX in ((np.eye(rg.d), As[0]), (expm(.3 * As[1]), As[0] @ expm(.3 * As[1]))):
        X0c, TXc = X0.astype(ct), TX.astype(ct)
        J = LazyJVP(c.R.rho, jnp.asarray(X0c), jnp.asarray(TXc))
        h = 1e-5
        des = ref.desugar(c.ast)
        X0d, TXd = X0c.astype(complex), TXc.astype(complex)
        D = (ref.rho(des, [X0d + h * TXd]) - ref.rho(des, [X0d - h * TXd])) / (2 * h)
        if not c.cplx:
            D = D.real
        require(tuple(J.shape) == (c.n, c.n), f"directional derivative has shape {J.shape}")
        sc = max(1.0, np.abs(D).sum(1).max())
        X = rng.standard_normal((c.n, 2)).astype(ct)
        for got, want, what in ((J @ X, D @ X, "times matrix"), (J @ X[:, 0], D @ X[:, 0], "times vector"), (J.to_dense(), D, "dense")):
            require_close(np.asarray(got) / sc, want / sc, 1e-3, f"directional derivative of an operator: {what}", scale=1.0)
        if not c.cplx:
            for got, want, what in ((J.T @ X, D.T @ X, "transpose times matrix"), (J.T @ X[:, 0], D.T @ X[:, 0], "transpose times vector"),
                                    (J.H @ X, D.T @ X, "adjoint times matrix")):
                require_close(np.asarray(got) / sc, want / sc, 1e-3, f"directional derivative of an operator: {what}", scale=1.0)
    return Out(gen.leaves(c.ast) > 1, "kind:jvp", "grp:" + case["jvp"][0])
