from vlib.core import *
from vlib import xreps
from hypothesis import strategies as st

RULE = """Cases are (group, expression, seed) where the group is shipped or user-defined (subclass of Group with
generators as numpy or jax arrays, lists, lazy operators or minimal user operators) and the expression mixes user-defined
representations (pseudoscalar, determinant, symmetric and antisymmetric squares, changes of basis, one of them derived from the base representation, powers for abelian
groups; the Lie algebra action is left to the library except for one) with built-in ones.  Size, group and algebra
action, basis and projector are compared with the reference; the expression is also written without a group and bound
later, and built twice for equality.  Cases of kind "sub" use a representation of a direct product that reads one
Kronecker factor, as in the repository's documentation.  Non-trivial: a user-defined group or representation occurs in
an expression with at least two leaves or a non-trivial solution space."""
ASSUMPTIONS = ["user representations follow the documentation: rho(M), __str__, G, optionally __call__, and are orthogonal for orthogonal groups",
               "user groups pass their parameters to super().__init__, which identifies them"]
N = {"quick": 170, "thorough": 3000}
TOL = 5e-4
POOL = [g for g in gen.WITHCUSTOM if gen.refg(g).d <= 4]
ABEL = [g for g in POOL if xreps.abelian(gen.refg(g))]
X = lambda n: ["X", n]
V = ["V"]
EXPRS = {"P": [X("P"), ["sum", X("P"), ["prod", V, X("P")]], [">>", ["pow", V, 2], ["prod", X("P"), V]],
               [">>", ["prod", X("P"), ["pow", V, 2]], ["pow", V, 2]], ["dual", X("P")], ["pow", X("P"), 2]],
         "det": [X("det"), ["prod", X("det"), V, ["dual", V]], ["sum", ["dual", X("det")], ["prod", V, V]], [">>", X("det"), ["pow", V, 2]]],
         "Sym2": [X("Sym2"), [">>", X("Sym2"), ["pow", V, 2]], [">>", ["pow", V, 2], X("Sym2")], ["dual", X("Sym2")], ["pow", X("Sym2"), 2]],
         "Alt2": [X("Alt2"), [">>", X("Alt2"), ["pow", V, 2]], ["sum", X("Alt2"), X("Sym2"), V], [">>", X("Alt2"), X("Sym2")], ["prod", X("Alt2"), V]],
         "Conj": [X("Conj"), [">>", V, X("Conj")], ["dual", X("Conj")], ["prod", X("Conj"), ["dual", V]], ["mul", 2, X("Conj")]],
         "Turn": [["sum", V, X("Turn")], ["prod", V, X("Turn")], [">>", X("Turn"), V], ["sum", X("Turn"), V, ["dual", X("Turn")]],
                  ["prod", X("Turn"), ["dual", V]]],
         "Pow2": [X("Pow2"), [">>", ["pow", V, 2], X("Pow2")], [">>", V, X("Pow2")], ["sum", X("Pow2"), ["prod", V, V]]],
         "Pow3": [X("Pow3"), [">>", X("Pow2"), X("Pow3")], ["prod", X("Pow2"), V, ["dual", X("Pow3")]]]}


def enumerated(tier):
    i = 0
    for g in [["SO", 2], ["O", 2], ["O", 3], ["SO", 3], ["S", 3], ["S", 4], ["SL", 2], ["GL", 2], ["O11"], ["Z", 3], ["C", 4], ["D", 3],
              ["Scaling", 2], ["DkeR3", 3], ["Trivial", 2], ["U", 1], ["U", 2]] + gen.CUSTOM:
        ns = xreps.names(gen.refg(g))
        for n in ns:
            es = [e for e in EXPRS[n] if gen.fits(e, [gen.refg(g).d], 90) and ref.size(ref.desugar(e), [gen.refg(g).d]) > 0
                  and set(xnames(e)) <= set(ns)]
            for e in (es if tier == "thorough" else es[i % 2::2]):
                yield {"group": g, "rep": e, "seed": i}
            i += 1
    for g1, g2 in [(["SO", 3], ["S", 4]), (["SL", 2], ["Z", 3]), (["O11"], ["SO", 2]), (["D", 3], ["S", 2])]:
        for e in (["sum", "1", "0"], [">>", "0", "prod"], [">>", "prod", "1"], ["prod", "0", "1"], [">>", "1", "1"]):
            yield {"kind": "sub", "groups": [g1, g2], "expr": e}
    for n in (3, 4, 5):
        for r in (["T", 1, 1], ["T", 2, 0], ["sum", ["T", 1, 0], ["int", 2], ["T", 2, 0]]):
            yield {"kind": "docs", "n": n, "rep": r}


def xnames(a):
    return [a[1]] if a[0] == "X" else [x for b in a[1:] if isinstance(b, list) for x in xnames(b)]


@st.composite
def strategy_(draw, tier):
    g = draw(st.one_of(gen.group(POOL), gen.custom(4), st.sampled_from(ABEL)))
    if draw(st.integers(0, 9)) == 0:
        g = ["prod", draw(gen.custom(2)), draw(gen.custom(2))]
    elif draw(st.integers(0, 9)) == 0:
        g = ["Embed", draw(gen.custom(2)), 3, 1, 3] if g[0] != "prod" else g
        if g[0] == "Embed" and gen.refg(g[1]).d != 2:
            g = ["Embed", g[1], 4, 2, 3]
    rg = gen.refg(g)
    ns = xreps.names(rg)
    extra = [X(n) for n in ns] * 2
    r = draw(gen.rep([rg.d], max(rg.d, 60 if tier == "quick" else 150), depth=3, rank=2, extra=extra))
    if draw(st.integers(0, 3)) == 0:
        n = draw(st.sampled_from(ns))
        e = draw(st.sampled_from(EXPRS[n]))
        if set(xnames(e)) <= set(ns) and gen.fits(e, [rg.d], 90):
            r = e
    return {"group": g, "rep": r, "seed": draw(st.integers(0, 10 ** 6))}


def strategy(tier):
    return strategy_(tier)


def run_sub(case):
    """Representation of G1 x G2 on the space of one factor, reading one Kronecker factor (documented example)."""
    from emlp.reps import Rep, V
    from emlp.reps.linear_operators import LazyKron
    G1, G2 = [make_group(s) for s in case["groups"]]
    r1, r2 = [gen.refg(s) for s in case["groups"]]
    G = G1 * G2

    class Sub(Rep):
        def __init__(self, G, index, size):
            self.G, self.index, self._size = G, index, size

        def __str__(self):
            return f"V_{self.index}"

        def size(self):
            return self._size

        def rho(self, M):
            return M.Ms[self.index]

        def drho(self, A):
            return A.Ms[self.index]

        def __call__(self, G):
            return self
    reps = {"0": Sub(G, 0, G1.d), "1": Sub(G, 1, G2.d), "prod": V(G)}
    names = {"0": ["V", 0], "1": ["V", 1], "prod": ["prod", ["V", 0], ["V", 1]]}
    op, a, b = case["expr"]
    R = {"sum": lambda x, y: x + y, "prod": lambda x, y: x * y, ">>": lambda x, y: x >> y}[op](reps[a], reps[b])
    # duals exist as soon as one of the factors is not orthogonal; for the reference that makes no difference
    ast = ref.desugar([op, names[a], names[b]])
    n = ref.size(ast, [r1.d, r2.d])
    require(R.size() == n, f"size {R.size()} instead of {n}")
    B, gap = ref.invariant_basis(ast, [r1, r2])
    Q = dense(R.equivariant_basis())
    require(Q.shape == (n, B.shape[1]), f"basis of shape {Q.shape}, expected {(n, B.shape[1])}")
    require_close(Q @ Q.T, B @ B.T, TOL, "span of the basis", scale=1.0)
    rng = rng_of(case)
    g1, g2 = r1.elements(rng, 1, .6)[0].astype(np.float32), r2.elements(rng, 1, .6)[0].astype(np.float32)
    require_close(dense(R.rho(LazyKron([g1, g2]))), ref.rho(ast, [g1.astype(float), g2.astype(float)]), TOL, "rho of a Kronecker product element", scale=1.0)
    return Out(True, "kind:sub", "rank0" if not B.shape[1] else "rank+")


def run_docs(case):
    """The documentation's minimal permutation operator, in the documentation's group."""
    from emlp.groups import Group
    from emlp.reps.linear_operator_base import LinearOperator

    class LazyPerm(LinearOperator):
        def __init__(self, perm):
            self.perm = perm
            self.shape = (len(perm), len(perm))

        def _matmat(self, V):
            return V[self.perm]

        def _matvec(self, V):
            return V[self.perm]

        def _adjoint(self):
            return LazyPerm(np.argsort(self.perm))

    class AltFast(Group):
        def __init__(self, n):
            perms = np.zeros((n - 2, n)).astype(int) + np.arange(n)[None]
            for i in range(n - 2):
                ids = (0, 1, i + 2)
                perms[i, ids] = perms[i, np.roll(ids, 1)]
            self.discrete_generators = [LazyPerm(perm) for perm in perms]
            super().__init__(n)
    n = case["n"]
    G, rg = AltFast(n), gen.refg(["Alt", n])
    require(G.d == n and bool(G.is_permutation) and bool(G.is_orthogonal), "dimension or flags of the documented AltFast group")
    R = make_rep(case["rep"], [G])
    ast = ref.desugar(case["rep"])
    B, gap = ref.invariant_basis(ast, [rg])
    Q = dense(R.equivariant_basis())
    require(Q.shape == B.shape, f"basis of shape {Q.shape}, expected {B.shape}")
    require_close(Q @ Q.T, B @ B.T, TOL, "span of the basis", scale=1.0)
    g = np.asarray(G.sample()).astype(float)
    require(rg.member is None or rg.member(g), "sample does not lie in the alternating group")
    return Out(True, "kind:docs")


def run_case(case):
    if case.get("kind") == "sub":
        return run_sub(case)
    if case.get("kind") == "docs":
        return run_docs(case)
    c = setup(case)
    if c.n == 0:
        raise Discard()
    rng = rng_of(case)
    ast = ref.desugar(c.ast)
    R, n, G, rg = c.R, c.n, c.Gs[0], c.refs[0]
    ct, cf = (np.complex64, complex) if c.cplx else (np.float32, float)
    require(R.size() == n, f"size() is {R.size()}, expected {n}")
    els = [g.astype(ct) for g in rg.elements(rng, 2, .6)] + list(G.discrete_generators)[:2]
    for g in els:
        gd = np.asarray(dense(g)).astype(cf)
        if np.abs(gd).max() > 20:
            continue
        want = ref.rho(ast, [gd])
        M = R.rho(g)
        require_close(dense(M), want, TOL, "dense rho", scale=1.0)
        x = rng.standard_normal(n).astype(np.float32)
        sc = max(1.0, np.abs(want).sum(1).max())
        require_close(np.asarray(M @ x).reshape(-1) / sc, want @ x / sc, TOL, "rho applied to a vector", scale=1.0)
    As = list(G.lie_algebra)[:2]
    if rg.lie:
        As.append(np.asarray(sum(z * a for z, a in zip(rng.standard_normal(len(rg.lie)), rg.lie))).astype(ct))
    for A in As:
        want = ref.drho(ast, [np.asarray(dense(A)).astype(cf)])
        M = R.drho(A)
        require_close(dense(M), want, TOL, "dense drho", scale=1.0)
        X_ = rng.standard_normal((n, 2)).astype(np.float32)
        sc = max(1.0, np.abs(want).sum(1).max())
        require_close(np.asarray(M @ X_) / sc, want @ X_ / sc, TOL, "drho applied to a matrix", scale=1.0)
    B, gap = ref.invariant_basis(ast, [rg])
    if gap < 1e-5:
        raise Discard()
    Q = dense(R.equivariant_basis())
    require(Q.shape == (n, B.shape[1]), f"basis of shape {Q.shape}, expected {(n, B.shape[1])}")
    require_close(Q.conj().T @ Q, np.eye(Q.shape[1]), TOL, "basis is not orthonormal", scale=1.0)
    PB = B @ B.conj().T
    require_close(Q @ Q.conj().T, PB, TOL, "span of the basis", scale=1.0)
    x = rng.standard_normal(n).astype(np.float32)
    require_close(np.asarray(R.equivariant_projector() @ x).reshape(-1), PB @ x, TOL, "projection of a vector", scale=1.0)
    # representations that act differently are different
    g = rg.elements(rng, 1, .5)[0]
    named = [(make_rep(a, [make_group(c.specs[0])]), ref.rho(ref.desugar(a), [g])) for a in [["V"]] + [["X", x] for x in xreps.names(rg)]
             if ref.size(a, [rg.d])]
    for i, (A, a) in enumerate(named):
        for B_, b in named[:i]:
            if a.shape != b.shape or np.abs(a - b).max() > 1e-3:
                require(A != B_ and B_ != A and not A == B_ and not B_ == A, f"{A} and {B_} act differently but compare equal")
                require(A + B_ != 2 * A and A + B_ != 2 * B_, f"{A}+{B_} compares equal to a multiple of one of them")
    # late binding and equality
    R2 = make_rep(c.ast, [make_group(c.specs[0])])
    require(R2 == R and hash(R2.canonicalize()[0]) == hash(R.canonicalize()[0]), "the same expression built twice is not equal to itself")
    Ra = make_abstract(c.ast)
    if not isinstance(Ra, int):
        Ra = Ra(G)
        require(Ra.size() == n, f"bound later, the size is {Ra.size()} instead of {n}")
        g = rg.elements(rng, 1, .5)[0].astype(ct)
        require_close(dense(Ra.rho(g)), ref.rho(ast, [g.astype(cf)]), TOL, "rho of the expression bound later", scale=1.0)
        Qa = dense(Ra.equivariant_basis())
        require_close(Qa @ Qa.conj().T, PB, TOL, "span of the basis of the expression bound later", scale=1.0)
    user = c.specs[0][0] == "custom" or bool(xnames(c.ast))
    return Out(user and (gen.leaves(c.ast) >= 2 or B.shape[1] > 0), *labels(case), *["X:" + x for x in set(xnames(c.ast))],
               "rank0" if not B.shape[1] else "rank+", "usergroup" if c.specs[0][0] == "custom" else "")
