from vlib.core import *
from hypothesis import strategies as st
import math

RULE = """Cases are group constructions: every shipped class over a range of parameters, embeddings into random slices of
larger spaces and products of two or three groups.  The dimension is compared with the documented one, the real span of
the library's Lie algebra with that of the mathematical definition, the group generated by the discrete generators
with the known order (exact closure, or Schreier-Sims for permutations) and element set, and the discrete generators
together with the identity component have to meet every connected component.  Non-trivial: the group has a generator."""
ASSUMPTIONS = ["the definitions in vlib/ref.py (isometries of the form, determinant conditions, rotations of a cube, quarter "
               "turns of a 3x3 cube in three dimensional geometry, wreath of shifts and quarter turns) are what the names mean",
               "Cube is compared with the rotation group of the cube on the documented face labelling"]
N = {"quick": 240, "thorough": 1500}
TOL = 2e-5


def enumerated(tier):
    top = 8 if tier == "quick" else 12
    for n in range(1, top):
        for name in ("SO", "O", "SL", "GL", "Trivial", "Scaling", "Z", "S", "U", "SU"):
            if not (name in ("SL", "GL", "U", "SU") and n > 6):
                yield {"group": [name, n]}
        if n <= 4:
            yield {"group": ["Sp", n]}
    for k in list(range(1, 13)) + [16, 20, 30]:
        yield {"group": ["C", k]}
        yield {"group": ["D", k]}
        yield {"group": ["DkeR3", k]}
    for name in ("SO13p", "SO13", "O13", "Lorentz", "SO11p", "O11", "Cube", "RubiksCube", "SO2eR3", "O2eR3"):
        yield {"group": [name]}
    for k in (2, 4):
        for n in (1, 2, 3, 4, 5):
            yield {"group": ["ZksZnxZn", k, n]}
    for g in gen.EMBED + gen.PRODS + gen.ALT:
        yield {"group": g}


BASES = [["SO", 2], ["SO", 3], ["O", 2], ["O", 1], ["C", 3], ["C", 4], ["D", 3], ["D", 4], ["Z", 3], ["Z", 2], ["S", 3], ["S", 2],
         ["SL", 2], ["GL", 2], ["O11"], ["SO11p"], ["Sp", 1], ["Trivial", 2], ["Trivial", 1], ["Scaling", 2], ["U", 1],
         ["SU", 2], ["U", 2], ["SO", 1]]


@st.composite
def strategy_(draw, tier):
    k = draw(st.sampled_from(["embed", "embed", "prod", "prod", "prod3", "both", "param"]))
    base = lambda: draw(st.sampled_from(BASES))

    def embed(g):
        d = gen.refg(g).d
        D = draw(st.integers(d, d + 4))
        a = draw(st.integers(0, D - d))
        return ["Embed", g, D, a, a + d]
    if k == "embed":
        g = embed(base())
    elif k == "prod":
        g = ["prod", base(), base()]
    elif k == "prod3":
        a, b, c = base(), base(), base()
        if gen.refg(a).d * gen.refg(b).d * gen.refg(c).d > 18:
            c = ["Z", 2]
        g = ["prod", ["prod", a, b], c] if draw(st.booleans()) else ["prod", a, ["prod", b, c]]
    elif k == "both":
        g = embed(["prod", draw(st.sampled_from(BASES[:12])), ["Z", 2]]) if draw(st.booleans()) else ["prod", embed(base()), ["S", 2]]
    else:
        g = draw(st.sampled_from([["C", draw(st.integers(1, 60))], ["D", draw(st.integers(1, 40))], ["Z", draw(st.integers(1, 25))],
                                  ["S", draw(st.integers(1, 9))], ["DkeR3", draw(st.integers(1, 20))],
                                  ["SO", draw(st.integers(1, 9))], ["O", draw(st.integers(1, 9))], ["SL", draw(st.integers(1, 7))],
                                  ["ZksZnxZn", draw(st.sampled_from([2, 4])), draw(st.integers(1, 5))],
                                  ["Sp", draw(st.integers(1, 5))], ["U", draw(st.integers(1, 6))], ["SU", draw(st.integers(1, 6))]]))
    return {"group": g}


def strategy(tier):
    return strategy_(tier)


def span(As, d):
    """orthonormal basis of the real span of complex matrices, as rows of length 2 d^2"""
    if not As:
        return np.zeros((0, 2 * d * d))
    M = np.stack([np.concatenate([np.real(A).reshape(-1), np.imag(A).reshape(-1)]) for A in As])
    U, S, VH = np.linalg.svd(M, full_matrices=False)
    return VH[S > 1e-4 * max(1, S[0])]


def as_perm(h):
    """permutation list of a permutation matrix, or None"""
    h = np.asarray(h)
    if np.iscomplexobj(h) and np.abs(h.imag).max() > 1e-5:
        return None
    r = np.round(h.real)
    if np.abs(h - r).max() > 1e-5 or (r < 0).any() or not ((r.sum(0) == 1).all() and (r.sum(1) == 1).all()):
        return None
    return r.argmax(1).tolist()


def group_order(disc, d):
    """order of the generated group (None when not finite within the limits) and, when small, its elements"""
    ps = [as_perm(h) for h in disc]
    if all(p is not None for p in ps):
        from sympy.combinatorics import PermutationGroup, Permutation
        if not ps or d == 1:
            return 1, [np.eye(d)]
        n = PermutationGroup([Permutation(p) for p in ps]).order()
        if n > 1000:
            return n, None
    return ref.closure_order([np.asarray(h, dtype=complex) for h in disc] or [np.eye(d)], 3000)


def run_case(case):
    spec = case["group"]
    rg = ref.ref_group(spec)
    G = make_group(spec)
    d = rg.d
    require(int(G.d) == d, f"{spec} has dimension {G.d}, documented {d}")
    lie = [np.asarray(dense(A)) for A in G.lie_algebra]
    disc = [np.asarray(dense(h)) for h in G.discrete_generators]
    for M in lie + disc:
        require(M.shape == (d, d) and np.isfinite(M).all(), f"generator of {spec} of shape {M.shape}")
    # Lie algebra
    A, B = span(lie, d), span(rg.lie, d)
    require(A.shape[0] == B.shape[0], f"the Lie algebra of {spec} has dimension {A.shape[0]}, not {B.shape[0]}")
    if len(A):
        require_close(A.T @ A, B.T @ B, 1e-4, f"the Lie algebra of {spec} spans the wrong space", scale=1.0)
    # discrete part
    if rg.member is not None:
        for h in disc:
            require(rg.member(h.astype(complex) if rg.cplx else h.astype(float)), f"a discrete generator of {spec} is not in the group")
    if not rg.lie:
        n, els = group_order(disc, d)
        m, rels = group_order(rg.disc, d)
        if rg.order is not None:
            require(m is None or m == rg.order, f"reference model of {spec}")
            require(n == rg.order or (n is None and rg.order > 3000), f"the generators of {spec} generate a group of order {n}, not {rg.order}")
        else:
            require(n == m, f"the generators of {spec} generate a group of order {n}, not {m}")
        if els is not None and rels is not None:
            E, F = np.stack([np.asarray(x, dtype=complex).reshape(-1) for x in els]), np.stack([np.asarray(x, dtype=complex).reshape(-1) for x in rels])
            far = max(np.abs(F - e).max(1).min() for e in E)
            require(far < 1e-2, f"the generators of {spec} generate a different group of the same order")
        if spec[0] == "RubiksCube":
            rubik(disc, rg)
    else:
        # invariants of the discrete part relative to the identity component: sign of determinant, time direction and
        # more generally the dimension of small invariant spaces
        sig = lambda hs: component_signatures(hs, spec)
        require(sig(disc) == sig(rg.disc), f"the discrete generators of {spec} do not reach the right connected components")
        for ast in (["V"], ["T", 1, 1], ["T", 2, 0]):
            if d <= 4:
                full = RefLike(d, lie, disc)
                a, b = ref.invariant_basis(ast, [full])[0], ref.invariant_basis(ast, [rg])[0]
                require(a.shape == b.shape and np.abs(a @ a.conj().T - b @ b.conj().T).max() < 1e-4,
                        f"{spec}: the generators leave a different space of tensors invariant")
    return Out(bool(lie or disc), "grp:" + spec[0], "fam:" + gen.families(spec), "finite" if not rg.lie else "continuous")


class RefLike:
    def __init__(self, d, lie, disc):
        self.d, self.lie, self.disc = d, [A.astype(complex) for A in lie], [h.astype(complex) for h in disc]
        self.cplx = True


def component_signatures(hs, spec):
    """the group of (sign of det, sign of time component) pairs generated by the discrete generators"""
    one = (1, 1)
    gens = {(int(np.sign(np.linalg.det(h).real)), int(np.sign(np.real(h[0, 0]))) if spec[0] in
             ("SO13p", "SO13", "O13", "Lorentz", "SO11p", "O11") else 1) for h in hs}
    out = {one}
    for _ in range(3):
        out |= {(a[0] * b[0], a[1] * b[1]) for a in out for b in gens}
    return out


def rubik(disc, rg):
    """every generator is a quarter turn of one face of a geometric cube, up to direction"""
    mine = {tuple(as_perm(h)) for h in rg.disc} | {tuple(as_perm(h.T)) for h in rg.disc}
    for h in disc:
        p = as_perm(h)
        require(p is not None and tuple(p) in mine, "a generator of the Rubik's cube group is not a quarter turn of a face")
    require(len({min(tuple(as_perm(h)), tuple(as_perm(h.T))) for h in disc}) == 6, "not all six faces can be turned")
