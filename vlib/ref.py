"""Reference model: an independent, float64 / numpy-only account of the matrix groups and of the
representation type system.  Nothing in here imports emlp."""
import itertools
import math
import numpy as np
from scipy.linalg import expm

LIE_METRIC = {}


def nullspace_of_map(f, n, cplx=False):
    """Basis (list of n x n matrices) of {A : f(A)=0} for a linear f on n x n matrices."""
    cols = []
    for i in range(n):
        for j in range(n):
            E = np.zeros((n, n))
            E[i, j] = 1
            cols.append(np.asarray(f(E)).reshape(-1))
    M = np.stack(cols, -1)
    U, S, VH = np.linalg.svd(M, full_matrices=True)
    rank = (S > 1e-9).sum()
    return [v.reshape(n, n) for v in VH[rank:].conj()]


def E_(n, i, j):
    M = np.zeros((n, n))
    M[i, j] = 1
    return M


def perm_matrix(p):
    """Matrix with (M v)[i] = v[p[i]]."""
    n = len(p)
    M = np.zeros((n, n))
    M[np.arange(n), np.asarray(p)] = 1
    return M


def eta(n):
    m = -np.eye(n)
    m[0, 0] = 1
    return m


def Jform(m):
    J = np.zeros((2 * m, 2 * m))
    J[:m, m:] = np.eye(m)
    J[m:, :m] = -np.eye(m)
    return J


class RefGroup:
    """lie: spanning set of the Lie algebra (over R), disc: finite list of generators."""
    def __init__(self, d, lie=(), disc=(), member=None, order=None, cplx=False, scale=1.0, name=""):
        self.d = d
        self.lie = [np.asarray(a) for a in lie]
        self.disc = [np.asarray(h) for h in disc]
        self.member = member
        self.order = order
        self.cplx = cplx
        self.scale = scale
        self.name = name

    @property
    def orthogonal(self):
        return all(np.allclose(A, -A.T) for A in self.lie) and \
            all(np.allclose(h.T @ h, np.eye(self.d)) for h in self.disc)

    @property
    def permutation(self):
        return len(self.lie) == 0 and all(
            np.allclose(h, np.round(h.real)) and (np.round(h.real) >= 0).all() and
            (np.round(h.real).sum(0) == 1).all() and (np.round(h.real).sum(1) == 1).all() for h in self.disc)

    @property
    def compact_real(self):
        return self.orthogonal

    def elements(self, rng, n, mag=1.0):
        out = []
        for _ in range(n):
            g = np.eye(self.d, dtype=complex if self.cplx else float)
            for _rep in range(2):
                if self.lie:
                    z = rng.standard_normal(len(self.lie))
                    if not self.orthogonal:
                        z = z * mag * self.scale / math.sqrt(len(self.lie)) * 1.0
                    g = g @ expm(sum(zi * Ai for zi, Ai in zip(z, self.lie)))
                for _k in range(2 if self.disc else 0):
                    for i in rng.permutation(len(self.disc)):
                        g = g @ np.linalg.matrix_power(self.disc[i], int(rng.integers(0, 4)))
            out.append(g)
        return out


def _close(a, b, tol=1e-6):
    return float(np.max(np.abs(a - b))) <= tol * (1 + float(np.max(np.abs(b))))


def cube_face_rotations():
    """The 24 rotations of the cube as permutations of its 6 faces, built from signed matrices."""
    pass


def ref_group(spec):
    """spec: list [name, *ints] -> RefGroup, from the mathematical definition of the named group."""
    name, args = spec[0], spec[1:]
    I = np.eye
    if name == "Trivial":
        n, = args
        return RefGroup(n, member=lambda g: _close(g, I(n)), order=1)
    if name in ("SO", "O"):
        n, = args
        lie = [E_(n, i, j) - E_(n, j, i) for i in range(n) for j in range(i)]
        refl = I(n)
        refl[n - 1, n - 1] = -1
        orth = lambda g: _close(g.T @ g, I(n), 1e-4)
        if name == "SO":
            return RefGroup(n, lie, [], lambda g: orth(g) and np.linalg.det(g) > 0, order=1 if n == 1 else None)
        return RefGroup(n, lie, [refl], orth, order=2 if n == 1 else None)
    if name == "C":
        k, = args
        t = 2 * np.pi / k
        R = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
        return RefGroup(2, [], [R], lambda g: _close(np.linalg.matrix_power(g, k), I(2), 1e-3) and
                        _close(g.T @ g, I(2), 1e-4) and np.linalg.det(g) > 0, order=k)
    if name == "D":
        k, = args
        t = 2 * np.pi / k
        R = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
        F = np.diag([1., -1.])

        def mem(g):
            if not _close(g.T @ g, I(2), 1e-4):
                return False
            els = [np.linalg.matrix_power(R, i) @ f for i in range(k) for f in (I(2), F, -F if k % 2 else F)]
            # D(k) in the library contains reflection of the x axis; for odd k this differs from diag(1,-1)
            if k % 2:
                els = [np.linalg.matrix_power(R, i) @ f for i in range(k) for f in (I(2), -F)]
            return any(_close(g, e, 1e-3) for e in els)
        refl = np.diag([-1., 1.])
        return RefGroup(2, [], [R, refl], mem, order=2 * k)
    if name == "Scaling":
        n, = args
        return RefGroup(n, [I(n)], [], lambda g: g[0, 0] > 0 and _close(g, g[0, 0] * I(n), 1e-4))
    if name in ("SO13p", "SO13", "O13", "Lorentz"):
        e = eta(4)
        lie = nullspace_of_map(lambda A: A.T @ e + e @ A, 4)
        isl = lambda g: float(np.max(np.abs(g.T @ e @ g - e))) < 1e-4 * (1 + np.max(np.abs(g)) ** 2)
        if name == "SO13p":
            return RefGroup(4, lie, [], lambda g: isl(g) and g[0, 0] > 0 and np.linalg.det(g) > 0, scale=.7)
        if name == "SO13":
            return RefGroup(4, lie, [-I(4)], lambda g: isl(g) and np.linalg.det(g) > 0, scale=.7)
        return RefGroup(4, lie, [np.diag([-1., 1, 1, 1]), np.diag([1., -1, 1, 1])], isl, scale=.7)
    if name in ("SO11p", "O11"):
        e = eta(2)
        lie = nullspace_of_map(lambda A: A.T @ e + e @ A, 2)
        isl = lambda g: float(np.max(np.abs(g.T @ e @ g - e))) < 1e-4 * (1 + np.max(np.abs(g)) ** 2)
        if name == "SO11p":
            return RefGroup(2, lie, [], lambda g: isl(g) and g[0, 0] > 0 and np.linalg.det(g) > 0, scale=.7)
        return RefGroup(2, lie, [np.diag([-1., 1]), np.diag([1., -1])], isl, scale=.7)
    if name == "Sp":
        m, = args
        J = Jform(m)
        lie = nullspace_of_map(lambda A: A.T @ J + J @ A, 2 * m)
        return RefGroup(2 * m, lie, [], lambda g: float(np.max(np.abs(g.T @ J @ g - J))) <
                        1e-4 * (1 + np.max(np.abs(g)) ** 2), scale=.7)
    if name == "Z":
        n, = args
        s = perm_matrix([(i - 1) % n for i in range(n)])
        els = [np.linalg.matrix_power(s, i) for i in range(n)]
        return RefGroup(n, [], [s], lambda g: any(_close(g, e, 1e-4) for e in els), order=n)
    if name == "S":
        n, = args
        disc = []
        for i in range(n - 1):
            p = list(range(n))
            p[i], p[i + 1] = p[i + 1], p[i]
            disc.append(perm_matrix(p))

        def isperm(g):
            r = np.round(g)
            return _close(g, r, 1e-4) and (r >= 0).all() and (r.sum(0) == 1).all() and (r.sum(1) == 1).all()
        return RefGroup(n, [], disc, isperm, order=math.factorial(n))
    if name == "SL":
        n, = args
        lie = nullspace_of_map(lambda A: np.array([np.trace(A)]), n)
        return RefGroup(n, lie, [], lambda g: abs(np.linalg.det(np.asarray(g, dtype=np.float64)) - 1) < 1e-3 *
                        (1 + np.max(np.abs(g))) ** n, scale=.7)
    if name == "GL":
        n, = args
        lie = [E_(n, i, j) for i in range(n) for j in range(n)]
        return RefGroup(n, lie, [], lambda g: np.linalg.det(np.asarray(g, dtype=np.float64)) > 0, scale=.7)
    if name in ("U", "SU"):
        n, = args
        if name == "SU" and n == 1:
            return ref_group(["Trivial", 1])
        lie = [(E_(n, i, j) - E_(n, j, i)).astype(complex) for i in range(n) for j in range(i)]
        lie += [1j * (E_(n, i, j) + E_(n, j, i)) for i in range(n) for j in range(i)]
        if name == "U":
            lie += [1j * E_(n, i, i) for i in range(n)]
        else:
            lie += [1j * (E_(n, i, i) - E_(n, n - 1, n - 1)) for i in range(n - 1)]
        uni = lambda g: _close(g.conj().T @ g, I(n), 1e-4)
        return RefGroup(n, lie, [], uni if name == "U" else
                        (lambda g: uni(g) and abs(np.linalg.det(g) - 1) < 1e-3), cplx=True)
    if name == "Cube":
        # faces as in a 6-vector acted on by two quarter turns that generate the rotation group
        F = perm_matrix([4, 1, 0, 3, 5, 2])
        L = perm_matrix([3, 0, 2, 5, 4, 1])
        return RefGroup(6, [], [F, L], None, order=24)
    if name == "RubiksCube":
        return RefGroup(48, [], [perm_matrix(p) for p in rubiks_perms()], None, order=43252003274489856000)
    if name == "ZksZnxZn":
        k, n = args
        s = perm_matrix([(i - 1) % n for i in range(n)])
        ks = perm_matrix([(i - 1) % k for i in range(k)])
        step = 4 // k
        idx = np.arange(n * n).reshape(n, n)
        rot = perm_matrix(np.rot90(idx, step).reshape(-1))
        disc = [kron(I(k), s, I(n)), kron(I(k), I(n), s), kron(ks, rot)]
        return RefGroup(k * n * n, [], disc, None, order=k * n * n)
    if name == "SO2eR3":
        return ref_embed(ref_group(["SO", 2]), 3, [0, 1])
    if name == "O2eR3":
        return ref_embed(ref_group(["O", 2]), 3, [0, 1])
    if name == "DkeR3":
        return ref_embed(ref_group(["D", args[0]]), 3, [0, 1])
    if name == "Embed":
        sub, d, start, stop = args
        return ref_embed(ref_group(sub), d, list(range(start, stop)))
    if name == "prod":
        a, b = ref_group(args[0]), ref_group(args[1])
        lie = [np.kron(A, I(b.d)) for A in a.lie] + [np.kron(I(a.d), B) for B in b.lie]
        disc = [np.kron(h, I(b.d)) for h in a.disc] + [np.kron(I(a.d), h) for h in b.disc]
        return RefGroup(a.d * b.d, lie, disc, None,
                        order=None if a.order is None or b.order is None else None,
                        cplx=a.cplx or b.cplx, scale=min(a.scale, b.scale))
    if name == "Alt":
        n, = args
        disc = []
        for i in range(n - 2):
            p = list(range(n))
            p[i], p[i + 1], p[i + 2] = p[i + 1], p[i + 2], p[i]
            disc.append(perm_matrix(p))
        return RefGroup(n, [], disc, None, order=math.factorial(n) // 2)
    raise KeyError(spec)


def ref_embed(g, d, idx):
    ix = np.ix_(idx, idx)
    lie, disc = [], []
    for A in g.lie:
        M = np.zeros((d, d), dtype=A.dtype)
        M[ix] = A
        lie.append(M)
    for h in g.disc:
        M = np.eye(d, dtype=h.dtype)
        M[ix] = h
        disc.append(M)

    def mem(x):
        base = np.eye(d)
        y = np.array(x)
        y[ix] = base[ix]
        return _close(y, base, 1e-4) and (g.member is None or g.member(np.asarray(x)[ix]))
    return RefGroup(d, lie, disc, mem, order=g.order, cplx=g.cplx, scale=g.scale)


def kron(*Ms):
    out = np.eye(1)
    for M in Ms:
        out = np.kron(out, M)
    return out


def rubiks_perms():
    """Quarter turns of a 3x3 cube on 48 facelets, derived from 3-d geometry.
    Faces in the order U,F,R,B,L,D, facelets of each face listed row by row without the centre, in the
    net  [B / L U R / F / D...] only up to the geometry: the *group* (not the individual permutation) is
    what is compared, so any consistent geometric labelling up to conjugacy will do."""
    # facelet = (position in {-1,0,1}^3, outward normal)
    faces = {"U": ((0, 0, 1), (1, 0, 0), (0, -1, 0)), "F": ((0, -1, 0), (1, 0, 0), (0, 0, -1)),
             "R": ((1, 0, 0), (0, 1, 0), (0, 0, -1)), "B": ((0, 1, 0), (-1, 0, 0), (0, 0, -1)),
             "L": ((-1, 0, 0), (0, -1, 0), (0, 0, -1)), "D": ((0, 0, -1), (1, 0, 0), (0, 1, 0))}
    lab = {}
    k = 0
    for f in "UFRBLD":
        n, right, down = map(np.array, faces[f])
        for r in (-1, 0, 1):
            for c in (-1, 0, 1):
                if r == 0 and c == 0:
                    continue
                pos = n + c * right + r * down
                lab[(tuple(pos), tuple(n))] = k
                k += 1
    perms = []
    for f in "UFRBLD":
        n = np.array(faces[f][0])
        # rotation by -90 deg about n
        K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
        R = np.eye(3) - K + K @ K
        R = np.round(R).astype(int)
        p = list(range(48))
        for (pos, nor), i in lab.items():
            if np.dot(pos, n) == 1:
                j = lab[(tuple(R @ np.array(pos)), tuple(R @ np.array(nor)))]
                p[j] = i
        perms.append(p)
    return perms


# ---------------------------------------------------------------------------------------------
# representation ASTs (JSON-able nested lists)
#   ["V"] / ["V",i]   base representation (of group i in a mixed setting)
#   ["S"]             scalar            ["int",k]  an int used as k scalars (inside sums)
#   ["dual",r] ["sum",r...] ["prod",r...] ["mul",k,r] ["rmul",r,k] ["pow",r,k] ["T",p,q(,i)]
#   [">>",a,b] ["<<",a,b]

def bdiag(Ms):
    if not Ms:
        return np.zeros((0, 0))
    n = sum(M.shape[0] for M in Ms)
    m = sum(M.shape[1] for M in Ms)
    out = np.zeros((n, m), dtype=np.result_type(*Ms) if Ms else float)
    i = j = 0
    for M in Ms:
        out[i:i + M.shape[0], j:j + M.shape[1]] = M
        i += M.shape[0]
        j += M.shape[1]
    return out


def inv_t(M):
    return np.linalg.inv(M).T


def desugar(ast):
    """Reduce to V / S / dual / sum / prod."""
    t = ast[0]
    if t in ("V", "S", "X"):
        return ast
    if t == "int":
        return ["sum"] + [["S"]] * ast[1]
    if t == "dual":
        return ["dual", desugar(ast[1])]
    if t in ("sum", "prod"):
        return [t] + [desugar(a) for a in ast[1:]]
    if t == "mul":
        return ["sum"] + [desugar(ast[2])] * ast[1]
    if t == "rmul":
        return ["sum"] + [desugar(ast[1])] * ast[2]
    if t == "pow":
        return ["prod"] + [desugar(ast[1])] * ast[2]
    if t == "T":
        v = ["V"] + ast[3:]
        return ["prod"] + [v] * ast[1] + [["dual", v]] * ast[2]
    if t == ">>":
        return ["prod", desugar(ast[2]), ["dual", desugar(ast[1])]]
    if t == "<<":
        return ["prod", desugar(ast[1]), ["dual", desugar(ast[2])]]
    raise KeyError(ast)


def size(ast, ds):
    """ds: list of base dimensions, indexed by group index"""
    t = ast[0]
    if t == "V":
        return ds[ast[1] if len(ast) > 1 else 0]
    if t == "X":
        return X_SIZES[ast[1]](ds)
    if t == "S":
        return 1
    if t == "dual":
        return size(ast[1], ds)
    if t == "sum":
        return sum(size(a, ds) for a in ast[1:])
    if t == "prod":
        return int(np.prod([size(a, ds) for a in ast[1:]])) if len(ast) > 1 else 1
    return size(desugar(ast), ds)


X_SIZES = {}
X_RHO = {}
X_DRHO = {}


def rho(ast, gs):
    """Reference group action. gs: list of group element matrices (one per group index)."""
    t = ast[0]
    if t == "V":
        return np.asarray(gs[ast[1] if len(ast) > 1 else 0])
    if t == "X":
        return X_RHO[ast[1]](gs)
    if t == "S":
        return np.eye(1)
    if t == "dual":
        return inv_t(rho(ast[1], gs))
    if t == "sum":
        return bdiag([rho(a, gs) for a in ast[1:]])
    if t == "prod":
        return kron(*[rho(a, gs) for a in ast[1:]])
    return rho(desugar(ast), gs)


def drho(ast, As):
    """Reference Lie algebra action. As: list of matrices, one per group index."""
    t = ast[0]
    if t == "V":
        return np.asarray(As[ast[1] if len(ast) > 1 else 0])
    if t == "X":
        return X_DRHO[ast[1]](As)
    if t == "S":
        return np.zeros((1, 1))
    if t == "dual":
        return -drho(ast[1], As).T
    if t == "sum":
        return bdiag([drho(a, As) for a in ast[1:]])
    if t == "prod":
        Ms = [drho(a, As) for a in ast[1:]]
        if not Ms:
            return np.zeros((1, 1))
        ns = [M.shape[0] for M in Ms]
        n = int(np.prod(ns))
        out = np.zeros((n, n), dtype=np.result_type(*Ms))
        for i, M in enumerate(Ms):
            out = out + kron(np.eye(int(np.prod(ns[:i]))), M, np.eye(int(np.prod(ns[i + 1:]))))
        return out
    return drho(desugar(ast), As)


def constraints(ast, groups):
    """Yield all (rho(h)-I), drho(A) over every generator of every group (others at identity / zero)."""
    ast = desugar(ast)
    eyes = [np.eye(g.d) for g in groups]
    zeros = [np.zeros((g.d, g.d)) for g in groups]
    n = size(ast, [g.d for g in groups])
    for i, g in enumerate(groups):
        for h in g.disc:
            yield rho(ast, eyes[:i] + [h] + eyes[i + 1:]) - np.eye(n)
        for A in g.lie:
            yield drho(ast, zeros[:i] + [A] + zeros[i + 1:])


def invariant_basis(ast, groups, tol=1e-9):
    """Orthonormal basis (n, r) in float64/complex128 of the invariant subspace + spectral gap info."""
    n = size(desugar(ast), [g.d for g in groups])
    M = np.zeros((n, n), dtype=complex if any(g.cplx for g in groups) else float)
    for C in constraints(ast, groups):
        M = M + C.conj().T @ C
    w, v = np.linalg.eigh(M)
    scale = max(1.0, float(w[-1]) if n else 1.0)
    r = int((w < tol * scale).sum())
    gap = float(w[r]) if r < n else float("inf")
    return v[:, :r], gap


def closure_order(gens, limit=5000, tol=2e-3):
    """Order and elements of the finite matrix group generated by gens (elements closer than tol are the same), or
    (None, None) above the limit.  Elements are found through bins of a random linear functional."""
    gens = [np.asarray(h, dtype=complex) for h in gens]
    d = gens[0].shape[0]
    w = np.random.default_rng(5).uniform(.2, 1, (d, d)) * np.random.default_rng(6).choice([-1, 1], (d, d))
    width = tol * float(np.abs(w).sum()) * 1.01
    bins, els = {}, []

    def add(x):
        b = math.floor(float(np.real((w * x).sum()) / width))
        for c in (b - 1, b, b + 1):
            for y in bins.get(c, ()):
                if np.abs(x - y).max() < tol:
                    return False
        bins.setdefault(b, []).append(x)
        els.append(x)
        return True
    add(np.eye(d, dtype=complex))
    frontier = list(els)
    while frontier:
        new = []
        for x in frontier:
            for h in gens:
                y = x @ h
                if add(y):
                    new.append(y)
                    if len(els) > limit:
                        return None, None
        frontier = new
    return len(els), els


# ---------------------------------------------------------------------------------------------
# user-defined groups: ["custom", kind, d, seed, form]   (form: how the generators are handed to the library)
CUSTOM_KINDS = ["perm", "perm2", "sperm", "orth", "orth+", "conj", "conjperm", "shear", "form", "cplx", "cplxd", "none", "diag", "cunit", "cconj"]
CUSTOM_FORMS = ["numpy", "jax", "list", "lazy", "minimal"]


def custom_gens(kind, d, seed):
    """generators; those that are integer matrices up to rounding (an identity in another basis) are made exact"""
    snap = lambda A: np.round(A.real) + 0 * A if np.abs(A - np.round(A.real)).max() < 1e-12 else A
    return tuple([snap(A) for A in l] for l in _custom_gens(kind, d, seed))


def _custom_gens(kind, d, seed):
    r = np.random.default_rng([seed, d, CUSTOM_KINDS.index(kind)])
    anti = lambda: (lambda M: (M - M.T) / 2)(r.standard_normal((d, d)))
    S = np.linalg.qr(r.standard_normal((d, d)))[0] @ np.diag(np.exp(r.uniform(-.6, .6, d)))
    P = lambda: perm_matrix(r.permutation(d))
    plane = lambda: (lambda u: np.outer(u[:, 0], u[:, 1]) - np.outer(u[:, 1], u[:, 0]))(
        np.linalg.qr(r.standard_normal((d, 2)))[0]) if d > 1 else np.zeros((1, 1))
    if kind == "perm":
        return [], [P()]
    if kind == "perm2":
        return [], [P(), P()]
    if kind == "sperm":
        return [], [P() * r.choice([-1, 1], d)[:, None]]
    if kind == "orth":
        return [plane()], []
    if kind == "orth+":
        return [plane()], [np.eye(d) - 2 * np.outer(*[(lambda v: v / np.linalg.norm(v))(r.standard_normal(d))] * 2)]
    if kind == "conj":
        return [S @ plane() @ np.linalg.inv(S)], []
    if kind == "conjperm":
        return [], [S @ P() @ np.linalg.inv(S)]
    if kind == "shear":
        u = np.linalg.qr(r.standard_normal((d, 2)))[0] if d > 1 else np.zeros((1, 2))
        return [np.outer(u[:, 0], u[:, 1])], []
    if kind == "form":
        e = np.diag([1.] + [-1.] * (d - 1))
        Si = np.linalg.inv(S)
        B = Si.T @ e @ Si
        lie = nullspace_of_map(lambda A: A.T @ B + B @ A, d)
        return [np.asarray(A).real for A in lie[:3]], []
    if kind == "cplx":
        return [1j * np.diag(np.round(r.uniform(-2, 2, d)) + 0.)], []
    if kind == "cplxd":
        return [], [P() * np.exp(2j * np.pi * r.integers(0, 4, d) / 4)[:, None]]
    if kind in ("cunit", "cconj"):
        U = np.linalg.qr(r.standard_normal((d, d)) + 1j * r.standard_normal((d, d)))[0]
        if kind == "cunit":
            return [U @ np.diag(1j * np.round(r.uniform(-1.4, 1.4, d))) @ U.conj().T], []
        W = U @ np.diag(np.exp(r.uniform(-.5, .5, d)))
        return [], [W @ P() @ np.linalg.inv(W)]
    if kind == "diag":
        return [np.diag(np.round(r.uniform(-1.5, 1.5, d)) + 0.)], []
    return [], []


_ref_group = ref_group


def ref_group(spec):
    if spec[0] == "custom":
        _, kind, d, seed = spec[:4]
        lie, disc = custom_gens(kind, d, seed)
        return RefGroup(d, lie, disc, None, cplx=any(np.iscomplexobj(x) for x in lie + disc),
                        scale=.5 if kind in ("conj", "shear", "form", "diag") else 1.0)
    return _ref_group(spec)
