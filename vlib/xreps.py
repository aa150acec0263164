"""User-defined representations (subclasses of Rep as in the documentation) and their reference meaning.
["X", name]: P (pseudoscalar), det, Sym2, Alt2, Conj (orthogonal change of basis), Turn (the same
with another basis, written as a subclass of the base representation), Pow2, Pow3 (abelian groups only)."""
import numpy as np
from vlib import ref, build


def basis2(d, sign):
    cols = []
    for i in range(d):
        for j in range(i + 1):
            E = np.zeros((d, d))
            if i == j:
                if sign < 0:
                    continue
                E[i, i] = 1
            else:
                E[i, j], E[j, i] = 2 ** -.5, sign * 2 ** -.5
            cols.append(E.reshape(-1))
    return np.stack(cols, -1) if cols else np.zeros((d * d, 0))


def orth(d, seed=3):
    return np.linalg.qr(np.random.default_rng(seed + d).standard_normal((d, d)))[0]


def tens(A):
    return np.kron(A, np.eye(len(A))) + np.kron(np.eye(len(A)), A)


REF = {
    "P": (lambda d: 1, lambda g: np.eye(1) * np.sign(np.linalg.det(g)), lambda A: np.zeros((1, 1))),
    "det": (lambda d: 1, lambda g: np.eye(1) * np.linalg.det(g), lambda A: np.eye(1) * np.trace(A)),
    "Sym2": (lambda d: d * (d + 1) // 2, lambda g: basis2(len(g), 1).T @ np.kron(g, g) @ basis2(len(g), 1),
             lambda A: basis2(len(A), 1).T @ tens(A) @ basis2(len(A), 1)),
    "Alt2": (lambda d: d * (d - 1) // 2, lambda g: basis2(len(g), -1).T @ np.kron(g, g) @ basis2(len(g), -1),
             lambda A: basis2(len(A), -1).T @ tens(A) @ basis2(len(A), -1)),
    "Conj": (lambda d: d, lambda g: orth(len(g)) @ g @ orth(len(g)).T, lambda A: orth(len(A)) @ A @ orth(len(A)).T),
    "Turn": (lambda d: d, lambda g: orth(len(g), 8) @ g @ orth(len(g), 8).T, lambda A: orth(len(A), 8) @ A @ orth(len(A), 8).T),
    "Pow2": (lambda d: d, lambda g: g @ g, lambda A: 2 * A),
    "Pow3": (lambda d: d, lambda g: g @ g @ g, lambda A: 3 * A),
}
for k, (s, r, dr) in REF.items():
    ref.X_SIZES[k] = lambda ds, s=s: s(ds[0])
    ref.X_RHO[k] = lambda gs, r=r: r(np.asarray(gs[0]))
    ref.X_DRHO[k] = lambda As, dr=dr: dr(np.asarray(As[0]))

_classes = {}


def classes():
    if _classes:
        return _classes
    import jax.numpy as jnp
    from emlp.reps import Rep
    from emlp.reps.representation import Base

    class PseudoScalar(Rep):
        def __init__(self, G=None):
            self.G = G

        def __str__(self):
            return "P"

        def rho(self, M):
            sign = jnp.linalg.slogdet(M @ jnp.eye(M.shape[0]))[0]
            return sign * jnp.eye(1)

        def __call__(self, G):
            return PseudoScalar(G)

    class Det(Rep):
        def __init__(self, G=None):
            self.G = G

        def __str__(self):
            return "det"

        def rho(self, M):
            return jnp.linalg.det(M @ jnp.eye(M.shape[0])) * jnp.eye(1)

        def __call__(self, G):
            return Det(G)

    class Power2(Rep):
        """Symmetric (sign=1) or antisymmetric (sign=-1) part of V*V"""
        def __init__(self, sign, G=None):
            self.sign = sign
            self.G = G

        def __str__(self):
            return "Sym2" if self.sign > 0 else "Alt2"

        def rho(self, M):
            M = M @ jnp.eye(M.shape[0])
            E = jnp.asarray(basis2(M.shape[0], self.sign))
            return E.T @ jnp.kron(M, M) @ E

        def __call__(self, G):
            return Power2(self.sign, G)

    class Conj(Rep):
        def __init__(self, G=None):
            self.G = G

        def __str__(self):
            return "CVC"

        def rho(self, M):
            C = jnp.asarray(orth(M.shape[0]))
            return C @ (M @ C.T)

        def drho(self, A):
            C = jnp.asarray(orth(A.shape[0]))
            return C @ (A @ C.T)

        def size(self):
            return self.G.d

        def __call__(self, G):
            return Conj(G)

    class Turn(Base):
        def __init__(self, G=None):
            super().__init__(G)
            self.is_permutation = False

        def rho(self, M):
            C = jnp.asarray(orth(M.shape[0], 8))
            return C @ (M @ C.T)

        def drho(self, A):
            C = jnp.asarray(orth(A.shape[0], 8))
            return C @ (A @ C.T)

        def __str__(self):
            return "W"

    class Pow(Rep):
        def __init__(self, order, G=None):
            self.order = order
            self.G = G

        def rho(self, M):
            return jnp.linalg.matrix_power(M @ jnp.eye(M.shape[0]), self.order)

        def __str__(self):
            return f"psi{self.order}"

        def __call__(self, G):
            return Pow(self.order, G)

    _classes.update({"P": PseudoScalar, "det": Det, "Sym2": lambda G=None: Power2(1, G), "Alt2": lambda G=None: Power2(-1, G),
                     "Conj": Conj, "Turn": Turn, "Pow2": lambda G=None: Pow(2, G), "Pow3": lambda G=None: Pow(3, G)})
    return _classes


for k in REF:
    build.X_BUILD[k] = lambda Gs, k=k: classes()[k](Gs[0])
    build.X_ABSTRACT[k] = lambda k=k: classes()[k]()


def abelian(g):
    ms = g.lie + g.disc
    return all(np.allclose(a @ b, b @ a) for a in ms for b in ms)


def names(g):
    """custom representations available over the reference group g"""
    out = ["Conj", "det", "Turn"]
    if not g.cplx:
        out += ["P", "Sym2"]
        if g.d >= 2:
            out += ["Alt2"]
    if abelian(g):
        out += ["Pow2", "Pow3"]
    return out
