"""Turns JSON specs into objects of the library under test (imported from /repo)."""
import numpy as np


def make_group(spec):
    import emlp.groups as G
    name, args = spec[0], spec[1:]
    if name == "Embed":
        sub, d, start, stop = args
        return G.Embed(make_group(sub), d, slice(start, stop))
    if name == "prod":
        return make_group(args[0]) * make_group(args[1])
    if name == "Alt":
        n, = args

        class Alt(G.Group):
            def __init__(self, n):
                gens = []
                for i in range(n - 2):
                    p = list(range(n))
                    p[i], p[i + 1], p[i + 2] = p[i + 1], p[i + 2], p[i]
                    M = np.zeros((n, n))
                    M[np.arange(n), p] = 1
                    gens.append(M)
                self.discrete_generators = np.stack(gens)
                super().__init__(n)
        return Alt(n)
    if name == "custom":
        return custom_group(*args)
    return getattr(G, name)(*args)


def custom_group(kind, d, seed, form):
    """A group written by a user: subclass of Group with generators as arrays or as lazy operators."""
    import emlp.groups as G
    from emlp.reps.linear_operator_base import Lazy, LinearOperator
    import jax.numpy as jnp
    from vlib import ref
    lie, disc = ref.custom_gens(kind, d, seed)
    lie = [A.astype(np.complex64 if np.iscomplexobj(A) else np.float32) for A in lie]
    disc = [A.astype(np.complex64 if np.iscomplexobj(A) else np.float32) for A in disc]

    class Minimal(LinearOperator):
        def __init__(self, A):
            self.A = A
            super().__init__(None, A.shape)

        def _matmat(self, V):
            return self.A @ V

        def _matvec(self, v):
            return self.A @ v

        def _adjoint(self):
            return Minimal(self.A.conj().T)

        def invT(self):
            return Minimal(jnp.linalg.inv(self.A).T)

    def pack(l):
        if form == "numpy":
            return np.stack(l)
        if form == "jax":
            return jnp.stack([jnp.asarray(x) for x in l])
        if form == "list":
            return [jnp.asarray(x) for x in l]
        return [(Lazy if form == "lazy" else Minimal)(jnp.asarray(x)) for x in l]

    class Custom(G.Group):
        def __init__(self, kind, d, seed):
            if lie:
                self.lie_algebra = pack(lie)
            if disc:
                self.discrete_generators = pack(disc)
            if not lie and not disc:
                self.d = d
            super().__init__(kind, d, seed)
    return Custom(kind, d, seed)


def make_rep(ast, Gs):
    """Concrete rep. Gs: list of groups by index."""
    from emlp.reps import V, T, Scalar
    t = ast[0]
    if t == "V":
        return V(Gs[ast[1] if len(ast) > 1 else 0])
    if t == "S":
        return Scalar(Gs[0]) if len(ast) > 1 and ast[1] == "G" else Scalar
    if t == "int":
        return ast[1]
    if t == "X":
        return X_BUILD[ast[1]](Gs)
    if t == "dual":
        return make_rep(ast[1], Gs).T
    if t == "sum":
        out = make_rep(ast[1], Gs)
        for a in ast[2:]:
            out = out + make_rep(a, Gs)
        return out
    if t == "prod":
        out = make_rep(ast[1], Gs)
        for a in ast[2:]:
            out = out * make_rep(a, Gs)
        return out
    if t == "mul":
        return ast[1] * make_rep(ast[2], Gs)
    if t == "rmul":
        return make_rep(ast[1], Gs) * ast[2]
    if t == "pow":
        return make_rep(ast[1], Gs) ** ast[2]
    if t == "T":
        return T(ast[1], ast[2], Gs[ast[3] if len(ast) > 3 else 0])
    if t == ">>":
        return make_rep(ast[1], Gs) >> make_rep(ast[2], Gs)
    if t == "<<":
        return make_rep(ast[1], Gs) << make_rep(ast[2], Gs)
    raise KeyError(ast)


def make_abstract(ast):
    """Rep written without a group (to be called with one later)."""
    from emlp.reps import V, T, Scalar
    t = ast[0]
    if t == "V":
        return V
    if t == "S":
        return Scalar
    if t == "int":
        return ast[1]
    if t == "X":
        return X_ABSTRACT[ast[1]]()
    if t == "dual":
        return make_abstract(ast[1]).T
    if t == "sum":
        out = make_abstract(ast[1])
        for a in ast[2:]:
            out = out + make_abstract(a)
        return out
    if t == "prod":
        out = make_abstract(ast[1])
        for a in ast[2:]:
            out = out * make_abstract(a)
        return out
    if t == "mul":
        return ast[1] * make_abstract(ast[2])
    if t == "rmul":
        return make_abstract(ast[1]) * ast[2]
    if t == "pow":
        return make_abstract(ast[1]) ** ast[2]
    if t == "T":
        return T(ast[1], ast[2])
    if t == ">>":
        return make_abstract(ast[1]) >> make_abstract(ast[2])
    if t == "<<":
        return make_abstract(ast[1]) << make_abstract(ast[2])
    raise KeyError(ast)


X_BUILD = {}
X_ABSTRACT = {}


def dense(M):
    """Dense float numpy matrix of an array or a lazy operator."""
    if hasattr(M, "to_dense"):
        M = M.to_dense()
    return np.asarray(M)
