"""Lazy linear operator expressions: generator, construction with the library, dense float64 evaluation."""
import numpy as np
from hypothesis import strategies as st
from vlib import ref


def mat(m, n, seed, kind):
    """Deterministic matrix; square ones are well conditioned.  kind: f (float), c (complex), i (small integers)"""
    r = np.random.default_rng([seed, m, n])
    if kind == "i":
        M = r.integers(-2, 3, (m, n)).astype(float)
        return M + 4 * np.eye(m, n) if m == n else M
    M = r.standard_normal((m, n))
    if kind == "c":
        M = M + 1j * r.standard_normal((m, n))
    return M + 3 * np.eye(m, n) if m == n else M


def f32(M):
    return M.astype(np.complex64 if np.iscomplexobj(M) else np.float32)


# --- dense evaluation ---------------------------------------------------------------------------
def perm_of(n, seed):
    return np.random.default_rng([seed, n]).permutation(n)


def evald(a):
    t = a[0]
    if t in ("lazy", "dense", "custom", "mv", "mm", "plain"):
        return f32(mat(a[1], a[2], a[3], a[4])).astype(complex)
    if t == "I":
        return np.eye(a[1])
    if t == "perm":
        return ref.perm_matrix(perm_of(a[1], a[2]))
    if t == "shift":
        return ref.perm_matrix([(i - a[2]) % a[1] for i in range(a[1])])
    if t == "swap":
        p = list(range(a[1]))
        p[a[2]], p[a[3]] = p[a[3]], p[a[2]]
        return ref.perm_matrix(p)
    if t == "rot":
        n = a[1]
        return ref.perm_matrix(np.rot90(np.arange(n * n).reshape(n, n), a[2]).reshape(-1))
    if t == "kron":
        return ref.kron(*[evald(b) for b in a[1:]])
    if t == "kronsum":
        Ms = [evald(b) for b in a[1:]]
        ns = [M.shape[0] for M in Ms]
        out = 0
        for i, M in enumerate(Ms):
            out = out + ref.kron(np.eye(int(np.prod(ns[:i]))), M, np.eye(int(np.prod(ns[i + 1:]))))
        return out
    if t == "dsum":
        return ref.bdiag([evald(b) for b, c in zip(a[1], a[2]) for _ in range(c)])
    if t == "concat":
        return np.concatenate([evald(b) for b in a[1:]], 0)
    if t == "+":
        return evald(a[1]) + evald(a[2])
    if t == "-":
        return evald(a[1]) - evald(a[2])
    if t == "neg":
        return -evald(a[1])
    if t in ("scale", "rscale"):
        return scalar(a[1]) * evald(a[2])
    if t in ("@", "*"):
        return evald(a[1]) @ evald(a[2])
    if t == "pow":
        return np.linalg.matrix_power(evald(a[1]), a[2])
    if t == "T":
        return evald(a[1]).T
    if t == "H":
        return evald(a[1]).conj().T
    if t == "invT":
        return np.linalg.inv(evald(a[1])).T
    raise KeyError(a)


def scalar(c):
    return complex(*c) if isinstance(c, list) else c


# --- construction -------------------------------------------------------------------------------
def build(a):
    import jax.numpy as jnp
    from emlp.reps.linear_operator_base import LinearOperator, Lazy
    from emlp.reps import linear_operators as L
    t = a[0]
    if t in ("lazy", "dense", "custom", "mv", "mm", "plain"):
        M = f32(mat(a[1], a[2], a[3], a[4]))
        if t == "lazy":
            return Lazy(jnp.asarray(M))
        if t == "plain":
            return Lazy(M)
        if t == "dense":
            return jnp.asarray(M) if a[3] % 2 else M
        if t == "custom":
            kw = {"matmat": lambda X: M @ X, "rmatmat": lambda X: M.conj().T @ X} if a[3] % 2 else {}
            return LinearOperator(M.shape, lambda x: M @ x, rmatvec=lambda x: M.conj().T @ x, **kw)

        class MV(LinearOperator):
            def __init__(self):
                super().__init__(None, M.shape)

            def _matvec(self, x):
                return jnp.asarray(M) @ x

            def _rmatvec(self, x):
                return jnp.asarray(M.conj().T) @ x

        class MM(LinearOperator):
            def __init__(self):
                super().__init__(None, M.shape)

            def _matmat(self, X):
                return jnp.asarray(M) @ X

            def _adjoint(self):
                return Lazy(jnp.asarray(M.conj().T))
        return MV() if t == "mv" else MM()
    if t == "I":
        return L.I(a[1])
    if t == "perm":
        return L.LazyPerm(perm_of(a[1], a[2]))
    if t == "shift":
        return L.LazyShift(a[1], a[2])
    if t == "swap":
        return L.SwapMatrix([a[2], a[3]] if False else np.array([a[2], a[3]]), a[1])
    if t == "rot":
        return L.Rot90(a[1], a[2])
    if t == "kron":
        return L.LazyKron([build(b) for b in a[1:]])
    if t == "kronsum":
        return L.LazyKronsum([build(b) for b in a[1:]])
    if t == "dsum":
        Ms = [build(b) for b in a[1]]
        return L.LazyDirectSum(Ms) if all(c == 1 for c in a[2]) and len(Ms) % 2 else L.LazyDirectSum(Ms, list(a[2]))
    if t == "concat":
        return L.ConcatLazy([build(b) for b in a[1:]])
    if t == "+":
        return build(a[1]) + build(a[2])
    if t == "-":
        return build(a[1]) - build(a[2])
    if t == "neg":
        return -build(a[1])
    if t == "scale":
        return scalar(a[1]) * build(a[2])
    if t == "rscale":
        return build(a[2]) * scalar(a[1])
    if t == "@":
        return build(a[1]) @ build(a[2])
    if t == "*":
        return build(a[1]) * build(a[2])
    if t == "pow":
        return build(a[1]) ** a[2]
    if t == "T":
        return build(a[1]).T
    if t == "H":
        return build(a[1]).H
    if t == "invT":
        return build(a[1]).invT()
    raise KeyError(a)


INV = {"lazy", "plain", "I", "perm", "shift", "swap", "rot"}


def has_invT(a):
    t = a[0]
    if t in INV:
        return True
    if t == "dense":
        return True
    if t in ("neg", "scale", "rscale", "pow", "kron", "dsum", "@", "*"):
        subs = [b for b in a[1:] if isinstance(b, list) and b and isinstance(b[0], str)]
        if t == "dsum":
            subs = a[1]
        return all(has_invT(b) for b in subs) and all(is_sq(b) for b in subs)
    return t in ("+", "-")


def is_sq(a):
    s = shape(a)
    return s[0] == s[1]


def shape(a):
    return evald(a).shape


def ops_of(a):
    out = {a[0]}
    for b in a[1:]:
        if isinstance(b, list) and b:
            if isinstance(b[0], str):
                out |= ops_of(b)
            elif isinstance(b[0], list):
                for c in b:
                    out |= ops_of(c)
    return out


def count(a):
    n = 1
    for b in a[1:]:
        if isinstance(b, list) and b:
            if isinstance(b[0], str):
                n += count(b)
            elif isinstance(b[0], list):
                n += sum(count(c) for c in b)
    return n


# --- generation ---------------------------------------------------------------------------------
@st.composite
def leaf(draw, m, n, structured=True, arrays=False):
    seed = draw(st.integers(0, 9999))
    kinds = ["lazy", "lazy", "plain", "custom", "mv", "mm"]
    if arrays:
        kinds += ["dense", "dense"]
    if m == n and structured:
        kinds += ["I", "perm", "shift"] + (["swap"] if m >= 2 else []) + (["rot"] * 2 if int(m ** .5) ** 2 == m else [])
    k = draw(st.sampled_from(kinds))
    if k == "I":
        return ["I", m]
    if k == "perm":
        return ["perm", m, seed]
    if k == "shift":
        return ["shift", m, draw(st.integers(-2, m + 1))]
    if k == "swap":
        i = draw(st.integers(0, m - 1))
        return ["swap", m, i, draw(st.integers(0, m - 1).filter(lambda j: j != i))]
    if k == "rot":
        return ["rot", int(m ** .5), draw(st.integers(-2, 5))]
    return [k, m, n, seed, draw(st.sampled_from(["f", "f", "i", "c"]))]


def split(draw, n, k):
    """n as a product / sum helper: factors of n"""
    return [(a, n // a) for a in range(1, n + 1) if n % a == 0]


@st.composite
def tree(draw, m, n, depth, arrays=False):
    """operator expression of shape m x n"""
    if depth <= 0:
        return draw(leaf(m, n, arrays=arrays))
    kinds = ["leaf", "+", "-", "neg", "scale", "rscale", "@", "*", "T", "H", "@", "+"]
    if m == n:
        kinds += ["pow", "invT", "kronsum"]
    kinds += ["kron"] * 2 if m * n > 1 else []
    kinds += ["dsum"] * 2 if m >= 2 and n >= 2 else []
    kinds += ["concat"] if m % 2 == 0 else []
    k = draw(st.sampled_from(kinds))
    sub = lambda a, b, **kw: draw(tree(a, b, depth - 1, **kw))
    if k in ("+", "-"):
        a = sub(m, n)
        if draw(st.integers(0, 3)) == 0:  # operator + dense (jax) array
            return [k, a, ["dense", m, n, 2 * draw(st.integers(0, 999)) + 1, draw(st.sampled_from("fci"))]]
        return [k, a, sub(m, n)]
    if k == "neg":
        return ["neg", sub(m, n)]
    if k in ("scale", "rscale"):
        return [k, draw(st.sampled_from([2, -1, 3, .5, -1.5, [0., 1.], [1., -2.]])), sub(m, n)]
    if k in ("@", "*"):
        p = draw(st.integers(1, 5))
        return [k, sub(m, p), sub(p, n)]
    if k in ("T", "H"):
        return [k, sub(n, m)]
    if k == "pow":
        return ["pow", sub(n, n), draw(st.integers(0, 3))]
    if k == "invT":
        a = sub(n, n)
        D = evald(a)
        if has_invT(a) and np.linalg.cond(D) < 50:
            return ["invT", a]
        return a
    if k in ("kron", "kronsum"):
        parts, mm, nn = [], m, n
        for _ in range(draw(st.integers(1, 2))):
            f = draw(st.sampled_from([x for x in range(1, mm + 1) if mm % x == 0]))
            g = f if k == "kronsum" else draw(st.sampled_from([x for x in range(1, nn + 1) if nn % x == 0]))
            parts.append((f, g))
            mm, nn = mm // f, nn // g
        parts.append((mm, nn))
        return [k] + [sub(f, g, arrays=True) for f, g in parts]
    if k == "dsum":
        ms, cs, mm, nn = [], [], m, n
        while mm > 0 and nn > 0 and len(ms) < 3:
            f = draw(st.integers(1, mm))
            g = draw(st.integers(1, nn))
            c = draw(st.integers(1, max(1, min(mm // f, nn // g))))
            ms.append(sub(f, g, arrays=True))
            cs.append(c)
            mm, nn = mm - f * c, nn - g * c
            if mm == 0 and nn == 0:
                break
        if (mm > 0) and (nn > 0):
            ms.append(sub(mm, nn, arrays=True))
            cs.append(1)
        elif mm > 0 or nn > 0:
            return draw(leaf(m, n))
        return ["dsum", ms, cs]
    if k == "concat":
        q = draw(st.sampled_from([x for x in (1, 2, 3, 4) if m % x == 0]))
        return ["concat"] + [sub(m // q, n, arrays=True) for _ in range(q)]
    return draw(leaf(m, n, arrays=arrays))
