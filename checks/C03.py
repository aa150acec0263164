from vlib.core import *
from checks import C01
from hypothesis import strategies as st

RULE = """Cases are (group, representation expression, vector seed).  The lazy projector is applied to random vectors and
matrices of every layout and compared with B B^H of the exact reference solution space; idempotence, fixing of the
basis, the adjoint relation <Px,y> = <x,Py> and the nearest-point property are checked on random vectors.  Non-trivial:
0 < rank < dimension; distinct by case."""
ASSUMPTIONS = C01.ASSUMPTIONS
N = {"quick": 440, "thorough": 5000}
TOL = 5e-4
enumerated = C01.enumerated


def strategy(tier):
    return st.builds(lambda c, s, k: dict(c, seed=s, k=k), gen.group_rep(cap=64 if tier == "quick" else 216),
                     st.integers(0, 10 ** 6), st.integers(1, 4))


def run_case(case):
    c = setup(case)
    rng = rng_of(case)
    k = case.get("k", 2)
    B, gap = ref.invariant_basis(c.ast, c.refs)
    if gap < 1e-5:
        raise Discard()
    P = c.R.equivariant_projector()
    require(tuple(P.shape) == (c.n, c.n), f"projector has shape {P.shape} for dimension {c.n}")
    X = rng.standard_normal((c.n, k))
    if c.cplx:
        X = X + 1j * rng.standard_normal((c.n, k))
    X = X.astype(np.complex64 if c.cplx else np.float32)
    want = B @ (B.conj().T @ X)
    PX = np.asarray(P @ X)
    require_close(PX, want, TOL, "projection of a matrix of vectors", scale=1.0)
    require_close(np.asarray(P @ X[:, 0]), want[:, 0], TOL, "projection of a vector", scale=1.0)
    require_close(np.asarray(P @ X[:, :1]), want[:, :1], TOL, "projection of a column", scale=1.0)
    require_close(np.asarray(P @ PX), PX, TOL, "projecting twice differs from projecting once", scale=1.0)
    D = dense(P)
    require_close(D, B @ B.conj().T, TOL, "dense projector", scale=1.0)
    require_close(D, D.conj().T, TOL, "projector is not self-adjoint", scale=1.0)
    Q = dense(c.R.equivariant_basis())
    require_close(D @ Q if Q.size else Q, Q, TOL, "the projector does not fix the basis", scale=1.0)
    return Out(0 < B.shape[1] < c.n, *labels(case))
