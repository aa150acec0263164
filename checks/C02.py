from vlib.core import *
from checks import C01
from hypothesis import strategies as st

RULE = """Same cases as for the soundness property (group x representation expression).  The library's basis is compared
with the exact float64 null space of the constraints of the reference generators: same dimension, orthonormal columns
and every reference solution reproduced.  Non-trivial: the reference rank is neither 0 nor the full dimension; distinct
by case."""
ASSUMPTIONS = C01.ASSUMPTIONS + ["cases whose reference spectrum has no clear gap (smallest non-zero constraint eigenvalue "
                                 "below 1e-5) are discarded"]
N = {"quick": 480, "thorough": 6000}
TOL = 5e-4


def enumerated(tier):
    yield from C01.enumerated(tier)
    # every kind of map between two small tensors for a few groups of each family
    for g in [["SO", 3], ["O", 3], ["O13"], ["Sp", 2], ["SL", 3], ["GL", 3], ["S", 4], ["Z", 5], ["D", 5], ["SU", 3],
              ["Trivial", 3], ["SO2eR3"], ["Scaling", 3], ["ZksZnxZn", 2, 2]]:
        for p, q in ((1, 0), (2, 0), (1, 1), (0, 2), (0, 3), (3, 0), (1, 2)):
            if gen.refg(g).d ** (p + q) <= (130 if tier == "quick" else 600):
                yield {"group": g, "rep": ["T", p, q], "seed": 0}


def strategy(tier):
    return gen.group_rep(cap=64 if tier == "quick" else 216)


def run_case(case):
    c = setup(case)
    B, gap = ref.invariant_basis(c.ast, c.refs)
    if gap < 1e-5:
        raise Discard()
    Q = dense(c.R.equivariant_basis())
    require(Q.shape[0] == c.n, f"basis of a {c.n}-dimensional representation has shape {Q.shape}")
    require(Q.shape[1] == B.shape[1], f"{Q.shape[1]} basis vectors, but the invariant subspace has dimension {B.shape[1]}")
    require_close(Q.conj().T @ Q, np.eye(Q.shape[1]), TOL, "basis is not orthonormal", scale=1.0)
    rest = B - Q @ (Q.conj().T @ B)
    require_close(rest, np.zeros_like(rest), TOL, "an invariant vector is not in the span of the basis", scale=1.0)
    return Out(0 < B.shape[1] < c.n, *labels(case), "rank:%s" % ("0" if not B.shape[1] else "full" if B.shape[1] == c.n else "mid"))
