from vlib.core import *
from checks.C12 import strategy_ as group_strategy, BASES
from hypothesis import strategies as st

RULE = """Cases are groups: all shipped families with random parameters, embeddings, products and user-defined groups whose
generators are permutations, signed permutations, rotations, reflections, shears, conjugated rotations, isometries of a
form or complex, handed over as arrays or lazily.  The reported flags are compared with what the reference generators
and random elements do to the Euclidean inner product and to coordinates, and whenever a representation is reported to
be its own dual the two actions must coincide.  Non-trivial: the group has a generator; distinct by case."""
ASSUMPTIONS = ["generators within 1e-6 of an orthogonal / permutation matrix count as such; generated ones are exact or "
               "deviate by more than 1e-2"]
N = {"quick": 480, "thorough": 5000}


def enumerated(tier):
    for g in gen.WITHCUSTOM + gen.BIG:
        yield {"group": g}
    for k in range(1, 13):
        yield {"group": ["C", k]}
        yield {"group": ["D", k]}
    for k in ref.CUSTOM_KINDS:
        for d in (1, 2, 3, 5):
            yield {"group": ["custom", k, d, d, "numpy" if d % 2 else "lazy"]}


def strategy(tier):
    cust = gen.custom(6)
    small = gen.custom(3)
    return st.one_of(cust, cust, st.builds(lambda c: c["group"], group_strategy(tier)),
                     st.builds(lambda c, b: ["prod", c, b], small, st.sampled_from(BASES)),
                     st.builds(lambda c, b: ["prod", b, c], small, st.sampled_from(BASES)),
                     st.builds(lambda c, a, b: ["Embed", c, c[2] + a + b, a, a + c[2]], small, st.integers(0, 2),
                               st.integers(0, 2))).map(lambda g: {"group": g})


def run_case(case):
    from emlp.reps import V
    spec = case["group"]
    rg, G = gen.refg(spec), make_group(spec)
    rng = rng_of(case)
    d = rg.d
    dev = max([np.abs(A + A.T).max() for A in rg.lie] + [np.abs(h.T @ h - np.eye(d)).max() for h in rg.disc] + [0])
    if 1e-7 < dev < 1e-2:
        raise Discard()
    orth, perm = rg.orthogonal, rg.permutation
    if rg.lie and all(np.abs(A).max() < 1e-9 for A in rg.lie):
        perm = None  # zero generators: the group is trivial, either answer describes it
    require(bool(G.is_orthogonal) == orth, f"{spec} is reported {'' if G.is_orthogonal else 'not '}orthogonal")
    if perm is not None:
        require(bool(G.is_permutation) == perm, f"{spec} is reported {'' if G.is_permutation else 'not '}a permutation group")
    ct = np.complex64 if rg.cplx else np.float32
    els = [g for g in rg.elements(rng, 2, mag=.6) if np.abs(g).max() < 20]
    for g in els:
        if bool(G.is_orthogonal):
            require(np.abs(g.T @ g - np.eye(d)).max() < 1e-5, f"{spec} is reported orthogonal but has an element that is not")
        if bool(G.is_permutation):
            x = rng.standard_normal(d)
            require(np.abs(np.sort(g @ x) - np.sort(x)).max() < 1e-5, f"{spec} is reported a permutation group but has an element that is not")
        D = V(G).T
        want = np.linalg.inv(g).T
        require_close(dense(D.rho(g.astype(ct))), want, 1e-4, f"dual of the base representation of {spec}", scale=1.0)
        if D == V(G):
            require_close(want, g, 1e-4, f"{spec}: the base representation is reported self-dual", scale=1.0)
    return Out(bool(rg.lie or rg.disc), "fam:" + gen.families(spec), "orth" if orth else "", "perm" if perm else "",
               "neither" if not orth else "", "kind:" + (spec[1] if spec[0] == "custom" else spec[0]))
