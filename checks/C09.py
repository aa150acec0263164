from vlib.core import *
from hypothesis import strategies as st

RULE = """A case is a history: a list of operations on a growing set of groups and representations, mostly of equal
dimension so that cached work of one could be mistaken for another's (solve, re-solve an earlier object, project,
sample, take duals, add, multiply, instantiate the shared scalar/vector with a group, gate, allocate uniform channels,
build a bilinear map, build a linear layer, bind a bound
representation to another group).  After every solve the result is compared with the float64 reference of that group and expression
alone; at the end every earlier object is solved again and compared.  Hash randomisation differs between shards.
Non-trivial: at least two solves over two different groups; distinct by history."""
ASSUMPTIONS = ["sequences of at most 12 operations per history; all histories of a shard share one process, so later "
               "histories run with the caches of earlier ones"]
N = {"quick": 260, "thorough": 2500}
TOL = 5e-4
BYD = {}
for _g in gen.WITHCUSTOM:
    BYD.setdefault(gen.refg(_g).d, []).append(_g)
OPS = ["solve", "solve", "solve", "solve", "again", "project", "sample", "dual", "add", "mul", "scalar", "vector", "gate",
       "uniform", "bilinear", "linear", "mutate", "sumscalar", "rebind"]


def enumerated(tier):
    reps = [["T", 1, 1], ["T", 2, 0], ["sum", ["V"], ["dual", ["V"]], ["S"]], ["T", 1, 2], ["dual", ["V"]],
            ["prod", ["dual", ["V"]], ["V"]]]
    for d, l in sorted(BYD.items()):
        if d > 8:
            continue
        for k, r in enumerate(reps):
            if ref.size(ref.desugar(r), [d]) > 130:
                continue
            o = l if k % 2 == 0 else l[::-1]
            for i in range(0, len(o), 9):
                yield {"ops": [["solve", g, r] for g in o[i:i + 9]]}
    for g in (["SL", 2], ["SO", 3], ["S", 3], ["D", 3]):
        for op in OPS[4:]:
            yield {"ops": [["solve", g, ["sum", ["S"], ["V"], ["T", 1, 1]]], [op, 0], [op, 1],
                           ["solve", g, ["sum", ["S"], ["T", 2, 0]]], ["solve", ["GL", gen.refg(g).d], ["sum", ["S"], ["T", 1, 1]]]]}


@st.composite
def strategy_(draw, tier):
    d = draw(st.sampled_from([d for d in BYD if len(BYD[d]) > 1 and d <= 6]))
    ops = []
    k = draw(st.integers(3, 8 if tier == "quick" else 12))
    shared = [draw(gen.rep([d], 40, depth=2)) for _ in range(2)]
    for _ in range(k):
        op = draw(st.sampled_from(OPS))
        if op == "solve" or not ops:
            g = draw(st.sampled_from(BYD[d])) if draw(st.integers(0, 4)) else draw(gen.group(gen.WITHCUSTOM, maxd=5))
            dd = gen.refg(g).d
            r = draw(st.sampled_from(shared)) if dd == d and draw(st.booleans()) else draw(gen.rep([dd], 36, depth=2))
            ops.append(["solve", g, r])
        else:
            ops.append([op, draw(st.integers(0, 20))])
    return {"ops": ops}


def strategy(tier):
    return strategy_(tier)


def verify(entry, what, rng):
    R, des, rg, Bref = entry
    B, gap = Bref
    if gap < 1e-5:
        return
    Q = dense(R.equivariant_basis())
    n = ref.size(des, [rg.d])
    require(Q.shape == (n, B.shape[1]), f"{what}: basis shape {Q.shape}, expected {(n, B.shape[1])}")
    PB = B @ B.conj().T
    require_close(Q @ Q.conj().T, PB, TOL, f"{what}: solution space", scale=1.0)
    x = rng.standard_normal(n).astype(np.float32)
    require_close(np.asarray(R.equivariant_projector() @ x), PB @ x, TOL, f"{what}: projection", scale=1.0)


def run_case(case):
    from emlp.reps import V, T, Scalar, bilinear_weights
    import emlp.nn.objax as nnx
    rng = rng_of(case)
    ents, specs = [], []
    for step, op in enumerate(case["ops"]):
        kind = op[0]
        if kind == "solve":
            g, ast = op[1], op[2]
            rg, G = gen.refg(g), make_group(g)
            R = make_rep(ast, [G])
            if isinstance(R, int):
                continue
            des = ref.desugar(ast)
            e = (R, des, rg, ref.invariant_basis(des, [rg]))
            verify(e, f"step {step} {g} {ast}", rng)
            ents.append(e + (G, ast, g))
            specs.append(str(g))
            continue
        if not ents:
            continue
        R, des, rg, Bref, G, ast, g = ents[op[1] % len(ents)]
        n = ref.size(des, [rg.d])

        def add(R2, ast2):
            d2 = ref.desugar(ast2)
            e2 = (R2, d2, rg, ref.invariant_basis(d2, [rg]))
            verify(e2, f"step {step} {kind} {g} {ast}", rng)
            ents.append(e2 + (G, ast2, g))
        if kind == "again":
            verify((R, des, rg, Bref), f"step {step} solving {g} {ast} again", rng)
        elif kind == "project":
            R.equivariant_projector() @ np.ones(n, np.float32)
        elif kind == "sample":
            G.samples(2)
        elif kind == "dual":
            add(R.T, ["dual", ast])
        elif kind == "add" and n <= 60:
            add(R + V(G), ["sum", ast, ["V"]])
        elif kind == "mul" and n * rg.d <= 60:
            add(V(G) * R, ["prod", ["V"], ast])
        elif kind == "sumscalar":
            add(R + 2 * Scalar(G), ["sum", ast, ["S"], ["S"]])
        elif kind == "scalar":
            s = Scalar(G)
            require(s.size() == 1 and s == Scalar, "Scalar bound to a group")
        elif kind == "vector":
            require(V(G).size() == rg.d and T(1)(G).size() == rg.d, "V bound to a group")
        elif kind == "gate":
            if n <= 40:
                gr = nnx.gated(R)
                nnx.gate_indices(R)
                gr.size()
        elif kind == "uniform":
            nnx.uniform_rep(int(rg.d) * 3 + 5, G).size()
        elif kind == "bilinear":
            if n <= 12:
                bilinear_weights(R, R)
        elif kind == "linear":
            if n <= 12 and not rg.cplx:
                nnx.Linear(R, V(G))
        elif kind == "rebind":
            other = make_group(BYD[rg.d][op[1] % len(BYD[rg.d])] if op[1] % 2 else [["SO", 3], ["Z", 2], ["S", 4], ["SL", 2]][op[1] // 2 % 4])
            if rg.d ** 4 < 300 and other.d ** 4 < 300:
                V(G)(other).size()
                try:
                    R2 = R(other)
                    R2.size(), R2.canonicalize()
                except AssertionError:
                    require(rg.d != other.d, "a representation cannot be bound to another group of the same dimension")
        elif kind == "mutate":
            # results handed out belong to the caller: overwriting them must not change what is handed out next
            Q = R.equivariant_basis()
            try:
                Qn = np.asarray(Q) if not hasattr(Q, "to_dense") else np.array(dense(Q))
                if Qn.flags.writeable:
                    Qn[:] = 7
            except Exception:
                pass
            c, p = R.canonicalize()
            repr(R), str(R)
    require(V.G is None and V.T.T == V and not V.concrete, "the shared vector representation got bound to a group")
    require(Scalar.G is None, "the shared scalar representation got bound to a group")
    for R, des, rg, Bref, G, ast, g in ents:
        verify((R, des, rg, Bref), f"at the end: {g} {ast}", rng)
        F = make_rep(ast, [make_group(g)])
        verify((F, des, rg, Bref), f"at the end, rebuilt: {g} {ast}", rng)
    return Out(len(set(specs)) >= 2 and len(ents) >= 2, "solves:%d" % len(ents), *["op:" + o[0] for o in case["ops"]])
