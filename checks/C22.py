from vlib.core import *
from vlib import nets
from hypothesis import strategies as st

RULE = """Cases are (two frameworks, group, input and output expression, a hidden representation and a number of layers or
a list of hidden representations, without repeated summands so
that no random choice of the construction is left, batch size, seed).  The network built in both frameworks gets the same
parameters; outputs, and the gradients of a random linear functional of the outputs with respect to every parameter and to
the input, have to agree; the gradient also has to predict the change of the functional along a random direction.
Cases of kind config compare the parameters of the networks
all frameworks build from the same numbers of channels.  Non-trivial: outputs vary with the input and at least one parameter gradient is non-zero."""
ASSUMPTIONS = ["parameters correspond by layer and kind (weight, bias, bilinear)", "real groups"]
N = {"quick": 56, "thorough": 1500}
POOL = [g for g in gen.REAL + gen.ALT + [g for g in gen.CUSTOM if not gen.refg(g).cplx] if gen.refg(g).d <= 4]


def enumerated(tier):
    yield from configs()
    V, S = ["V"], ["S"]
    i = 0
    for fw in [["objax", "torch"], ["objax", "flax"], ["haiku", "torch"], ["flax", "haiku"], ["flax", "torch"]]:
        for g in [["SO", 3], ["S", 3], ["SL", 2], ["D", 3]]:
            yield {"fws": fw, "group": g, "rin": ["sum", ["mul", 2, V], S], "rout": ["sum", V, S, ["T", 1, 1]],
                   "hidden": [["sum", S, V, ["T", 2, 0]], ["sum", ["T", 1, 1], ["mul", 3, S], V]][:1 + i % 2], "batch": i % 4, "seed": i}
            i += 1
    for fw in nets.FRAMEWORKS[1:]:
        for layers in (2, 3):
            yield {"fws": ["objax", fw], "group": [["O", 2], ["SL", 2]][i % 2], "rin": ["sum", V, S], "rout": ["sum", V, S],
                   "hidden": [["sum", V, S]], "layers": layers, "batch": 2, "seed": i}
            i += 1


def configs():
    V, S = ["V"], ["S"]
    i = 0
    for g in [["SO", 2], ["S", 3], ["SL", 2], ["O", 3], ["D", 3]]:
        for ch, layers in ((7, 1), (12, 3), ([6, 11], 2), ([9, ["sum", V, S], 4], 3), ([["sum", S, V], 5], 1), ([4], 3)):
            if i % 3 < 2:
                yield {"kind": "config", "group": g, "rin": ["sum", V, S], "rout": V, "ch": ch, "layers": layers, "seed": i}
            i += 1


@st.composite
def strategy_(draw, tier):
    g = draw(gen.group(POOL))
    rg = gen.refg(g)
    d = rg.d
    cand = [["V"], ["T", 2, 0]] + ([] if rg.orthogonal else [["dual", ["V"]], ["T", 1, 1], ["T", 0, 2]])
    cand = [c for c in cand if ref.size(ref.desugar(c), [d]) <= 9]

    def hidden():
        parts = [c for c in draw(st.permutations(cand)) if draw(st.integers(0, 2))] or [["V"]]
        k = draw(st.integers(0, 3))
        parts = parts[:3] + [["int", k]] if k else parts[:3]
        parts = draw(st.permutations(parts))
        if parts[0][0] == "int":
            parts = parts[1:] + parts[:1]
        return ["sum", *parts] if len(parts) > 1 else parts[0]
    rep = lambda c: draw(gen.rep([d], max(c, d), depth=3, rank=2))
    layers = draw(st.sampled_from([None, None, 1, 2, 3]))
    return {"fws": draw(st.permutations(nets.FRAMEWORKS))[:2], "group": g, "rin": rep(8), "rout": rep(8), "layers": layers,
            "hidden": [hidden() for _ in range(1 if layers else draw(st.integers(1, 2)))], "batch": draw(st.integers(0, 4)), "seed": draw(st.integers(0, 10 ** 6))}


def strategy(tier):
    return strategy_(tier)


def config(case):
    """the same arguments give networks of the same architecture"""
    rg = gen.refg(case["group"])
    got = {}
    ch = case["ch"]
    sizes = [ch] * case["layers"] if isinstance(ch, int) else [c if isinstance(c, int) else ref.size(ref.desugar(c), [rg.d]) for c in ch]
    for fw in nets.FRAMEWORKS:
        c = ch if isinstance(ch, int) else [c if isinstance(c, int) else make_abstract(c) for c in ch]
        L = nets.emlp(fw, make_abstract(case["rin"]), make_abstract(case["rout"]), make_group(case["group"]), c, case["layers"])
        got[fw] = L.shapes()
        ins = [v[-1] for k, v in sorted(got[fw].items()) if k[1] == "w"]
        require(ins == [ref.size(ref.desugar(case["rin"]), [rg.d])] + sizes, f"{fw}: linear layers take {ins} values, hidden sizes {sizes}")
        require([k for k in got[fw] if k[1] == "b"] and len([k for k in got[fw] if k[1] == "bi"]) == len(sizes), f"{fw}: parameters {sorted(got[fw])}")
        if rg.orthogonal:  # otherwise the types of the hidden tensors are a random choice
            require(got[fw] == got["objax"], f"{fw} has parameters {got[fw]}, objax {got['objax']}")
    return Out(True, "config", "grp:" + case["group"][0])


def run_case(case):
    if case.get("kind") == "config":
        return config(case)
    rng = rng_of(case)
    rg = gen.refg(case["group"])
    ain, aout = ref.desugar(case["rin"]), ref.desugar(case["rout"])
    nin, nout = ref.size(ain, [rg.d]), ref.size(aout, [rg.d])
    if min(nin, nout) == 0:
        raise Discard()
    res, vals = [], None
    x = (rng.standard_normal(([case["batch"]] if case["batch"] else []) + [nin]) * 1.5 / np.sqrt(nin)).astype(np.float32)
    cot = rng.standard_normal(x.shape[:-1] + (nout,)).astype(np.float32)
    for fw in case["fws"]:
        G = make_group(case["group"])
        rin, rout = make_abstract(case["rin"]), make_abstract(case["rout"])
        if isinstance(rin, int) or isinstance(rout, int):
            raise Discard()
        hid = [make_abstract(h) for h in case["hidden"]]
        L = nets.emlp(fw, rin, rout, G, hid[0] if case.get("layers") else hid, case.get("layers") or 3)
        if vals is None:
            vals = L.randomize(rng, .9)
        require(L.shapes() == {k: v.shape for k, v in vals.items()}, f"parameters of {case['fws']} differ: {L.shapes()} / "
                f"{ {k: v.shape for k, v in vals.items()} }")
        L.set(vals)
        res.append((L(x), L.grads(x, cot), L))
    (ya, (ga, gxa), La), (yb, (gb, gxb), Lb) = res
    noise = np.abs(La(x * np.float32(1 + 2e-6)) - ya).max()
    sc = max(np.abs(ya).max(), 1e-2) + 3e4 * noise
    require_close(ya, yb, 1e-3, f"outputs of {case['fws']} with the same parameters", scale=sc)
    gs = max([np.abs(v).max() for v in ga.values() if v.size] + [np.abs(gxa).max(), 1e-2])
    for k in ga:
        require_close(ga[k], gb[k], 2e-3, f"gradients of {case['fws']} with respect to parameter {k}", scale=gs)
    require_close(gxa, gxb, 2e-3, f"gradients of {case['fws']} with respect to the input", scale=gs)
    # the gradient predicts differences
    for L, g, gx in ((La, ga, gxa), (Lb, gb, gxb)):
        d = {k: rng.standard_normal(v.shape).astype(np.float32) for k, v in vals.items()}
        dx = rng.standard_normal(x.shape).astype(np.float32)
        h = 1e-2
        f = []
        for s in (h, -h, h / 2, -h / 2):
            L.set({k: (vals[k] + s * d[k]).astype(np.float32) for k in vals})
            f.append(float((cot.astype(float) * L((x + s * dx).astype(np.float32))).sum()))
        L.set(vals)
        d1, d2 = (f[0] - f[1]) / (2 * h), (f[2] - f[3]) / h
        fd = d2 + (d2 - d1) / 3
        pred = sum(float((g[k] * d[k]).sum()) for k in vals) + float((gx * dx).sum())
        mag = sum(float(np.abs(g[k] * d[k]).sum()) for k in vals) + float(np.abs(gx * dx).sum())
        require(abs(fd - pred) <= .03 * max(mag, 1) + 3 * abs(d2 - d1) + 1e3 * noise, f"gradient predicts a slope of {pred:.5g}, difference quotient {fd:.5g}")
    varies = np.abs(gxa).max() > 1e-6
    return Out(varies and gs > 1e-2, "fws:" + "/".join(sorted(case["fws"])), "grp:" + case["group"][0], "layers:%d" % len(case["hidden"]),
               "constant" if not varies else "")
