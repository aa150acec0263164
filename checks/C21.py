from vlib.core import *
from vlib import xreps, nets
from hypothesis import strategies as st

RULE = """Cases are (framework, group, input and output expression bound late or directly, hidden layers given as a number of
channels, a representation, or a list of either, number of layers, batch shape, seed); all parameters are overwritten with
random values.  Outputs have to be equivariant under reference group elements up to the rounding error measured by
perturbing the input, have the size of the output representation for every batch shape, be the same member by member,
under jit and with the training flag, and depend on the input when a chain of identity maps through the hidden layers
exists.  The MLP baseline is checked for its shapes.  Non-trivial: the network output is not constant and not zero."""
ASSUMPTIONS = ["real groups; one group per case", "float32 arithmetic: tolerance is relative, plus 30 times the response to a relative input perturbation of 2e-6"]
N = {"quick": 64, "thorough": 1500}
POOL = [g for g in gen.REAL + gen.ALT + gen.CUSTOM if gen.refg(g).d <= 5 and not gen.refg(g).cplx]
BATCH = [[], [1], [3], [2, 2]]


def enumerated(tier):
    V, S = ["V"], ["S"]
    i = 0
    ios = [(["sum", ["mul", 2, V], S], ["T", 2, 0]), (["T", 1, 1], ["sum", V, ["dual", V], S]), (["mul", 2, V], S), (["sum", V, S], V)]
    chs = [{"ch": 9}, {"ch": ["rep", ["sum", V, S, ["T", 2, 0]]]}, {"ch": ["list", [7, ["sum", ["mul", 2, V], S]]]}, {"ch": ["rep", V]},
           {"ch": ["list", [["sum", S, V]]]}, {"ch": ["rep", ["T", 1, 1]]}, {"ch": ["rep", ["sum", ["dual", V], S, V]]}]
    for fw in nets.FRAMEWORKS:
        for g in [["SO", 3], ["S", 3], ["SL", 2], ["O11"], ["D", 3], ["Z", 4]]:
            a, b = ios[i % 4]
            yield dict(chs[i % 7], fw=fw, group=g, rin=a, rout=b, layers=1 + i % 2, bind=["late", "direct"][i % 2], batch=BATCH[i % 4], seed=i)
            i += 1
        yield {"kind": "mlp", "fw": fw, "group": ["SO", 3], "rin": ["sum", V, S], "rout": ["T", 2, 0], "ch": 5, "layers": 2, "batch": [2], "seed": 1}
        i += 1


@st.composite
def strategy_(draw, tier):
    g = draw(st.one_of(gen.group(POOL), gen.group(POOL), gen.custom(3).filter(lambda g: not gen.refg(g).cplx)))
    rg = gen.refg(g)
    extra = [["X", n] for n in xreps.names(rg)]
    big = tier != "quick"
    rep = lambda c: draw(gen.rep([rg.d], max(c, rg.d), depth=3, rank=2, extra=extra))
    hidden = lambda: draw(st.one_of(st.integers(1, 30 if big else 14), st.builds(lambda r: r, gen.rep([rg.d], max(16 if big else 9, rg.d), depth=2, rank=2, extra=extra))))
    kind = draw(st.sampled_from(["int", "rep", "rep", "list"]))
    ch = draw(st.integers(1, 40 if big else 16)) if kind == "int" else ["rep", rep(9)] if kind == "rep" else \
        ["list", [hidden() for _ in range(draw(st.integers(1, 2)))]]
    return {"fw": draw(st.sampled_from(nets.FRAMEWORKS)), "group": g, "rin": rep(9), "rout": rep(9), "ch": ch,
            "layers": draw(st.integers(1, 3 if big else 2)), "bind": draw(st.sampled_from(["late", "late", "direct"])),
            "batch": draw(st.sampled_from(BATCH)), "seed": draw(st.integers(0, 10 ** 6))}


def strategy(tier):
    return strategy_(tier)


def tops(ast):
    """summands of the written expression that are plain V or S"""
    if ast[0] == "sum":
        return set().union(*[tops(a) for a in ast[1:]])
    return {ast[0]} if ast[0] in "VS" else set()


def bindrep(ast, G, bind):
    r = make_abstract(ast) if bind == "late" else make_rep(ast, [G])
    if isinstance(r, int):
        raise Discard()
    return r


def run_case(case):
    rng = rng_of(case)
    rg = gen.refg(case["group"])
    G = make_group(case["group"])
    ain, aout = ref.desugar(case["rin"]), ref.desugar(case["rout"])
    nin, nout = ref.size(ain, [rg.d]), ref.size(aout, [rg.d])
    ch, bind = case["ch"], case.get("bind", "late")
    if min(nin, nout) == 0:
        raise Discard()
    chain = {"V", "S"} & tops(ain) & tops(aout)
    if isinstance(ch, int):
        hid, c = [None], ch
        chain &= {"S"} if ch < 2 * rg.d else {"V", "S"}
    elif ch[0] == "rep":
        if ref.size(ref.desugar(ch[1]), [rg.d]) == 0:
            raise Discard()
        c = bindrep(ch[1], G, bind)
        chain &= tops(ref.desugar(ch[1]))
    else:
        c = []
        for h in ch[1]:
            if isinstance(h, int):
                c.append(h)
                chain &= {"S"} if h < 2 * rg.d else {"V", "S"}
            else:
                if ref.size(ref.desugar(h), [rg.d]) == 0:
                    raise Discard()
                c.append(bindrep(h, G, bind))
                chain &= tops(ref.desugar(h))
    rin, rout = bindrep(case["rin"], G, bind), bindrep(case["rout"], G, bind)
    mlp = case.get("kind") == "mlp"
    L = (nets.mlp if mlp else nets.emlp)(case["fw"], rin, rout, G, c, case["layers"])
    if case["fw"] in ("objax", "torch"):
        require(L.net.rep_in.size() == nin and L.net.rep_out.size() == nout, "rep_in / rep_out of the network")
    nlin = sum(k[1] == "w" for k in L.shapes())
    layers = len(ch[1]) if isinstance(ch, list) and ch[0] == "list" else case["layers"]
    if not mlp:
        require(nlin == layers + 1, f"{nlin} linear layers for {layers} hidden layers")
        wants = [ch] * layers if isinstance(ch, int) else [ref.size(ref.desugar(ch[1]), [rg.d])] * layers if ch[0] == "rep" else \
            [h if isinstance(h, int) else ref.size(ref.desugar(h), [rg.d]) for h in ch[1]]
        ins = [s[-1] for k, s in sorted(L.shapes().items()) if k[1] == "w"]
        require(ins == [nin] + wants, f"the linear layers take {ins} values, the hidden layers have sizes {wants}")
        L.randomize(rng, .9)
    x = (rng.standard_normal((2, nin)) / np.sqrt(nin)).astype(np.float32) * 1.5
    y = L(x)
    require(y.shape == (2, nout), f"output of shape {y.shape} for a {nout}-dimensional output representation")
    require(np.isfinite(y).all(), "output is not finite")
    noise = np.abs(L(x * (1 + 2e-6 * rng.choice([-1, 1], x.shape)).astype(np.float32)) - y).max()
    tol = 1e-3 * max(np.abs(y).max(), 1e-3) + 30 * noise + 1e-5
    xb = rng.standard_normal(case["batch"] + [nin]).astype(np.float32) / np.float32(np.sqrt(nin))
    yb = L(xb)
    require(yb.shape == tuple(case["batch"]) + (nout,), f"input of shape {xb.shape} gives output of shape {yb.shape}")
    one = np.stack([L(v) for v in xb.reshape(-1, nin)]).reshape(yb.shape)
    require_close(yb, one, 1e-3, "output on a batch differs from the outputs of its members", scale=.1 + 30 * noise)
    if case["fw"] != "torch":
        import jax
        require_close(np.asarray(jax.jit(L.raw())(x)), y, 1e-3, "output under jit", scale=.1 + 30 * noise)
    if case["fw"] == "objax":
        for t in (True, False):
            require_close(np.asarray(L.net(x, training=t)), y, 1e-4, "the training flag changes the output", scale=1.0)
    if case["fw"] == "torch":
        import torch
        for t in (True, False):
            require_close(L.net(torch.from_numpy(x), training=t).detach().numpy(), y, 1e-4, "the training flag changes the output", scale=1.0)
    if mlp:
        return Out(True, "mlp", "fw:" + case["fw"])
    used = 0
    for g in rg.elements(rng, 3, .4):
        if np.abs(g).max() > 4 or cond(g) > 30:
            continue
        r1, r2 = ref.rho(ain, [g]), ref.rho(aout, [g])
        k = np.abs(r1).sum(1).max()
        if k > 40 or np.abs(r2).sum(1).max() > 40:
            continue
        ya, yb = L((x @ r1.T).astype(np.float32)), y @ r2.T
        xx = (x @ r1.T)
        noise2 = np.abs(L((xx * (1 + 2e-6 * rng.choice([-1, 1], xx.shape))).astype(np.float32)) - ya).max()
        t = 1e-3 * max(np.abs(ya).max(), np.abs(yb).max()) + 30 * noise2 + tol * np.abs(r2).sum(1).max()
        d = np.abs(ya - yb).max()
        require(d <= t, f"network does not commute with the group: deviation {d:.3g} > {t:.3g}, outputs up to {np.abs(ya).max():.3g}")
        used += 1
    varies = np.abs(y[0] - y[1]).max() > 1e-6
    if chain:
        require(varies, "output does not depend on the input although all layers share a representation")
    return Out(varies and used > 0, "fw:" + case["fw"], "grp:" + case["group"][0], "ch:" + (case["ch"][0] if isinstance(case["ch"], list) else "int"),
               "bind:" + bind, "constant" if not varies else "", "layers:%d" % layers, "chain" if chain else "")
