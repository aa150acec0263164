from vlib.core import *
from hypothesis import strategies as st

RULE = """Cases are (argument trees, which leaves require gradients, output tree, smooth function chosen by a seed, dtype).  The
function torchify_fn returns for a jax function has to give the same tree of torch tensors, and the gradients of a random
linear functional of (some of) the outputs with respect to every tensor that requires one has to equal jax's; tensors that do
not require a gradient get none, gradients accumulate, non-contiguous, zero-dimensional and empty tensors, integer tensors
and plain numbers work, the inputs are not modified, and repeated calls with other shapes give their own results.  Some functions also return a
captured array (once or twice) or an input unchanged; changing inputs after the forward pass does not change gradients, and
changing results in place changes neither inputs nor later results.
Non-trivial: at least two leaves with gradients."""
ASSUMPTIONS = ["first derivatives only", "CPU"]
N = {"quick": 320, "thorough": 4000}
SHAPES = [[], [1], [3], [2, 3], [0], [2, 1, 2]]


def leaf():
    return st.builds(lambda s, g, k: {"leaf": s, "grad": g, "kind": k}, st.sampled_from(SHAPES), st.booleans(),
                     st.sampled_from(["float"] * 5 + ["strided", "int", "bool", "number", "jax", "inner"]))


def tree(dep):
    if dep == 0:
        return leaf()
    sub = st.deferred(lambda: tree(dep - 1))
    return st.one_of(leaf(), leaf(), st.builds(lambda l: {"tuple": l}, st.lists(sub, min_size=1, max_size=2)),
                     st.builds(lambda l: {"list": l}, st.lists(sub, min_size=0, max_size=2)),
                     st.builds(lambda l: {"dict": dict(zip("bac", l))}, st.lists(sub, min_size=1, max_size=3)))


def otree(dep):
    o = st.builds(lambda s: {"leaf": s}, st.sampled_from([[], [2], [3, 2], [1]]))
    if dep == 0:
        return o
    sub = st.deferred(lambda: otree(dep - 1))
    return st.one_of(o, st.builds(lambda l: {"tuple": l}, st.lists(sub, min_size=1, max_size=3)),
                     st.builds(lambda l: {"dict": dict(zip("zxy", l))}, st.lists(sub, min_size=1, max_size=2)), st.builds(lambda l: {"list": l}, st.lists(sub, min_size=1, max_size=2)))


def enumerated(tier):
    L = lambda s, g=True, k="float": {"leaf": s, "grad": g, "kind": k}
    i = 0
    for args in ([L([3])], [L([3]), L([2, 3])], [L([3], False), L([3])], [L([3]), L([3], False)], [L([2], True, "strided")], [L([], True)],
                 [{"dict": {"w": L([3]), "b": L([2])}}, L([3])], [{"tuple": [L([3]), {"list": [L([2], False), L([1])]}]}],
                 [L([3], False, "int"), L([3])], [L([3], False)], [L([0]), L([2])], [L([], False, "number"), L([2])], [L([2], True, "inner")]):
        for out in ({"leaf": [2]}, {"tuple": [{"leaf": []}, {"leaf": [3]}]}, {"dict": {"z": {"leaf": [2]}, "a": {"leaf": [1]}}}):
            yield {"args": args, "out": out, "use": [1, 0, 1][i % 3:] + [1, 1], "jit": bool(i % 2), "seed": i, "extra": ["", "const", "echo", "alias"][(i + i // 4) % 4]}
            i += 1


def strategy(tier):
    return st.builds(lambda a, o, u, j, s, e: {"args": a, "out": o, "use": u, "jit": j, "seed": s, "extra": e}, st.lists(tree(2), min_size=1, max_size=3), otree(2),
                     st.lists(st.integers(0, 1), min_size=1, max_size=4), st.booleans(), st.integers(0, 10 ** 6),
                     st.sampled_from(["", "", "const", "echo", "alias"]))


def walk(t, f):
    if "leaf" in t:
        return f(t)
    if "tuple" in t:
        return tuple(walk(a, f) for a in t["tuple"])
    if "list" in t:
        return [walk(a, f) for a in t["list"]]
    done = {k: walk(a, f) for k, a in sorted(t["dict"].items())}  # leaves in jax's order, dictionary in its own
    return {k: done[k] for k in t["dict"]}


def run_case(case):
    import jax
    import jax.numpy as jnp
    import torch
    from emlp.nn.pytorch import torchify_fn
    rng = rng_of(case)
    leaves = []  # (torch value, jax value, wants gradient, torch leaf whose .grad is inspected, map from gradient)

    def build(t):
        s, k = t["leaf"], t["kind"]
        a = rng.standard_normal(s).astype(np.float32)
        if k == "number":
            v = float(a.sum())
            leaves.append([v, v, False, None])
            return v
        if k == "jax":
            leaves.append([jnp.asarray(a), a, False, None])
            return leaves[-1][0]
        if k in ("int", "bool"):
            a = rng.integers(0, 5, s).astype(np.int32) if k == "int" else rng.integers(0, 2, s).astype(bool)
            leaves.append([torch.from_numpy(np.array(a)), a, False, None])
            return leaves[-1][0]
        if k == "strided" and len(s) >= 1:
            big = torch.from_numpy(np.repeat(a, 2, axis=0).copy())[::2]
            if len(s) >= 2:
                big = torch.from_numpy(np.ascontiguousarray(np.swapaxes(a, -1, -2))).transpose(-1, -2)
            v = big.detach().requires_grad_(t["grad"])
        else:
            v = torch.from_numpy(a.copy()).requires_grad_(t["grad"])
        node = v
        if k == "inner" and t["grad"]:
            node = v * 1.0  # not a leaf of the autograd graph
        leaves.append([node, a, t["grad"], v])
        return node
    targs = [walk(t, build) for t in case["args"]]
    flat = [l[1] for l in leaves]
    outs = []
    walk(case["out"], lambda t: outs.append(t["leaf"]))
    const = jnp.asarray(rng.standard_normal((4, 3)).astype(np.float32))
    echo = [i for i, l in enumerate(leaves) if isinstance(l[1], np.ndarray) and l[1].dtype == np.float32]
    extra = case.get("extra", "")
    if extra in ("echo", "alias") and not echo:
        extra = "const"
    exo = {"": [], "const": [(4, 3)], "echo": [leaves[echo[-1]][1].shape] if echo else [], "alias": [(4, 3), (4, 3)]}[extra]
    nout, outs = len(outs), outs + exo  # outputs beyond nout are arrays handed through unchanged
    cf = [[rng.standard_normal(tuple(s) + tuple(np.shape(v))).astype(np.float32) for v in flat] for s in outs]
    cross = [[rng.standard_normal(tuple(s)).astype(np.float32) for v in flat] for s in outs]

    def fun(*args):
        vals = jax.tree_util.tree_leaves(args)
        ys = []
        for s, cs, cr in zip(outs[:nout], cf, cross):
            y, q = jnp.ones(s), 1.0
            for v, c, r in zip(vals, cs, cr):
                v = jnp.asarray(v, jnp.float32)
                k = v.ndim
                y = y + jnp.sin((c * v).sum(tuple(range(c.ndim - k, c.ndim)))) + .3 * r * (v ** 2).sum() * q
                q = q * (1 + .1 * jnp.tanh(v.sum()))
            ys.append(y)
        it = iter(ys)
        y = walk(case["out"], lambda t: next(it))
        more = {"": (), "const": (const,), "echo": (vals[echo[-1]],) if echo else (), "alias": (const, const)}[extra]
        return (y,) + more if more else y
    jargs = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(targs), flat)
    F = torchify_fn(jax.jit(fun) if case["jit"] else fun)
    wants = [l[2] for l in leaves]
    use = [case["use"][i % len(case["use"])] for i in range(len(outs))]
    cots = [rng.standard_normal(tuple(s)).astype(np.float32) for s in outs]
    before = [np.array(l[0].detach().numpy()) if isinstance(l[0], torch.Tensor) else l[0] for l in leaves]

    def scalar(fl):
        y = jax.tree_util.tree_leaves(fun(*jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(targs), fl)))
        ys = y
        return sum([(c * v).sum() for c, v, u in zip(cots, ys, use) if u], 0.0)

    want_out = fun(*jargs)
    floats = [i for i, l in enumerate(leaves) if l[2]]
    gj = jax.grad(lambda fl: scalar([fl[floats.index(i)] if i in floats else v for i, v in enumerate(flat)]))([jnp.asarray(flat[i]) for i in floats]) if floats else []
    spoil = [l[3] for l in leaves if l[3] is not None and l[3].numel()]
    for rep in (1, 2, 3):
        got = F(*targs)
        require(jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(want_out), f"result {jax.tree_util.tree_structure(got)} instead of {jax.tree_util.tree_structure(want_out)}")
        gl = jax.tree_util.tree_leaves(got)
        wl = jax.tree_util.tree_leaves(want_out)
        for a, b in zip(gl, wl):
            require(isinstance(a, torch.Tensor), f"result contains a {type(a)}")
            require(a.dtype == torch.float32, f"dtype {a.dtype}")
            require_close(a.detach().numpy(), np.asarray(b), 1e-4, "value", scale=1.0)
            require(a.requires_grad == any(wants), f"result requires_grad={a.requires_grad}, inputs {wants}")
        saved = [v.detach().clone() for v in spoil]
        if rep == 3 and case["seed"] % 2:  # what the caller does with his tensors afterwards does not change the gradient
            with torch.no_grad():
                for v in spoil:
                    v.mul_(-2).add_(1)
        if any(wants) and any(use):
            sum([(torch.from_numpy(c) * v).sum() for c, v, u in zip(cots, gl, use) if u], torch.zeros(())).backward(retain_graph=True)
            for i, g in zip(floats, gj):
                gt = leaves[i][3].grad
                require(gt is not None, f"leaf {i} got no gradient")
                require(tuple(gt.shape) == tuple(np.shape(g)), f"gradient of shape {tuple(gt.shape)} for a leaf of shape {np.shape(g)}")
                require_close(gt.numpy(), rep * np.asarray(g), 1e-3, f"gradient of leaf {i} after {rep} backward passes", scale=1.0)
        with torch.no_grad():
            for v, w in zip(spoil, saved):
                v.copy_(w)
    for l, b in zip(leaves, before):
        if isinstance(l[0], torch.Tensor):
            require(np.array_equal(l[0].detach().numpy(), b), "an input was modified")
            if l[3] is not None and not l[2]:
                require(l[3].grad is None, "gradient for a tensor that does not require one")
    with torch.no_grad():
        gl = jax.tree_util.tree_leaves(F(*targs))
        for a, b in zip(gl, wl):
            require(not a.requires_grad, "requires_grad under no_grad")
            require_close(a.numpy(), np.asarray(b), 1e-4, "value under no_grad", scale=1.0)
        wl = [np.array(b) for b in wl]
        for a in gl:  # results belong to the caller: changing them in place changes nothing else
            a.mul_(3).add_(2)
        for l, b in zip(leaves, before):
            if isinstance(l[0], torch.Tensor):
                require(np.array_equal(l[0].detach().numpy(), b), "changing a result in place changed an input")
        for a, b in zip(jax.tree_util.tree_leaves(F(*targs)), wl):
            require_close(a.numpy(), b, 1e-4, "value after changing earlier results in place", scale=1.0)
    return Out(len(floats) >= 2, "leaves:%d" % min(5, len(leaves)), "outputs:%d" % len(outs), "jit" if case["jit"] else "",
               *{"kind:" + k for k in kinds(case["args"])}, "extra:" + extra, "unused output" if not all(use) else "")


def kinds(args):
    out = set()
    for t in args:
        walk(t, lambda l: out.add(l["kind"]))
    return out
