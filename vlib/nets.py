"""One interface to the layers and networks of the four frameworks.  Parameters are addressed as (layer index, kind) with
kind in w (weight matrix), b (bias), bi (bilinear coefficients)."""
import re
import numpy as np

FRAMEWORKS = ["objax", "flax", "haiku", "torch"]


def _key(name, arr, suffix_index=False):
    if suffix_index:  # haiku: sequential/hk_linear_2
        m = re.search(r"_(\d+)$", name.split("/")[-1]) or re.search(r"_(\d+)$", name)
        i = int(m.group(1)) if m else 0
    else:
        m = re.search(r"\d+", name)
        i = int(m.group(0)) if m else 0
    low = name.lower()
    kind = "bi" if ("bilinear" in low or "bi_linear" in low or "bi_params" in low) else ("w" if np.ndim(arr) == 2 else "b")
    return i, kind


def _mods(fw):
    if fw == "objax":
        import emlp.nn.objax as m
    elif fw == "flax":
        import emlp.nn.flax as m
    elif fw == "haiku":
        import emlp.nn.haiku as m
    else:
        import emlp.nn.pytorch as m
    return m


class Net:
    def __init__(self, fw, make, nin, single=None):
        """make(module) -> layer/network; single: kind of the only layer when its parameter names carry no hint"""
        self.fw, self.single = fw, single
        self.mod = _mods(fw)
        import jax
        key = jax.random.PRNGKey(0)
        x0 = np.zeros((nin,), np.float32)
        if fw == "objax":
            self.net = make(self.mod)
            self.vars = {self._k(k, v.value): v for k, v in self.net.vars().items()} if hasattr(self.net, "vars") else {}
        elif fw == "flax":
            self.net = make(self.mod)
            p = self.net.init(key, x0)
            from flax.core import unfreeze
            self.tree = unfreeze(p)
            leaves = jax.tree_util.tree_flatten_with_path(self.tree)[0]
            self.names = {self._k(jax.tree_util.keystr(path), v): path for path, v in leaves}
        elif fw == "haiku":
            import haiku as hk
            net = make(self.mod)
            self.net = hk.without_apply_rng(hk.transform(lambda x: net(x)))
            self.tree = self.net.init(key, x0)
            self.tree = {k: dict(v) for k, v in self.tree.items()}
            self.names = {self._k(k, v, True): (k, kk) for k, d in self.tree.items() for kk, v in d.items()}
        else:
            self.net = make(self.mod)
            self.vars = {self._k(k, v.detach().numpy()): v for k, v in self.net.named_parameters()}

    def _k(self, name, arr, suffix=False):
        i, kind = _key(name, arr, suffix)
        if self.single == "bilinear":
            kind = "bi"
        return i, kind

    def shapes(self):
        return {k: tuple(v.shape) for k, v in self.values().items()}

    def values(self):
        if self.fw == "objax":
            return {k: np.asarray(v.value) for k, v in self.vars.items()}
        if self.fw == "torch":
            return {k: v.detach().numpy().copy() for k, v in self.vars.items()}
        return {k: np.asarray(self._get(self.tree, p)) for k, p in self.names.items()}

    def _get(self, tree, path):
        for p in path:
            tree = tree[p.key if hasattr(p, "key") else p]
        return tree

    def _with(self, vals):
        import copy
        import jax
        import jax.numpy as jnp
        tree = jax.tree_util.tree_map(lambda v: v, self.tree)
        for k, path in self.names.items():
            t = tree
            for p in path[:-1]:
                t = t[p.key if hasattr(p, "key") else p]
            p = path[-1]
            t[p.key if hasattr(p, "key") else p] = jnp.asarray(vals[k])
        return tree

    def set(self, vals):
        import jax.numpy as jnp
        assert set(vals) == set(self.values()), (sorted(vals), sorted(self.values()))
        if self.fw == "objax":
            for k, v in self.vars.items():
                v.assign(jnp.asarray(vals[k]), check=False)
        elif self.fw == "torch":
            import torch
            with torch.no_grad():
                for k, v in self.vars.items():
                    v.copy_(torch.from_numpy(np.array(vals[k], dtype=np.float32)))
        else:
            self.tree = self._with(vals)

    def randomize(self, rng, scale=1.0):
        vals = {}
        for k, s in sorted(self.shapes().items()):
            f = {"w": 1 / np.sqrt(max(1, s[-1])), "b": .5, "bi": 1.0}[k[1]]
            vals[k] = (rng.standard_normal(s) * f * scale).astype(np.float32)
        self.set(vals)
        return vals

    def __call__(self, x):
        x = np.asarray(x, dtype=np.float32)
        if self.fw == "objax":
            import jax.numpy as jnp
            return np.asarray(self.net(jnp.asarray(x)))
        if self.fw == "torch":
            import torch
            with torch.no_grad():
                return self.net(torch.from_numpy(x)).numpy()
        return np.asarray(self.net.apply(self.tree, x))

    def raw(self):
        """callable on the framework's own arrays"""
        if self.fw in ("objax", "torch"):
            return self.net
        return lambda x: self.net.apply(self.tree, x)

    def grads(self, x, cot):
        """gradients of sum(cot*net(x)) with respect to every parameter and the input"""
        x, cot = np.asarray(x, np.float32), np.asarray(cot, np.float32)
        if self.fw == "torch":
            import torch
            xt = torch.from_numpy(x.copy()).requires_grad_(True)
            for v in self.vars.values():
                v.grad = None
            (self.net(xt) * torch.from_numpy(cot)).sum().backward()
            g = {k: (np.zeros(v.shape, np.float32) if v.grad is None else v.grad.numpy().copy()) for k, v in self.vars.items()}
            return g, (np.zeros_like(x) if xt.grad is None else xt.grad.numpy().copy())
        import jax
        import jax.numpy as jnp
        if self.fw == "objax":
            old = {k: v.value for k, v in self.vars.items()}

            def f(vals, x):
                for k, v in self.vars.items():
                    v.assign(vals[str(k)], check=False)
                return (cot * self.net(x)).sum()
            try:
                g, gx = jax.grad(f, (0, 1))({str(k): v for k, v in old.items()}, jnp.asarray(x))
            finally:
                for k, v in self.vars.items():
                    v.assign(old[k], check=False)
            return {k: np.asarray(g[str(k)]) for k in old}, np.asarray(gx)
        g, gx = jax.grad(lambda t, x: (cot * self.net.apply(t, x)).sum(), (0, 1))(self.tree, jnp.asarray(x))
        return {k: np.asarray(self._get(g, p)) for k, p in self.names.items()}, np.asarray(gx)


def linear(fw, rin, rout):
    return Net(fw, lambda m: m.Linear(rin, rout), rin.size())


def bilinear(fw, rin, rout):
    return Net(fw, lambda m: m.BiLinear(rin, rout), rin.size(), single="bilinear")


def gate(fw, rep, nin):
    return Net(fw, lambda m: m.GatedNonlinearity(rep), nin)


def emlp(fw, rin, rout, G, ch, num_layers=3):
    return Net(fw, lambda m: m.EMLP(rin, rout, G, ch=ch, num_layers=num_layers), rin(G).size())


def mlp(fw, rin, rout, G, ch, num_layers=3):
    return Net(fw, lambda m: m.MLP(rin, rout, G, ch=ch, num_layers=num_layers), rin(G).size())
