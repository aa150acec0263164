from vlib.core import *
from hypothesis import strategies as st
from functools import lru_cache

RULE = """Cases are (dataset, number of samples, parameters, seed).  Regression sets: targets equal an independent float64
formula at the stored inputs, the declared symmetry acting by the declared representations maps inputs and targets onto
each other, the standardisation statistics commute with that action and match the data, masses are positive, and
augmentation leaves the ground truth unchanged.  Cube sets: every sample is a colouring reached from one of the two
templates by a group element; its label is 1 exactly when the group (closure or Schreier-Sims) connects it to the solved
state.  Sizes, lengths and items are consistent with the representations.  Non-trivial: at least two samples and varying
targets."""
ASSUMPTIONS = ["Rubik's cube membership is decided relative to the library's own generators (checked by C12)", "float32 group elements"]
N = {"quick": 200, "thorough": 3000}
CASE_LIMIT = 200


def enumerated(tier):
    i = 0
    for n in (1, 2, 7, 100, 1024):
        for name, k in (("Inertia", 5), ("Inertia", 1), ("O5Synthetic", 0), ("ParticleInteraction", 0)):
            yield {"ds": name, "N": n, "k": k, "seed": i}
            i += 1
    for name in ("InvertedCube", "BrokenRubiksCube"):
        for tr in (True, False):
            for s in range(2):
                yield {"ds": name, "train": tr, "seed": s}


def strategy(tier):
    reg = st.builds(lambda d, n, k, s: {"ds": d, "N": n, "k": k, "seed": s}, st.sampled_from(["Inertia", "O5Synthetic", "ParticleInteraction"]),
                    st.integers(1, 60), st.integers(1, 7), st.integers(0, 10 ** 6))
    cube = st.builds(lambda d, t, s: {"ds": d, "train": t, "seed": s}, st.sampled_from(["InvertedCube", "InvertedCube", "BrokenRubiksCube"]), st.booleans(), st.integers(0, 10 ** 6))
    return st.one_of(reg, reg, reg, cube) if tier == "quick" else st.one_of(reg, cube)


def inertia(x, k):
    m, r = x[:k], x[k:].reshape(k, 3)
    return sum([m[i] * ((r[i] @ r[i]) * np.eye(3) - np.outer(r[i], r[i])) for i in range(k)]).reshape(-1)


def o5(x, k):
    a, b = x[:5], x[5:]
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    return np.array([np.sin(na) - nb ** 3 / 2 + a @ b / (na * nb)])


def particle(x, k):
    e = np.diag([1., -1, -1, -1])
    p1, p2, p3, p4 = x.reshape(4, 4)
    Le = np.outer(p1, p3) - (p1 @ e @ p3 - p1 @ e @ p1) * e
    Lm = np.outer(p2, p4) - (p2 @ e @ p4 - p2 @ e @ p2) * e
    return np.array([4 * np.trace(Le @ e @ Lm.T @ e)])


ORACLE = {"Inertia": (inertia, ["O", 3]), "O5Synthetic": (o5, ["O", 5]), "ParticleInteraction": (particle, ["Lorentz"])}


def regression(case, rng):
    import emlp.datasets as D
    name, N_, k = case["ds"], case["N"], case["k"]
    f, spec = ORACLE[name]
    ds = D.Inertia(N_, k) if name == "Inertia" else getattr(D, name)(N_)
    rg = gen.refg(spec)
    X, Y = np.asarray(ds.X, float), np.asarray(ds.Y, float)
    require(ds.symmetry == make_group(spec), f"symmetry {ds.symmetry}")
    rin, rout = ds.rep_in(ds.symmetry), ds.rep_out(ds.symmetry)
    require(len(ds) == N_ == len(X) == len(Y), f"{N_} samples requested: {len(ds)}, {X.shape}, {Y.shape}")
    require(X.shape == (N_, rin.size()) and Y.shape == (N_, rout.size()), f"shapes {X.shape} {Y.shape} for representations of size {rin.size()} {rout.size()}")
    require(np.isfinite(X).all() and np.isfinite(Y).all(), "data is not finite")
    for i in {0, N_ // 2, N_ - 1}:
        a, b = ds[i]
        require(np.array_equal(a, ds.X[i]) and np.array_equal(b, ds.Y[i]), f"item {i}")
    want = np.stack([f(x, k) for x in X])
    require_close(Y / np.maximum(1, np.abs(want)), want / np.maximum(1, np.abs(want)), 1e-6, "targets", scale=1.0)
    if name == "Inertia":
        require((X[:, :k] > 0).all(), "a mass is not positive")
    if N_ >= 50:
        require(np.linalg.matrix_rank(X) == min(X.shape) and np.abs(X.mean(0)).max() < 3, "inputs do not fill the space")
    stats = [np.asarray(s, float) for s in ds.stats]
    require(len(stats) in (2, 4), "statistics")
    full = [np.broadcast_to(s, (n,)) for s, n in zip(stats, (rin.size(), rin.size(), rout.size(), rout.size()))]
    require(all(np.isfinite(s).all() for s in full), "statistics are not finite")
    require((full[1] > 0).all(), "input scale is not positive")
    for g in rg.elements(rng, 3, .5):
        A, B = np.asarray(rin.rho_dense(g.astype(np.float32)), float), np.asarray(rout.rho_dense(g.astype(np.float32)), float)
        sA = max(1, np.abs(A).max())
        for x, y in list(zip(X, Y))[:6]:
            y2 = f(A @ x, k)
            sc = max(1, np.abs(y2).max(), np.abs(B @ y).max()) * sA ** 3 + 10 * np.abs(x).max() ** 3
            if name == "ParticleInteraction":
                sc = max(1, np.abs(A @ x).max(), np.abs(x).max()) ** 4 * 64 + np.abs(y2).max()
            require_close(y2 / sc, B @ y / sc, 1e-4, "target of a transformed input is not the transformed target", scale=1.0)
        S = np.diag(full[1])
        require_close(A @ S / sA, S @ A / sA, 1e-3, "input scale does not commute with the group", scale=max(1, np.abs(S).max()))
        require_close(A @ full[0] / sA, full[0] / sA, 1e-3, "input mean is not invariant", scale=max(1, np.abs(full[0]).max()))
        if len(full) == 4:
            S = np.diag(full[3])
            require_close(B @ S, S @ B, 1e-3, "output scale does not commute with the group", scale=max(1, np.abs(S).max()))
            require_close(B @ full[2], full[2], 1e-3, "output mean is not invariant", scale=max(1, np.abs(full[2]).max()))
    if len(full) == 4 and not (np.all(stats[2] == 0) and np.all(stats[3] == 1)):
        require_close(full[2], Y.mean(0), 1e-4, "output mean is not the mean of the targets", scale=max(1e-6, np.abs(Y).max()))
        if N_ > 1:
            z = (Y - full[2]) / full[3]
            require_close((z ** 2).mean(), 1.0, 1e-3, "standardised targets do not have unit variance")
    if name != "ParticleInteraction":
        import jax.numpy as jnp
        m = ds.default_aug(lambda x, t: jnp.asarray(np.stack([f(v, k) for v in np.asarray(x, float)]).astype(np.float32)))
        x = X[:4].astype(np.float32)
        for tr in (True, False):
            out = np.asarray(m(jnp.asarray(x), tr))
            w = np.stack([f(v.astype(float), k) for v in x])
            require_close(out / np.maximum(1, np.abs(w)), w / np.maximum(1, np.abs(w)), 5e-3, f"ground truth under augmentation (training={tr})", scale=1.0)
    return Out(N_ > 1 and Y.std(0).max() > 1e-6, "ds:" + name, "stats:%d" % len(stats))


def perms_of(G):
    out = []
    for h in np.stack([dense(h) for h in G.discrete_generators]):
        h = np.round(np.asarray(h)).astype(int)
        out.append([int(np.flatnonzero(h[:, j])[0]) for j in range(h.shape[0])])  # e_j -> e_p[j]
    return out


def blocks(perms, orbit, size):
    """the block system of the group on the orbit whose blocks have the given size"""
    a = orbit[0]
    for b in orbit[1:]:
        par = {x: x for x in orbit}

        def find(x):
            while par[x] != x:
                x = par[x]
            return x
        todo = [(a, b)]
        while todo:
            x, y = todo.pop()
            rx, ry = find(x), find(y)
            if rx == ry:
                continue
            par[rx] = ry
            todo += [(p[x], p[y]) for p in perms] + [(p[rx], p[ry]) for p in perms]
        cl = {}
        for x in orbit:
            cl.setdefault(find(x), []).append(x)
        if all(len(c) == size for c in cl.values()):
            return list(cl.values())
    return None


@lru_cache(None)
def rubik_group(key):
    from sympy.combinatorics import Permutation, PermutationGroup
    perms = [list(p) for p in key]
    orbits, seen = [], set()
    for s in range(48):
        if s not in seen:
            o = [s]
            for x in o:
                for p in perms:
                    if p[x] not in o:
                        o.append(p[x])
            seen |= set(o)
            orbits.append(o)
    cubies = []
    for o in orbits:
        bl = blocks(perms, o, 3) or blocks(perms, o, 2)
        assert bl, "orbit without a block system of cubies"
        # the finest: corners 3, edges 2
        cubies += bl
    return PermutationGroup([Permutation(p) for p in perms]), cubies


def cube(case, rng):
    import emlp.datasets as D
    name, tr = case["ds"], case["train"]
    ds = getattr(D, name)(train=tr)
    nf = 1 if name == "InvertedCube" else 8
    X, Y = np.asarray(ds.X), np.asarray(ds.Y)
    n = 6 * nf
    rin, rout = ds.rep_in(ds.symmetry), ds.rep_out(ds.symmetry)
    require(ds.symmetry == make_group(["Cube"] if nf == 1 else ["RubiksCube"]), "symmetry")
    require(X.shape == (len(ds), rin.size()) and rin.size() == 6 * n and Y.shape == (len(ds),), f"shapes {X.shape} {Y.shape}")
    require(rout.size() == 2 and np.abs(np.asarray(rout.rho_dense(np.eye(n)[np.roll(np.arange(n), 1)].astype(np.float32))) - np.eye(2)).max() < 1e-6, "class scores have to be two scalars")
    require(set(np.unique(Y)) == {0, 1} and (Y == 1).sum() == (Y == 0).sum(), "the two labels have to be equally frequent")
    require(len(ds) == {(1, True): 2, (1, False): 100, (8, True): 22, (8, False): 440}[(nf, tr)], f"{len(ds)} samples")
    for i in (0, len(ds) // 2, len(ds) - 1):
        a, b = ds[i]
        require(np.array_equal(a, X[i]) and b == Y[i], f"item {i}")
    C = X.reshape(-1, 6, n)
    require(np.allclose(C, np.round(C), atol=1e-5) and (np.round(C).sum(1) == 1).all() and (np.round(C).sum(2) == nf).all() and (C > -.01).all(), "a sample is not a colouring")
    col = np.round(C).argmax(1)  # colour of every sticker
    mu = ds.stats
    require(len(mu) == 2 and np.all(np.asarray(mu[0]) == 0) and np.all(np.asarray(mu[1]) == 1), "statistics")
    perms = perms_of(ds.symmetry)
    if nf == 1:
        orbit = [tuple(range(6))]
        seen = set(orbit)
        for c in orbit:
            for p in perms:
                q = [0] * 6
                for j in range(6):
                    q[p[j]] = c[j]
                if tuple(q) not in seen:
                    seen.add(tuple(q))
                    orbit.append(tuple(q))
        lab = np.array([tuple(c) in seen for c in col.tolist()])
        pick = range(len(col))
    else:
        PG, cubies = rubik_group(tuple(map(tuple, perms)))
        face = np.arange(48) // 8
        home = {frozenset(face[s] for s in b): {int(face[s]): s for s in b} for b in cubies}
        require(len(home) == 20, "cubies")
        pick = range(len(col)) if tr else rng.choice(len(col), 60, replace=False)
        lab = np.zeros(len(col), bool)
        for i in pick:
            img = {}
            for b in cubies:
                h = home.get(frozenset(int(col[i][s]) for s in b))
                if h is None:
                    break
                for s in b:
                    img[h[int(col[i][s])]] = s
            else:
                if len(img) == 48:
                    from sympy.combinatorics import Permutation
                    lab[i] = PG.contains(Permutation([img[j] for j in range(48)]))
    for i in pick:
        require(lab[i] == (Y[i] == 1), f"sample {i} is labelled {Y[i]}, connected to the solved state: {lab[i]}")
    if not tr:
        for y in (0, 1):
            k = len(np.unique(col[Y == y], axis=0))
            require(k >= (8 if nf == 1 else 40), f"only {k} different scrambled states with label {y}")
        runs = (np.diff(Y) != 0).sum()
        require(runs > len(Y) / 10, "samples are not shuffled")
    # samples of one label are related by the group (templates are connected to every scrambled sample)
    return Out(True, "ds:" + name, "train" if tr else "test")


def run_case(case):
    rng = rng_of(case)
    return regression(case, rng) if case["ds"] in ORACLE else cube(case, rng)
