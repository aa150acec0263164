from vlib.core import *
from vlib import nets
from hypothesis import strategies as st
import os
import sys
import collections
import collections.abc

RULE = """Cases are (kind, dimension, batch, times, tolerances, dataset parameters, seed).  flow: for random Hamiltonians (quadratic,
anharmonic and pendulum) the dynamics are J grad H, and HamiltonianFlow, BHamiltonianFlow and BOdeFlow agree member by member
with the matrix exponential or with an independent high-order integrator, start at the initial condition, have the documented shapes,
conserve energy and compose over time.  dataset: chunks, times and lengths fit together, every chunk is the flow of its first
state, caching returns the stored data and regen replaces it, H of the pendulum equals the documented energy, is invariant under
the declared symmetry and its rollouts are equivariant.  metrics: rollout errors are zero for the true model and match their
definition for another.  Non-trivial: the state moves by more than 0.1."""
ASSUMPTIONS = ["smooth Hamiltonians, moderate integration times", "collections.Iterable is provided for the oil dependency"]
N = {"quick": 64, "thorough": 1500}
CASE_LIMIT = 200


def enumerated(tier):
    i = 0
    for cl, dt, T in ((5, .2, 6.), (3, .1, 3.), (7, .1, 3.), (1, .3, 2.), (4, .25, 2.), (2, .5, 2.)):
        for sysm in ("SHO", "DoubleSpringPendulum"):
            yield {"kind": "dataset", "system": sysm, "n": 3 + i % 3, "chunk": cl, "dt": dt, "T": T, "seed": i}
            i += 1
    for h in ("quadratic", "anharmonic", "pendulum"):
        for d in (1, 2, 3):
            yield {"kind": "flow", "H": h, "d": d, "bs": 1 + i % 3, "times": [0, .1, .5, 1.5], "seed": i}
            i += 1
    yield {"kind": "metrics", "system": "SHO", "bs": 2, "seed": 1}
    yield {"kind": "metrics", "system": "DoubleSpringPendulum", "bs": 2, "seed": 2}
    yield {"kind": "dataset", "system": "SHO", "n": 130, "chunk": 2, "dt": .5, "T": 2., "seed": 99}


def strategy(tier):
    times = st.lists(st.integers(1, 12), min_size=1, max_size=5).map(lambda l: [0] + list(np.round(np.cumsum(l) * .1, 3)))
    flow = st.builds(lambda h, d, b, t, s: {"kind": "flow", "H": h, "d": d, "bs": b, "times": t, "seed": s}, st.sampled_from(["quadratic", "anharmonic", "pendulum"]),
                     st.integers(1, 3), st.integers(1, 4), times, st.integers(0, 10 ** 6))
    data = st.builds(lambda y, n, c, d, k, s: {"kind": "dataset", "system": y, "n": n, "chunk": c, "dt": d, "T": round(d * (c + k), 4), "seed": s},
                     st.sampled_from(["SHO", "DoubleSpringPendulum"]), st.integers(1, 8), st.integers(1, 9), st.sampled_from([.05, .1, .2, .25, .3, .5]), st.integers(0, 15), st.integers(0, 10 ** 6))
    met = st.builds(lambda y, b, s: {"kind": "metrics", "system": y, "bs": b, "seed": s}, st.sampled_from(["SHO", "DoubleSpringPendulum"]), st.integers(1, 3), st.integers(0, 10 ** 6))
    return st.one_of(flow, flow, data, data, met)


_mod = []


def mod():
    if not _mod:
        if not hasattr(collections, "Iterable"):
            collections.Iterable = collections.abc.Iterable
        import experiments.trainer.hamiltonian_dynamics as h
        _mod.append(h)
    return _mod[0]


def ham(kind, d, rng):
    """H(q,p) on jax arrays, its gradient in numpy, and the matrix J S for quadratic ones"""
    import jax.numpy as jnp
    B = rng.standard_normal((2 * d, 2 * d))
    S = B @ B.T / (2 * d) + .3 * np.eye(2 * d)
    k = np.exp(rng.standard_normal(d) * .3)
    if kind == "quadratic":
        return (lambda z: .5 * (z * (jnp.asarray(S) @ z)).sum()), (lambda z: S @ z)
    if kind == "anharmonic":
        return (lambda z: .5 * (z[d:] ** 2).sum() + (jnp.asarray(k) * z[:d] ** 4).sum() / 4 + .5 * (z[:d].sum()) ** 2 * z[d:].dot(z[d:]) * .1), \
            (lambda z: np.concatenate([k * z[:d] ** 3 + .1 * z[:d].sum() * (z[d:] @ z[d:]) * np.ones(d), z[d:] * (1 + .1 * z[:d].sum() ** 2)]))
    return (lambda z: .5 * (z[d:] ** 2 / jnp.asarray(k)).sum() - jnp.cos(z[:d]).sum() - .3 * jnp.cos(z[0] - z[d - 1])), \
        (lambda z: np.concatenate([np.sin(z[:d]) + .3 * np.sin(z[0] - z[d - 1]) * (np.eye(d)[0] - np.eye(d)[d - 1]), z[d:] / k]))


def J(v):
    d = len(v) // 2
    return np.concatenate([v[d:], -v[:d]])


def integrate(f, z0, ts):
    """classical Runge-Kutta with small steps (float64)"""
    out, z, t = [], np.array(z0, float), ts[0]
    for T in ts:
        n = int(np.ceil((T - t) / .01)) if T > t else 0
        for _ in range(n):
            h = (T - t) / n
            a = f(z)
            b = f(z + h / 2 * a)
            c = f(z + h / 2 * b)
            e = f(z + h * c)
            z = z + h / 6 * (a + 2 * b + 2 * c + e)
        t = T
        out.append(z)
    return np.stack(out)


def flow(case, rng):
    import jax
    import jax.numpy as jnp
    from scipy.linalg import expm
    h = mod()
    d, bs = case["d"], case["bs"]
    H, g = ham(case["H"], d, rng)
    z0 = rng.standard_normal((bs, 2 * d)).astype(np.float32) * .8
    ts = np.array(case["times"], np.float32)
    q, p = h.unpack(jnp.asarray(z0))
    require(np.array_equal(q, z0[:, :d]) and np.array_equal(p, z0[:, d:]), "unpack")
    require(np.array_equal(h.pack(q, p), z0), "pack does not undo unpack")
    for z in z0:
        require_close(np.asarray(h.symplectic_form(jnp.asarray(z))), J(z), 1e-6, "symplectic form")
        require_close(np.asarray(h.hamiltonian_dynamics(H, jnp.asarray(z), 0.)), J(g(z.astype(float))), 1e-3, "dynamics are not J grad H", scale=1.0)
    require_close(np.asarray(h.symplectic_form(jnp.asarray(z0))), np.stack([J(z) for z in z0]), 1e-6, "symplectic form of a batch")
    want = np.stack([integrate(lambda z: J(g(z)), z, ts.astype(float)) for z in z0])
    if case["H"] == "quadratic":
        A = np.stack([J(g(e)) for e in np.eye(2 * d)], 1)
        want = np.stack([[expm(float(t) * A) @ z for t in ts] for z in z0])
    sc = max(1, np.abs(want).max())
    one = np.stack([np.asarray(h.HamiltonianFlow(H, jnp.asarray(z), jnp.asarray(ts))) for z in z0])
    require(one.shape == want.shape, f"rollout of shape {one.shape}")
    require_close(one, want, 1.5e-2, "HamiltonianFlow", scale=sc)
    b = np.asarray(h.BHamiltonianFlow(H, jnp.asarray(z0), jnp.asarray(ts)))
    require(b.shape == (bs, len(ts), 2 * d), f"batched rollout of shape {b.shape}")
    require_close(b, want, 1.5e-2, "BHamiltonianFlow", scale=sc)
    fine = np.asarray(h.BHamiltonianFlow(H, jnp.asarray(z0), jnp.asarray(ts), tol=1e-6))
    require_close(fine, want, 2e-3, "BHamiltonianFlow with a small tolerance", scale=sc)
    f = lambda z, t: h.hamiltonian_dynamics(H, z, t)
    o = np.asarray(h.BOdeFlow(f, jnp.asarray(z0), jnp.asarray(ts), tol=1e-6))
    require_close(o, want, 2e-3, "BOdeFlow", scale=sc)
    K = rng.standard_normal((2 * d, 2 * d)).astype(np.float32) * .5  # not Hamiltonian
    lin = np.asarray(h.BOdeFlow(lambda z, t: jnp.asarray(K) @ z, jnp.asarray(z0), jnp.asarray(ts)))
    w = np.stack([[expm(float(t) * K.astype(float)) @ z for t in ts] for z in z0])
    require_close(lin, w, 1.5e-2, "BOdeFlow of a linear field", scale=max(1, np.abs(w).max()))
    for roll in (one, b, fine, o):
        require_close(roll[:, 0], z0, 1e-5, "rollout does not start at the initial condition", scale=1.0)
    E = np.array([[float(H(jnp.asarray(z))) for z in zz] for zz in fine.astype(np.float32)])
    require_close(E, np.broadcast_to(E[:, :1], E.shape), 5e-3, "energy is not conserved", scale=max(1, np.abs(E).max()))
    e = np.asarray(h.rel_err(jnp.asarray(z0), jnp.asarray(2 * z0)))
    require_close(e, 1 / 3, 1e-4, "relative error of z and 2z")
    require(float(h.rel_err(jnp.asarray(z0), jnp.asarray(z0))) == 0, "relative error of equal states")
    return Out(np.abs(want - want[:, :1]).max() > .1, "flow", "H:" + case["H"], "d:%d" % d)


def energy(system, z):
    """the documented energies, in numpy"""
    if system == "SHO":
        return (z ** 2).sum() / 2
    x1, x2, p1, p2 = z.reshape(4, 3)
    n = np.linalg.norm
    return (p1 @ p1 + p2 @ p2) / 2 + .5 * (n(x1) - 1) ** 2 + (n(x1 - x2) - 1) ** 2 + x1[2] + x2[2]


def egrad(system, z, e=1e-5):
    return np.array([(energy(system, z + e * v) - energy(system, z - e * v)) / (2 * e) for v in np.eye(len(z))])


def dataset(case, rng):
    import jax.numpy as jnp
    h = mod()
    sysm, n, c, dt, T = case["system"], case["n"], case["chunk"], case["dt"], case["T"]
    home = os.path.abspath(os.environ["HOME"])
    require(not home.startswith(("/root", "/home")), "harness: HOME has to be a scratch directory")
    cls = getattr(h, sysm)
    D = cls(n_systems=n, chunk_len=c, dt=dt, integration_time=T, regen=True)
    dim = 2 if sysm == "SHO" else 12
    Z = np.asarray(D.Zs, float)
    require(Z.shape == (n, c, dim), f"data of shape {Z.shape} for {n} chunks of length {c}")
    require(len(D) == n and np.asarray(D.T).shape == (c,), f"{np.asarray(D.T).shape} times for chunks of length {c}")
    require_close(np.asarray(D.T), dt * np.arange(c), 1e-5, "times of a chunk", scale=1.0)
    TL = np.asarray(D.T_long)
    require_close(TL, dt * np.arange(len(TL)), 1e-5, "times of a long rollout", scale=1.0)
    require(abs(len(TL) - T / dt) <= 1.01, f"{len(TL)} times for an integration time of {T}")
    for i in range(min(n, 4)):
        (ic, ts), z = D[i]
        require(np.array_equal(ic, D.Zs[i, 0]) and np.array_equal(ts, D.T) and np.array_equal(z, D.Zs[i]), f"item {i}")
        w = integrate(lambda s: J(egrad(sysm, s)), Z[i, 0], dt * np.arange(c))
        require_close(Z[i], w, 2e-2, "a chunk is not the flow of its first state", scale=max(1, np.abs(w).max()))
    for z in Z[:4, 0]:
        require_close(float(D.H(jnp.asarray(z, jnp.float32))), energy(sysm, z), 1e-3, "Hamiltonian", scale=1.0)
    require_close(float(D.H(jnp.asarray(Z[:, 0], jnp.float32))), sum(energy(sysm, z) for z in Z[:, 0]), 1e-3, "Hamiltonian of a batch is not the sum", scale=1.0)
    ics = np.asarray(D.sample_initial_conditions(5))
    require(ics.shape == (5, dim) and np.isfinite(ics).all() and np.abs(ics[0] - ics[1]).max() > 1e-6, "initial conditions")
    # several starting points within a trajectory are used: the first state of a chunk is not always an initial condition
    np.random.seed(1)
    E = cls(n_systems=n, chunk_len=c, dt=dt, integration_time=T)
    require(np.array_equal(E.Zs, D.Zs) and np.array_equal(E.T, D.T), "the cached trajectories differ from the generated ones")
    np.random.seed(2)
    F = cls(n_systems=n, chunk_len=c, dt=dt, integration_time=T, regen=True)
    require(np.shape(F.Zs) == np.shape(D.Zs) and not np.array_equal(F.Zs, D.Zs), "regen does not generate new trajectories")
    E2 = cls(n_systems=n, chunk_len=c, dt=dt, integration_time=T)
    require(np.array_equal(E2.Zs, F.Zs), "regen does not replace the cached trajectories")
    G2 = cls(n_systems=n + 1, chunk_len=c, dt=dt, integration_time=T)
    require(len(G2) == n + 1, "trajectories cached for other arguments are used")
    kw = dict(n_systems=n, chunk_len=c, dt=dt, integration_time=T)
    for k, v in (("chunk_len", c + 1 if c < T / dt / 2 else c - 1), ("dt", dt / 2), ("integration_time", T + 4 * dt)):
        if v < 1 and k == "chunk_len":
            continue
        a = dict(kw, **{k: v})
        O = cls(**a)
        require(np.shape(O.Zs) == (n, a["chunk_len"], dim) and len(O.T) == a["chunk_len"], f"trajectories cached for another {k} are used")
        require_close(np.asarray(O.T), a["dt"] * np.arange(a["chunk_len"]), 1e-5, f"times with another {k}", scale=1.0)
        require(np.abs(O.Zs[0, 0] - F.Zs[0, 0]).max() > 0, f"trajectories cached for another {k} are used")
    one = np.asarray(D.integrate(jnp.asarray(Z[0, 0], jnp.float32), jnp.asarray(D.T)))
    require_close(one, Z[0], 1e-2, "integrate", scale=max(1, np.abs(Z).max()))
    # chunking picks contiguous, aligned parts of the trajectories
    traj = np.arange(6 * (3 * c + 1)).reshape(6, 3 * c + 1, 1) + 0.
    starts = set()
    for _ in range(12):
        ch = np.asarray(D.chunk_training_data(traj, c))
        require(ch.shape == (6, c, 1), f"chunks of shape {ch.shape}")
        for i in range(6):
            r = ch[i, :, 0] - traj[i, 0, 0]
            require(0 <= r[0] and r[-1] <= 3 * c and np.array_equal(np.diff(r), np.ones(c - 1)), "a chunk is not a contiguous part of its own trajectory")
            starts.add(int(r[0]))
    require(len(starts) >= 3, f"chunks only start at {starts}")
    if sysm == "DoubleSpringPendulum":
        require(D.symmetry == make_group(["O2eR3"]), "symmetry")
        rin, rout = D.rep_in(D.symmetry), D.rep_out(D.symmetry)
        require(rin.size() == 12 and rout.size() == 1 and tuple(D.stats) == (0, 1, 0, 1), "representations or statistics")
        for g in gen.refg(["O2eR3"]).elements(rng, 2):
            R = np.asarray(rin.rho_dense(g.astype(np.float32)), float)
            require_close(R, np.kron(np.eye(4), g), 1e-5, "the declared input representation")
            z = jnp.asarray(R @ Z[0, 0], jnp.float32)
            require_close(float(D.H(z)), energy(sysm, Z[0, 0]), 1e-3, "energy is not invariant under the declared symmetry", scale=1.0)
            require_close(np.asarray(D.integrate(z, jnp.asarray(D.T))), Z[0] @ R.T, 2e-2, "rollout is not equivariant under the declared symmetry", scale=max(1, np.abs(Z).max()))
    moves = c > 1 and np.abs(Z - Z[:, :1]).max() > .1
    return Out(moves, "dataset", "system:" + sysm, "chunk:%d" % c, "remainder" if (len(TL) % c) else "")


def metrics(case, rng):
    import jax
    import jax.numpy as jnp
    h = mod()
    sysm = case["system"]
    D = getattr(h, sysm)(n_systems=4, chunk_len=2, dt=.25, integration_time=2., regen=True)
    z0 = np.asarray(D.sample_initial_conditions(case["bs"]), np.float32)
    mb = ((jnp.asarray(z0), jnp.asarray(D.T)), None)
    a = float(h.log_rollout_error(D, D.H, mb))
    require(np.exp(a) < 2e-6, f"rollout error {np.exp(a)} of the true Hamiltonian")
    model = lambda z: 1.2 * D.H(z)
    ode = lambda z, t: jnp.asarray(1.2, jnp.float32) * h.hamiltonian_dynamics(D.H, z, t)
    ts = np.asarray(D.T_long, float)
    sys_f = lambda s, k: k * J(egrad(sysm, s))
    P = np.stack([integrate(lambda s: sys_f(s, 1.2), z, ts) for z in z0])
    Gt = np.stack([integrate(lambda s: sys_f(s, 1.), z, ts) for z in z0])
    e = np.sqrt(((P - Gt) ** 2).mean(-1)) / (np.sqrt((P ** 2).mean(-1)) + np.sqrt((Gt ** 2).mean(-1)))
    want = np.log(np.maximum(e, 1e-7)).mean()
    for name, v in (("log_rollout_error", h.log_rollout_error(D, model, mb)), ("log_rollout_error_ode", h.log_rollout_error_ode(D, ode, mb))):
        require(abs(float(v) - want) < .1, f"{name}: {float(v)} instead of {want}")
    for name, v in (("pred_and_gt", h.pred_and_gt(D, model, mb)), ("pred_and_gt_ode", h.pred_and_gt_ode(D, ode, mb))):
        require(v.shape == P.shape + (2,), f"{name}: shape {v.shape}")
        require_close(v[..., 0], P, 1e-2, name + ": prediction", scale=max(1, np.abs(P).max()))
        require_close(v[..., 1], Gt, 1e-2, name + ": ground truth", scale=max(1, np.abs(Gt).max()))
    return Out(True, "metrics", "system:" + sysm)


def run_case(case):
    rng = rng_of(case)
    return {"flow": flow, "dataset": dataset, "metrics": metrics}[case["kind"]](case, rng)
