"""Training loops with an unknown loss and an unknown optimiser rule"""
import optax

from flowMC.resource.model.flowmatching.base import FlowMatchingModel, Path, Solver
from flowMC.resource.model.nf_model.base import NFModel
from harness.flows import *


def any_optimizer():
    """a gradient transformation about which nothing is known: every update is an unknown function of parameter, state and its gradient,
    the new state an unknown function of state, all parameters and all gradients"""
    def init(params):
        return jnp.zeros(())

    def update(grads, state, params):
        P, td = jax.tree_util.tree_flatten(eqx.filter(params, eqx.is_inexact_array))
        G = jax.tree_util.tree_leaves(grads)
        ups = [opaque_call("U", [jnp.asarray(float(k)), state, jnp.ravel(p), jnp.ravel(g)], jnp.shape(p)) for k, (p, g) in enumerate(zip(P, G))]
        return jax.tree_util.tree_unflatten(td, ups), opaque_call("S", [state] + [jnp.ravel(p) for p in P] + [jnp.ravel(g) for g in G])

    return optax.GradientTransformation(init, update)


class ToyFlow(NFModel):
    """flow whose log density is an unknown function of the point and one parameter"""
    w: jax.Array

    def __init__(self, w, mean, cov):
        self.w, self._data_mean, self._data_cov, self._n_features = w, mean, cov, len(mean)

    def log_prob(self, x):
        return opaque_call("L", [jnp.asarray(x, jnp.result_type(float)), self.w])

    def forward(self, x, key=None):
        raise NotImplementedError

    def inverse(self, x):
        raise NotImplementedError

    def sample(self, rng_key, n_samples):
        raise NotImplementedError

    def print_parameters(self):
        pass


class ToyMatch(FlowMatchingModel):
    """flow-matching model whose loss per example is an unknown function of (noise, time, whitened data, parameter)"""
    w: jax.Array

    def __init__(self, w, mean, cov):
        f = StubMLP(jnp.zeros((1,)), len(mean) + 1, len(mean), "")
        FlowMatchingModel.__init__(self, Solver(f), RawPath(None), data_mean=mean, data_cov=cov)
        self.w = w

    @eqx.filter_value_and_grad
    def loss_fn(self, x, t, dx_t):
        return -jnp.mean(jax.vmap(lambda a, b, c: opaque_call("L", [a, b, c, self.w]))(x, t, dx_t))


class RawPath(Path):
    """hands the pairing of noise, data and time through to the loss"""
    def sample(self, x0, x1, t):
        return x0, x1


def apps(x, name):
    """all applications of an unknown function in a value"""
    E = np.asarray(x, object).reshape(-1)
    ts = []
    for e in E:
        ts.extend(fl.elem_terms(e))
    return [t for t in tm.postorder(ts) if t.op == "app" and t.val == name]


def top(x, name):
    """applications outside other unknown functions' arguments"""
    todo, seen, out = [t for e in np.asarray(x, object).reshape(-1) for t in fl.elem_terms(e)], set(), []
    while todo:
        t = todo.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "app":
            if name is None or t.val == name:
                out.append(t)
            continue
        todo.extend(t.args)
    return sorted(out, key=lambda t: t.id)


def steps_of(w, w0, s0_, lead):
    """the optimiser steps in the parameter's value: [(parameter before, state before, gradient)], parameter value after k steps; None if it is not a chain of steps"""
    us = {t.id: t for t in top(w, "U[0]")}
    cur, seq = w0, []
    while us:
        nxt = [t for t in us.values() if t.args[2] is cur]
        if len(nxt) != 1:
            return None
        t = nxt[0]
        del us[t.id]
        seq.append({"app": t, "p": t.args[2], "s": t.args[1], "g": t.args[3]})
        cur = fl.add(cur, t)
    return seq, cur
