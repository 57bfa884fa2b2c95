"""Stand-ins for user-suppliable parts: flows, kernels, targets, with opaque or trivially known behaviour."""
import equinox as eqx
import jax
import jax.numpy as jnp

from flowMC.resource.kernel.base import ProposalBase
from flowMC.resource.model.nf_model.base import NFModel
from symx import env as env_


class StubFlow(NFModel):
    """sample = loc + independent standard normals; log density an unknown function Q(x, theta)"""
    loc: jax.Array
    theta: jax.Array

    def __init__(self, dim, loc, theta):
        self._n_features = dim
        self._data_mean = jnp.zeros(dim)
        self._data_cov = jnp.eye(dim)
        self.loc = loc
        self.theta = theta

    def log_prob(self, x):
        return env_.opaque_call("Q", [x, self.theta])

    def sample(self, rng_key, n_samples):
        return self.loc + jax.random.normal(rng_key, (n_samples, self._n_features))

    def forward(self, x, key=None):
        return x, jnp.zeros(())

    def inverse(self, x):
        return x, jnp.zeros(())

    def print_parameters(self):
        pass


class StubKernel(ProposalBase):
    """y = F(x, draw), accepts when an unknown condition of the same draw holds"""
    tag: str = eqx.field(static=True)

    def __init__(self, tag=""):
        self.tag = tag

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        z = jax.random.normal(rng_key, position.shape)
        y = env_.opaque_call("K" + self.tag, [position, z], (position.shape[0],))
        ly = logpdf(y, data)
        acc = env_.opaque_call("A" + self.tag, [position, z]) > 0
        return jnp.where(acc, y, position), jnp.where(acc, ly, log_prob), acc

    def print_parameters(self):
        pass

    def save_resource(self, path):
        pass

    def load_resource(self, path):
        pass


class StubGroupKernel(ProposalBase):
    """n_steps at once: step i proposes an unknown function of the previous state and its own draw"""
    inner: StubKernel

    def __init__(self):
        self.inner = StubKernel("g")

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        ys, ls, acs = [], [], []
        for k in jax.random.split(rng_key, data["n_steps"]):
            position, log_prob, a = self.inner.kernel(k, position, log_prob, logpdf, data)
            ys.append(position), ls.append(log_prob), acs.append(a)
        return jnp.stack(ys), jnp.stack(ls), jnp.stack(acs)

    def print_parameters(self):
        pass

    def save_resource(self, path):
        pass

    def load_resource(self, path):
        pass


class IdKernel(ProposalBase):
    """never moves"""

    def __init__(self):
        pass

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        return position, log_prob, jnp.zeros((), bool)

    def print_parameters(self):
        pass

    def save_resource(self, path):
        pass

    def load_resource(self, path):
        pass


class TargetKernel(ProposalBase):
    """y = K(x, draw); accepts on an unknown function of x, draw, the log density handed in and the target at y"""
    tag: str = eqx.field(static=True)

    def __init__(self, tag=""):
        self.tag = tag

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        z = jax.random.normal(rng_key, position.shape)
        y = env_.opaque_call("K" + self.tag, [position, z], (position.shape[0],))
        ly = logpdf(y, data)
        acc = env_.opaque_call("A" + self.tag, [position, z, log_prob, ly]) > 0
        return jnp.where(acc, y, position), jnp.where(acc, ly, log_prob), acc

    def print_parameters(self):
        pass

    def save_resource(self, path):
        pass

    def load_resource(self, path):
        pass


class ModelGroupKernel(ProposalBase):
    """several steps at once; step i proposes an unknown function of the previous state, its own draw and the model's parameter"""
    model: StubFlow

    def __init__(self, model):
        self.model = model

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        ys, ls, acs = [], [], []
        for k in jax.random.split(rng_key, data["n_steps"]):
            z = jax.random.normal(k, position.shape)
            y = env_.opaque_call("Kg", [position, z, self.model.theta], (position.shape[0],))
            ly = logpdf(y, {n: v for n, v in data.items() if n != "n_steps"})
            acc = env_.opaque_call("Ag", [position, z, log_prob, ly]) > 0
            position, log_prob = jnp.where(acc, y, position), jnp.where(acc, ly, log_prob)
            ys.append(position), ls.append(log_prob), acs.append(acc)
        return jnp.stack(ys), jnp.stack(ls), jnp.stack(acs)

    def print_parameters(self):
        pass

    def save_resource(self, path):
        pass

    def load_resource(self, path):
        pass
