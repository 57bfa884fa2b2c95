"""Flow models with symbolic parameters; conditioner networks replaced by unknown functions where the network itself is not the point."""
import equinox as eqx

from flowMC.resource.model.common import MLP, Bijection, Composable, Distribution, Gaussian, MaskedCouplingLayer, MLPAffine, ScalarAffine
from flowMC.resource.model.nf_model.realNVP import AffineCoupling, RealNVP
from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline, RQSpline
from harness.common import *
from symx.env import opaque_call


class StubMLP(eqx.Module):
    """an unknown differentiable function of its input and its parameters"""
    theta: jax.Array
    n_input: int
    n_output: int
    tag: str = eqx.field(static=True)

    def __call__(self, x):
        return opaque_call("C" + self.tag, [jnp.asarray(x, self.theta.dtype), self.theta], (self.n_output,), dtype=self.theta.dtype)

    @property
    def dtype(self):
        return self.theta.dtype


class StubElementwise(Bijection):
    """elementwise bijection with unknown dependence on the condition: y = x exp(a) + b, a and b unknown functions"""
    theta: jax.Array
    n: int

    def _ab(self, c):
        c = jnp.asarray(c, self.theta.dtype)
        dt = self.theta.dtype
        return opaque_call("Ea", [c, self.theta], (self.n,), dtype=dt), opaque_call("Eb", [c, self.theta], (self.n,), dtype=dt)

    def __init__(self, theta, n):
        self.theta, self.n = theta, n

    def forward(self, x, condition):
        a, b = self._ab(condition)
        return x * jnp.exp(a) + b, a

    def inverse(self, x, condition):
        a, b = self._ab(condition)
        return (x - b) * jnp.exp(-a), -a


def is_mlp(x):
    return isinstance(x, MLP)


def stub_mlps(E, model):
    """replace every MLP by an unknown function with its own symbolic parameter per layer"""
    n = [0]

    def f(m):
        if not isinstance(m, MLP):
            return m
        n[0] += 1
        w0, w1 = m.layers[0].weight, m.layers[-1].weight
        lead = w0.shape[:-2]
        return StubMLP(E.real(f"theta{n[0]}", lead + (1,)), w0.shape[-1], w1.shape[-2], "")

    return jax.tree.map(f, model, is_leaf=is_mlp)


def stub_splines(E, model, nd):
    """replace every rational-quadratic spline by an elementwise bijection with unknown conditioner"""
    n = [0]

    def f(m):
        if not isinstance(m, RQSpline):
            return m
        n[0] += 1
        lead = m.conditioner.layers[0].weight.shape[:-2]
        return StubElementwise(E.real(f"spl{n[0]}", lead + (1,)), nd)

    return jax.tree.map(f, model, is_leaf=lambda x: isinstance(x, RQSpline))


def symbolize(E, tree, prefix="p", keep=lambda path, leaf: False):
    """every concrete floating array leaf becomes symbolic"""
    leaves, td = jax.tree_util.tree_flatten_with_path(tree)
    out = []
    for k, (path, l) in enumerate(leaves):
        if tr.is_sym(l) or not eqx.is_inexact_array(l) or 'theta' in jax.tree_util.keystr(path) or keep(jax.tree_util.keystr(path), l):
            out.append(l)
        else:
            out.append(E.real(f"{prefix}{k}", l.shape))
    return jax.tree_util.tree_unflatten(td, out)


def det(J):
    n = J.shape[0]
    if n == 1:
        return J[0, 0]
    s = ZERO
    for j in range(n):
        if J[0, j] is ZERO:
            continue
        m = np.delete(J[1:], j, axis=1)
        t = fl.mul(J[0, j], det(m))
        s = fl.add(s, t) if j % 2 == 0 else fl.sub(s, t)
    return s


def log_abs_det_is(E, J, ld, label):
    """ld = log |det J| for elements"""
    d = det(np.asarray(J, object))
    E.same(fl.exp(ld), fl.abs_(d), label)


def total(ld, n):
    """log-determinant of a map of n coordinates: elementwise bijections report it per coordinate"""
    a = np.asarray(ld, object)
    if a.shape == ():
        return a[()]
    s = ZERO
    for e in a.reshape(-1):
        s = fl.add(s, e)
    return s


def per_coordinate(ld, n):
    return total(np.broadcast_to(np.asarray(ld, object), (n,)), n)
