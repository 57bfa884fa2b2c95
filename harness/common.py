"""Shared specification pieces."""
import itertools
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np

from symx import fl, terms as tm, trace as tr
from symx.env import Env, Harness, same_el
from symx.fl import Fl, Unsupported
from symx.terms import FALSE, ONE, T, TRUE, ZERO, and_, iff, implies, not_, or_


def b0(acc):
    """boolean element of a (possibly integer or (1,)-shaped) acceptance flag"""
    a = np.asarray(acc, object).reshape(-1)
    assert a.size == 1, "acceptance flag is not scalar"
    a = a[0]
    if isinstance(a, T) and a.sort == "B":
        return a
    return not_(fl.feq(a, ZERO))


def s0(x):
    a = np.asarray(x, object).reshape(-1)
    assert a.size == 1
    return a[0]


def arr(xs):
    out = np.empty(len(xs), object)
    for i, x in enumerate(xs):
        out[i] = x
    return out


def vadd(a, b):
    return np.vectorize(fl.add, otypes=[object])(a, b) if np.size(a) else np.asarray(a, object)


def vsub(a, b):
    return np.vectorize(fl.sub, otypes=[object])(a, b) if np.size(a) else np.asarray(a, object)


def vscale(a, c):
    return np.vectorize(lambda z: fl.mul(z, c), otypes=[object])(a)


def dot(a, b):
    s = ZERO
    for x, y in zip(np.asarray(a, object).reshape(-1), np.asarray(b, object).reshape(-1)):
        s = fl.add(s, fl.mul(x, y))
    return s


def sumsq(a):
    return dot(a, a)


def lit(x):
    return fl.from_float(x) if isinstance(x, float) else tm.const(x)


def force(c, value):
    """substitution that fixes a decision term"""
    if c in (TRUE, FALSE):
        return {}
    if c.op == "not":
        return {c.args[0]: tm.bconst(not value)}
    return {c: tm.bconst(value)}


def proposal_of(E, out, acc):
    """the values returned when the step accepts"""
    return E.subst(out, force(acc, True))


def linear_noise(E, prop, centre, zs):
    """coefficients C with prop = centre + C z; emits the obligation that prop is exactly that"""
    zero = {z: ZERO for z in zs}
    base = E.subst(prop, zero)
    cols = []
    for z in zs:
        m = dict(zero)
        m[z] = ONE
        cols.append(vsub(E.subst(prop, m), base))
    E.eq(base, centre, "proposal with zero noise is the proposal centre")
    rec = base
    for z, c in zip(zs, cols):
        rec = vadd(rec, vscale(c, z))
    E.eq(prop, rec, "proposal is linear in the normal draws")
    return cols


def gaussian_noise(E, prop, centre, var, label="proposal noise"):
    """prop = centre + Gaussian noise of covariance var*I; returns the draws"""
    zs = [a for a in E.draws(prop) if a.op == "nrm"]
    other = [a for a in E.draws(prop) if a.op != "nrm"]
    E.check(not other, label + " uses only normal draws")
    cols = linear_noise(E, prop, centre, zs)
    n = len(prop)
    for i in range(n):
        for j in range(i + 1):
            s = ZERO
            for c in cols:
                s = fl.add(s, fl.mul(c[i], c[j]))
            E.same(s, var if i == j else ZERO, f"{label} covariance [{i},{j}]")
    return zs


def independent_draws(E, zs, us, label):
    """every draw comes from its own (key, counter): no two coincide"""
    pairs = [(z.args[0], z.val if not isinstance(z.val, tuple) else z.val[0]) for z in list(zs) + list(us)]
    E.keys_distinct(pairs, label)


def uniform_of(E, acc):
    us = [a for a in E.draws(arr([acc])) if a.op == "u"]
    return us


def metropolis_gaussian(E, x, lp, d, y, ly, acc, drift, var, correction=None, lp_used=None, L="L"):
    """common obligations of a Metropolis step with Gaussian proposal centred at drift()"""
    a = b0(acc)
    prop = proposal_of(E, y, a)
    zs = gaussian_noise(E, prop, drift(), var)
    Lp = E.fapp(L, prop, d)
    ratio = fl.sub(Lp, s0(lp) if lp_used is None else lp_used)
    if correction is not None:
        ratio = fl.add(ratio, correction(prop))
    metropolis_accept(E, a, ratio, prop, Lp, x, s0(lp), y, ly, zs)
    return prop, zs


def metropolis_accept(E, a, ratio, prop, Lp, x, lp, y, ly, zs):
    us = [u for u in E.draws(arr([a])) if u.op == "u"]
    E.check(len(us) == 1, "the decision uses exactly one uniform draw")
    if len(us) != 1:
        return
    u = us[0]
    independent_draws(E, zs, us, "uniform draw is independent of the proposal draws")
    E.iff(a, log_u_lt(u, ratio), "accept exactly when log u < log ratio")
    E.eq(y, np.array([fl.select(a, p, q) for p, q in zip(prop, x)], object), "returned position")
    E.same(s0(ly), fl.select(a, Lp, lp), "returned log density")


def log_u_lt(u, ratio):
    """log u < ratio with log 0 = -inf"""
    return fl.lt(fl.log(u), ratio)
