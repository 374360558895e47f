"""C13: proximal operators minimise 1/2 |x-y|^2 + scaling * penalty(y)."""
import numpy as onp
from common import *

DESIGN = [("MCProx", "MCProx.cfg")]
TRACE = "TraceProx"
ASSUMPTIONS = ["float64; vectors and trees of up to 7 entries", "penalty weights and scalings are non-negative",
               "derivatives are checked where the operator is differentiable"]
KINDS = ["none", "lasso", "nn_lasso", "enet", "group", "ridge", "nn_ridge"]
FUN = dict(none="prox_none", lasso="prox_lasso", nn_lasso="prox_non_negative_lasso", enet="prox_elastic_net",
           group="prox_group_lasso", ridge="prox_ridge", nn_ridge="prox_non_negative_ridge")


def jobs(ctx):
  n = 1 if ctx.quick else 8
  J = [("kind", (k, ctx.seed + 50 * j)) for k in KINDS for j in range(n)]
  return J + [("from_projection", (ctx.seed + 50 * j,)) for j in range(n)]


def tree(v):
  import jax.numpy as jnp
  v = jnp.asarray(v)
  return {"b": v[:2], "a": (v[2:6].reshape(2, 2), [v[6]])}


def kind(k, seed):
  import jax, jax.numpy as jnp
  from jaxopt import prox
  r = onp.random.RandomState(seed * 101 + KINDS.index(k))
  f = getattr(prox, FUN[k])
  steps = []
  per_coord = k in ("lasso", "enet")            # tree / array valued weights are documented

  def x_of(n):
    c = r.randint(6)
    if c == 0:
      return onp.zeros(n)
    if c == 1:
      return r.randint(-2, 3, n).astype(float)
    if c == 2:
      return r.randn(n) * 1e5
    if c == 3:
      return r.randn(n) * 1e-4
    return r.randn(n) * 2

  def add(mode, x, p, fn, xin):
    s = dict(op="point", kind=k, mode=mode, x=vec(x), p=p, exc="", struct=True, y=[])
    y, s["exc"] = guarded(fn)
    if not s["exc"]:
      s["struct"] = (jax.tree_util.tree_structure(y) == jax.tree_util.tree_structure(xin) and
                     all(onp.shape(a) == onp.shape(b) and onp.asarray(a).dtype == onp.asarray(b).dtype
                         for a, b in zip(leaves(y), leaves(xin))))
      s["y"] = flat(y)
    steps.append(s)

  nw = dict(none=0, lasso=1, nn_lasso=1, enet=2, group=1, ridge=1, nn_ridge=1)[k]
  def spec_p(ws, n, sc):
    """weights for the specification"""
    full = k in ("lasso", "nn_lasso", "enet")
    return [vec(onp.broadcast_to(w, n) if full else [w]) for w in ws] + [[num(sc)]]

  def hyper(ws):
    if nw == 0:
      return None
    return ws[0] if nw == 1 else tuple(ws)

  for j in range(24):
    n = [1, 2, 3, 5][j % 4]
    x = x_of(n)
    sc = float(r.choice([1.0, 0.3, 2.5, 0.0, 10.0]))
    ws = [float(r.choice([0.0, 0.1, 1.0, 3.0, 0.7])) for _ in range(nw)]
    if j % 5 == 4 and nw and k == "group" and onp.any(x):     # exactly at the threshold
      ws[0], sc = float(onp.linalg.norm(x)), 1.0
      if r.rand() < 0.5:
        ws[0] *= 1.0001
    if per_coord and j % 3 == 2:
      ws[0] = onp.abs(r.randn(n)) * (r.rand(n) < 0.8)
      if nw == 2 and j % 2:
        ws[1] = onp.abs(r.randn(n))
    if per_coord and j % 3 == 1 and nw == 2:
      ws = [onp.abs(r.randn(n)), onp.abs(r.randn(n))]
    h = hyper([jnp.asarray(w) if isinstance(w, onp.ndarray) else w for w in ws])
    fn = jax.jit(f) if j % 4 == 1 else f
    mode = "jit" if j % 4 == 1 else "eager"
    if j % 6 == 5:
      add(mode + "-kw", x, spec_p(ws, n, sc),
          (lambda: f(jnp.asarray(x), scaling=sc, **({} if nw == 0 else {dict(lasso="l1reg", nn_lasso="l1reg", enet="hyperparams", group="l2reg", ridge="l2reg", nn_ridge="l2reg")[k]: h}))),
          jnp.asarray(x))
    else:
      add(mode, x, spec_p(ws, n, sc), lambda: fn(jnp.asarray(x), h, sc), jnp.asarray(x))
  # documented defaults
  x = r.randn(4) * 2
  one = [1.0] * nw
  add("default", x, spec_p(one, 4, 1.0), lambda: f(jnp.asarray(x)), jnp.asarray(x))
  add("None", x, spec_p(one, 4, 0.5), lambda: f(jnp.asarray(x), None, 0.5), jnp.asarray(x))
  # trees (one group for the group lasso), weights scalar or tree
  for j in range(8):
    xt = tree(r.randn(7) * (3 if j % 2 else 0.5))
    sc = [1.0, 0.4, 2.0, 3.0][j % 4]
    if per_coord and j % 2:
      wt = [tree(onp.abs(r.randn(7))) for _ in range(nw)]
      p = [flat(w) for w in wt] + [[num(sc)]]
    else:
      wt = [float(onp.abs(r.randn())) for _ in range(nw)]
      p = spec_p(wt, 7, sc)
      if j == 4:
        wt = [jnp.asarray(w) for w in wt]
    h = hyper(wt)
    fn = jax.jit(f) if j in (2, 5) else f
    add("tree", flat_x(xt), p, lambda: fn(xt, h, sc), xt)
  # groups through vmap
  X = r.randn(4, 3) * onp.array([[0.1], [1], [3], [0]])
  Y, exc = guarded(lambda: jax.vmap(f, in_axes=(0, None, None))(jnp.asarray(X), hyper([0.8, 0.3][:nw]), 0.7))
  for b in range(4):
    add("vmap", X[b], spec_p([0.8, 0.3][:nw], 3, 0.7), lambda: Y[b] if not exc else jax.vmap(f, in_axes=(0, None, None))(X, hyper([0.8, 0.3][:nw]), 0.7), X[b])
  # derivatives with respect to input, weights and scaling
  for j in range(6):
    n = 3
    x, dx, w = r.randn(n) * 2, r.randn(n), r.randn(n)
    sc = 0.3 + r.rand()
    wsz = n if per_coord else 1
    ws = [0.2 + r.rand(wsz) for _ in range(nw)]
    dws = [r.randn(wsz) for _ in range(nw)]
    dsc = r.randn()
    def call(x, ws, sc):
      ws = [v if per_coord else v[0] for v in ws]
      return f(x, hyper(ws), sc)
    rep = n if k == "nn_lasso" else 1
    P = lambda vs, c: [vec(onp.repeat(v, rep)) for v in vs] + [[num(c)]]
    s = dict(op="deriv", kind=k, x=vec(x), p=P(ws, sc), dx=vec(dx), dp=P(dws, dsc), dpf=flat(dws) + [num(dsc)], w=vec(w),
             dy=[], gx=[], gp=[], exc="", struct=True)
    def go():
      a = (jnp.asarray(x), [jnp.asarray(v) for v in ws], jnp.asarray(sc))
      _, dy = jax.jvp(call, a, (jnp.asarray(dx), [jnp.asarray(v) for v in dws], jnp.asarray(dsc)))
      _, g = jax.vjp(call, *a)
      return (dy,) + g(jnp.asarray(w))
    res, s["exc"] = guarded(go)
    if not s["exc"]:
      s["dy"], s["gx"], s["gp"] = vec(res[0]), vec(res[1]), flat(res[2]) + [num(res[3])]
    steps.append(s)
  return [dict(id=f"{FUN[k]}#{seed}", steps=steps)]


def flat_x(t):
  return fvec(t)


def from_projection(seed):
  """make_prox_from_projection: the projection, whatever the scaling."""
  import jax, jax.numpy as jnp
  from jaxopt import prox, projection
  r = onp.random.RandomState(seed + 3)
  steps = []
  pr = prox.make_prox_from_projection(projection.projection_non_negative)
  for j in range(6):
    x = r.randn(3)
    a = [(), (None,), (None, 0.5), (None, 0.0), (), (None, 7.0)][j]
    kw = dict(scaling=3.0) if j == 4 else {}
    s = dict(op="point", kind="nn_lasso", mode="from_projection", x=vec(x), p=[["0"] * 3, ["1"]], exc="", struct=True, y=[])
    y, s["exc"] = guarded(lambda: pr(jnp.asarray(x), *a, **kw))
    if not s["exc"]:
      s["y"] = flat(y)
    steps.append(s)
  seen = []
  def proj(x, hyperparams):
    seen.append(hyperparams)
    return 2.0 * x + hyperparams
  pr = prox.make_prox_from_projection(proj)
  for sc in (1.0, 0.1, 5.0):
    x, h = r.randn(3), r.randn(3)
    s = dict(op="point", kind="none", mode="from_projection", x=vec(2 * x + h), p=[["1"]], exc="", struct=True, y=[])
    y, s["exc"] = guarded(lambda: pr(jnp.asarray(x), jnp.asarray(h), sc))
    if not s["exc"]:
      s["y"] = flat(y)
    steps.append(s)
  return [dict(id=f"make_prox_from_projection#{seed}", steps=steps)]
