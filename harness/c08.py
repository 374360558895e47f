"""C08: BFGS matrices and Broyden memories, every update against Quasi.tla."""
import numpy as onp
from common import *
from lines import rflat
from c26 import fun, smooth, spec_o
from c07 import objective, walk, config

DESIGN = [("MCQuasi", "MCQuasi.cfg")]
DESIGN_THOROUGH = [("MCQuasi", "MCQuasi4.cfg")]
TRACE = "TraceQuasi"
ASSUMPTIONS = ["float64; quadratic-plus-quartic objectives and componentwise cubic root problems in 2-4 variables, up to 12 updates; updates whose denominators nearly cancel are not judged"]
TREES = ("vector", "dict", "nested")


def jobs(ctx):
  J = []
  for j in range(1 if ctx.quick else 8):
    sd = ctx.seed + 37 * j
    J += [("bfgs", (ls, sd)) for ls in ("zoom", "backtracking", "hager-zhang", "fixed", "callable")]
    J += [("broyden", (ls, m, sd)) for ls, m in (("backtracking", 2), ("backtracking", None), ("fixed", 3), ("fixed", 1), ("callable", None))]
    J += [("broyden_linear", (sd,)), ("bfgs_flat", (sd,))]
  return J


def shape(kind, v):
  """Parameters of n entries as a tree, and the way back."""
  import jax.numpy as jnp
  n = len(v)
  if kind == "vector":
    return jnp.asarray(v), lambda t: t
  if kind == "dict":
    return dict(a=jnp.asarray(v[:1]), b=jnp.asarray(v[1:])), lambda t: jnp.concatenate([t["a"], t["b"]])
  return (jnp.asarray(v[0]), [jnp.asarray(v[1:]).reshape(1, -1)]), lambda t: jnp.concatenate([jnp.reshape(t[0], (1,)), jnp.ravel(t[1][0])])


def bfgs(ls, seed):
  import jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed * 7 + sum(map(ord, ls)))
  out = []
  for tree in TREES:
    _, flat_ = shape(tree, onp.zeros(3))
    sol = jaxopt.BFGS(fun=lambda t, o: fun(flat_(t), o), **config(r, ls))
    for rep, kind in enumerate(("quadratic", "quartic", "indefinite")):
      o = objective(r, 3, kind)
      x, _ = shape(tree, r.randn(3) * 2)
      out.append(dict(id=f"bfgs:{ls}:{tree}#{seed}.{rep}", kind="bfgs", o=spec_o(o),
                      steps=walk(sol, x, (o,), 9, lambda st: dict(H=vec(st.H)))))
  return out


def bfgs_flat(seed):
  """Linear objectives: y = 0, the matrix must stay as it is."""
  import jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed + 3)
  out = []
  sol = jaxopt.BFGS(fun=fun, stepsize=0.5)
  for rep in range(2):
    o = dict(Q=onp.zeros((2, 2)), c=r.randint(1, 5, size=2) / 4.0, q=onp.zeros(2))
    x = jnp.asarray(r.randint(-4, 5, size=2) / 2.0)
    out.append(dict(id=f"bfgs:flat#{seed}.{rep}", kind="bfgs", o=spec_o(o), steps=walk(sol, x, (o,), 4, lambda st: dict(H=vec(st.H)))))
  return out


def root_problem(r, n):
  return dict(Q=onp.eye(n) * 1.5 + 0.6 * r.randn(n, n), c=r.randn(n), q=0.3 * r.rand(n) * r.randint(2))


def broyden(ls, m, seed):
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed * 9 + (m or 7) + sum(map(ord, ls)))
  out = []
  for tree in TREES:
    gamma = float(r.choice([1.0, 0.5, -0.7]))
    x0, flat_ = shape(tree, onp.zeros(3))

    def res(t, o):
      v = flat_(t)
      w = o["Q"] @ v - o["c"] + o["q"] * v ** 3
      # packed like the parameters
      lv, td = jax.tree_util.tree_flatten(t)
      parts, k = [], 0
      for l in lv:
        parts.append(jnp.reshape(w[k:k + l.size], jnp.shape(l)))
        k += l.size
      return jax.tree_util.tree_unflatten(td, parts)
    cfg = config(r, ls)
    cfg.pop("linesearch_init", None)
    sol = jaxopt.Broyden(fun=res, history_size=m, maxiter=12, gamma=gamma, **cfg)
    for rep in range(3):
      o = root_problem(r, 3)
      x, _ = shape(tree, r.randn(3))
      out.append(dict(id=f"broyden:{ls}:m{m}:{tree}#{seed}.{rep}", kind="broyden", o=spec_o(o), m=m or 12, gamma=num(gamma),
                      steps=walk(sol, x, (o,), 8, lambda st: dict(value=vec(rflat(st.value)), error=num(st.error)), stop=1e-4)))
  return out


def broyden_linear(seed):
  """Linear systems with a full unit step, memory of two."""
  import jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed + 1)
  out = []
  sol = jaxopt.Broyden(fun=lambda x, o: o["Q"] @ x - o["c"], stepsize=1.0, maxiter=8, history_size=2, has_aux=False)
  for rep in range(2):
    o = dict(Q=onp.eye(2) + 0.1 * r.randn(2, 2), c=r.randn(2), q=onp.zeros(2))
    x = jnp.asarray(r.randn(2))
    out.append(dict(id=f"broyden:linear#{seed}.{rep}", kind="broyden", o=spec_o(o), m=2, gamma="1",
                    steps=walk(sol, x, (o,), 6, lambda st: dict(value=vec(rflat(st.value)), error=num(st.error)), stop=1e-4)))
  return out
