"""C07: directions of L-BFGS and L-BFGS-B from the most recent pairs (Quasi.tla)."""
import numpy as onp
from common import *
from lines import rflat
from c26 import fun, smooth, spec_o

DESIGN = [("MCQuasi", "MCQuasi.cfg")]
DESIGN_THOROUGH = [("MCQuasi", "MCQuasi4.cfg")]
TRACE = "TraceQuasi"
ASSUMPTIONS = ["float64; quadratic-plus-quartic objectives (convex and indefinite) in 2-4 variables, up to 14 updates; steps with nearly zero curvature relative to |s||y| (below 1e-5 but not zero), nearly coinciding break points or displacements below rounding are not judged"]


def jobs(ctx):
  J = []
  for j in range(1 if ctx.quick else 8):
    sd = ctx.seed + 31 * j
    J += [("lbfgs", (ls, m, sd)) for ls in ("zoom", "backtracking", "fixed") for m in (1, 3)]
    J += [("lbfgs", (ls, m, sd)) for ls, m in (("hager-zhang", 2), ("callable", 5), ("zoom", 0), ("zoom", 10))]
    J += [("lbfgs_complex", (sd,)), ("lbfgs_flat", (sd,))]
    J += [("lbfgsb", (ls, m, sd)) for ls in ("zoom", "backtracking", "fixed") for m in (1, 3)]
    J += [("lbfgsb", (ls, m, sd)) for ls, m in (("callable", 2), ("zoom", 5), ("zoom", 2))]
  return J


def objective(r, n, kind):
  o = smooth(r, n, 1.0 if kind != "quadratic" else 0.0, float(r.choice([0.5, 3.0])))
  o["Q"] = o["Q"] + 0.1 * onp.eye(n)
  if kind == "indefinite":
    M = r.randn(n, n)
    o["Q"] = 0.5 * (M + M.T)
    o["q"] = o["q"] + 0.5
  return o


def walk(sol, x, args, K, fields, stop=1e-5, jit=True):
  """init_state and K updates, as trace steps."""
  import jax
  upd = jax.jit(sol.update) if jit else sol.update
  steps = []
  st = None
  for k in range(K + 1):
    s = dict(exc="")
    if k == 0:
      st, s["exc"] = guarded(sol.init_state, x, *args)
    else:
      res, s["exc"] = guarded(upd, x, st, *args)
      if not s["exc"]:
        x, st = res
    if s["exc"]:
      steps.append(s)
      break
    xs = rflat(x)
    if k and not (onp.all(onp.isfinite(xs)) and onp.max(onp.abs(xs)) < 1e3):
      break
    s.update(x=vec(xs), s=num(st.stepsize), iter_num=int(st.iter_num), **fields(st))
    steps.append(s)
    if k and float(st.error) < stop:
      break
  return steps


def config(r, ls):
  cfg = dict(linesearch_init=str(r.choice(["increase", "max", "current"])), maxls=int(r.choice([5, 25])))
  if ls == "fixed":
    cfg = dict(stepsize=0.3)
  elif ls == "callable":
    import jax.numpy as jnp
    cfg = dict(stepsize=lambda k: 0.6 / jnp.sqrt(k + 1.0))
  else:
    cfg["linesearch"] = ls
  return cfg


def lbfgs(ls, m, seed):
  import jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed * 7 + m + sum(map(ord, ls)))
  out = []
  for g in (True, False):
    sol = jaxopt.LBFGS(fun=fun, history_size=m, use_gamma=g, **config(r, ls))
    for rep, kind in enumerate(("quadratic", "quartic", "indefinite", "quartic")):
      n = 3
      o = objective(r, n, kind)
      x = jnp.asarray(r.randn(n) * 2)
      out.append(dict(id=f"lbfgs:{ls}:m{m}:{'gamma' if g else 'nogamma'}#{seed}.{rep}", kind="lbfgs", o=spec_o(o), m=m, gamma=g,
                      steps=walk(sol, x, (o,), 3 * m + 5 if m < 5 else 14, lambda st: {})))
  return out


def lbfgs_flat(seed):
  """Linear objectives: every pair has y = 0."""
  import jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed + 3)
  out = []
  sol = jaxopt.LBFGS(fun=fun, history_size=2, stepsize=0.5)
  for rep in range(2):
    n = 2
    o = dict(Q=onp.zeros((n, n)), c=r.randint(-4, 5, size=n) / 4.0, q=onp.zeros(n))
    if rep:
      o["Q"][0, 0] = 1.0          # flat in the second coordinate only
    x = jnp.asarray(r.randint(-4, 5, size=n) / 2.0)
    out.append(dict(id=f"lbfgs:flat#{seed}.{rep}", kind="lbfgs", o=spec_o(o), m=2, gamma=True, steps=walk(sol, x, (o,), 6, lambda st: {})))
  return out


def lbfgs_complex(seed):
  """Complex parameters, seen in real coordinates (re, im)."""
  import jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed + 5)
  out = []

  def cfun(z, o):
    return fun(jnp.concatenate([z.real, z.imag]), o)
  for ls in ("zoom", "fixed"):
    sol = jaxopt.LBFGS(fun=cfun, history_size=2, **config(r, ls))
    for rep in range(2):
      o = objective(r, 4, "quartic")
      z = jnp.asarray(r.randn(2) + 1j * r.randn(2))
      steps = walk(sol, z, (o,), 8, lambda st: {})
      # rflat interleaves or stacks: reorder the objective accordingly
      probe = rflat(onp.array([1 + 2j, 3 + 4j]))
      perm = [{1.0: 0, 3.0: 1, 2.0: 2, 4.0: 3}[float(v)] for v in probe]
      op = dict(Q=o["Q"][onp.ix_(perm, perm)], c=o["c"][perm], q=o["q"][perm])
      out.append(dict(id=f"lbfgs:complex:{ls}#{seed}.{rep}", kind="lbfgs", o=spec_o(op), m=2, gamma=True, steps=steps))
  return out


def lbfgsb(ls, m, seed):
  import jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed * 11 + m + sum(map(ord, ls)))
  out = []
  for g in (True, False):
    theta = float(r.choice([1.0, 2.0, 0.5]))
    sol = jaxopt.LBFGSB(fun=fun, history_size=m, use_gamma=g, theta=theta, **config(r, ls))
    for rep, kind in enumerate(("quadratic", "quartic", "indefinite", "quartic", "indefinite", "quadratic")):
      n = 3
      o = objective(r, n, kind)
      l, u = -0.3 - r.rand(n), 0.3 + r.rand(n)
      if rep % 3 == 1:
        l[0], u[1] = -onp.inf, onp.inf
      if rep % 3 == 2:
        l, u = l * 3, u * 3
      x = onp.clip(r.randn(n), onp.maximum(l, -3), onp.minimum(u, 3))
      if rep == 3:
        l[:], u[:] = -onp.inf, onp.inf
      if rep == 5:
        u[2] = l[2] = x[2]
      out.append(dict(id=f"lbfgsb:{ls}:m{m}:{'gamma' if g else 'nogamma'}#{seed}.{rep}", kind="lbfgsb", o=spec_o(o), m=m, gamma=g, theta=num(theta),
                      l=vec(l), u=vec(u), fixed=ls in ("fixed", "callable"),
                      steps=walk(sol, jnp.asarray(x), ((jnp.asarray(l), jnp.asarray(u)), o), 2 * m + 6, lambda st: {})))
  return out
