"""C09: Anderson acceleration, update by update, against Mix.tla."""
import numpy as onp
from common import *
from c26 import fun, smooth, spec_o, hyper
from c08 import shape

DESIGN = [("MCMix", "MCMix.cfg"), ("MCMix", "MCMix2.cfg")]
TRACE = "TraceMix"
ASSUMPTIONS = ["float64; cubic maps and (accelerated) proximal-gradient inner solvers in 3-4 variables, histories of 2-5, up to 14 updates; a mixed point whose linear system amplifies rounding beyond 1e-3 is not judged"]


def jobs(ctx):
  J = []
  for j in range(1 if ctx.quick else 10):
    sd = ctx.seed + 41 * j
    J += [("maps", (tree, sd)) for tree in ("vector", "dict", "nested")]
    J += [("wrapped", (acc, sd, part)) for acc in (False, True) for part in range(3)]
  return J


def record(sol, x, args, m, K, flat_, wrapper, aux):
  """init_state and K updates as steps of TraceMix."""
  import jax
  upd = jax.jit(sol.update)
  rows = lambda t: [fvec(flat_(jax.tree_util.tree_map(lambda l: l[i], t))) for i in range(m)]
  steps, st, old = [], None, []
  for k in range(K + 1):
    s = dict(exc="")
    if k == 0:
      st, s["exc"] = guarded(sol.init_state, x, *args)
    else:
      res, s["exc"] = guarded(upd, x, st, *args)
      before = fvec(flat_(x))
      if not s["exc"]:
        x, st = res
    if s["exc"]:
      steps.append(s)
      break
    v = fvec(flat_(x))
    if not onp.all(onp.isfinite(v)) or onp.max(onp.abs(v)) > 1e6:
      break
    hx = rows(st.params_history)
    p = before if k else v
    if k:
      fresh = [h for h in hx if not any(onp.array_equal(h, o) for o in old)]
      if fresh:
        p = fresh[0]
    old = hx
    s.update(x=vec(v), p=vec(p), hx=[vec(h) for h in hx], hr=[vec(h) for h in rows(st.residuals_history)], gram=mat(st.residual_gram),
             error=num(st.error), inner_error=num(st.solver_state.error) if wrapper else "0", iter_num=int(st.iter_num),
             nfev=int(st.num_fun_eval) if not wrapper else 0, aux=vec(fvec(flat_(st.aux))) if aux and k else [])
    steps.append(s)
    if k and onp.linalg.norm(v - p) < 1e-7:
      break
  return steps


def maps(tree, seed):
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed * 17 + len(tree))
  out = []
  for m, f in ((2, 1), (3, 1), (3, 2), (5, 3), (2, 3), (4, 4)):
    aux = bool(r.randint(2))
    beta, ridge = float(r.choice([1.0, 0.5, 0.0, -0.3])), float(r.choice([1e-5, 1e-2, 1.0]))
    n = int(r.randint(3, 5))
    x0, flat_ = shape(tree, onp.zeros(n))
    td = jax.tree_util.tree_structure(x0)

    def pack(w):
      i, ls = 0, []
      for l in jax.tree_util.tree_leaves(x0):
        ls.append(jnp.reshape(w[i:i + l.size], l.shape))
        i += l.size
      return td.unflatten(ls)

    def T(t, o):
      v = flat_(t)
      w = o["Q"] @ v - o["c"] + o["q"] * v ** 3
      return (pack(w), pack(v + 1.0)) if aux else pack(w)
    sol = jaxopt.AndersonAcceleration(fixed_point_fun=T, history_size=m, mixing_frequency=f, beta=beta, ridge=ridge, has_aux=aux)
    for rep in range(2):
      Q = r.randn(n, n)
      o = dict(Q=Q / onp.linalg.norm(Q, 2) * float(r.choice([0.6, 0.95, 1.15])), c=r.randn(n), q=0.002 * r.randn(n) * r.randint(2))
      out.append(dict(id=f"map:{tree}:m{m}f{f}#{seed}.{rep}", kind="map", o=spec_o(o), m=m, f=f, beta=num(beta), ridge=num(ridge), s="0",
                      steps=record(sol, pack(jnp.asarray(r.randn(n))), (o,), m, 14, flat_, False, aux)))
  return out


def wrapped(acc, seed, part):
  import jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed * 19 + part + 5 * acc)
  out = []
  n = 3
  for kind, (m, f) in ((("none", (2, None)), ("lasso", (3, 1))), (("box", (2, 1)), ("ridge", (3, 2))), (("enet", (4, None)), ("none", (3, 4))))[part]:
    pf, _, _ = hyper(kind, r, n)
    s = 0.2
    if kind == "box":
      inner = jaxopt.ProjectedGradient(fun=fun, projection=pf, stepsize=s, acceleration=acc)
    elif kind == "none":
      inner = jaxopt.GradientDescent(fun=fun, stepsize=s, acceleration=acc)
    else:
      inner = jaxopt.ProximalGradient(fun=fun, prox=pf, stepsize=s, acceleration=acc)
    beta, ridge = float(r.choice([1.0, 0.5])), float(r.choice([1e-5, 1e-2]))
    sol = jaxopt.AndersonWrapper(inner, history_size=m, beta=beta, ridge=ridge, **({} if f is None else dict(mixing_frequency=f)))
    for rep in range(2):
      o = smooth(r, n, 0.0, 1.0)
      _, hp, p = hyper(kind, r, n)
      args = (o,) if kind == "none" else (hp, o)
      out.append(dict(id=f"wrapper:{kind}:{'fista' if acc else 'pg'}:m{m}f{f}#{seed}.{part}.{rep}", kind="fista" if acc else "pg", o=spec_o(o, kind, p), m=m, f=f or m,
                      beta=num(beta), ridge=num(ridge), s=num(s), steps=record(sol, jnp.asarray(r.randn(n) * 1.5), args, m, 12, lambda t: t, True, False)))
  return out
