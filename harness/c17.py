"""C17: every iterate of a constrained solver against the sets of Feas.tla."""
import numpy as onp
from common import *

DESIGN = [("MCFeas", "MCFeas.cfg")]
DESIGN_THOROUGH = [("MCFeas", "MCFeas3.cfg")]
TRACE = "TraceFeas"
ASSUMPTIONS = ["float64; objectives with finite values in 3 variables (convex, oscillating, steep, linear), starts inside the set; sets up to rounding (1e-11 relative, 1e-6 for the polyhedral sets solved iteratively)"]
SETS = ("box", "box-inf", "box-equal", "non_negative", "simplex", "l1_ball", "l2_ball", "linf_ball", "hyperplane", "halfspace", "affine_set", "box_section")
N = 3


def jobs(ctx):
  J = []
  for j in range(1 if ctx.quick else 8):
    sd = ctx.seed + 43 * j
    J += [("pg", (SETS[k::4], sd)) for k in range(4)]
    J += [("lbfgsb", (ls, ms, sd)) for ls in ("zoom", "backtracking", "hager-zhang") for ms in (1.0, 6.0) if not (ctx.quick and ls != "hager-zhang" and ms != 1.0 + 5.0 * (ctx.seed % 2))]
    J += [("lbfgsb", ("steps", 1.0, sd)), ("mirror", (sd,)), ("cd", (sd,)), ("scipy", (sd,)), ("scipyls", (sd,))]
  return J


def fun(x, o):
  import jax.numpy as jnp
  return (0.5 * jnp.vdot(x, o["Q"] @ x) - jnp.vdot(o["c"], x) + o["a"] * jnp.sum(jnp.cos(3 * x)) + 0.25 * o["b"] * jnp.sum(x ** 4)
          + o["e"] * jnp.sum(jnp.exp(-jnp.clip(x, -30, 30))))


def objective(r, kind):
  M = r.randn(N, N)
  o = dict(Q=M @ M.T / N, c=r.randn(N), a=0.0, b=0.0, e=0.0)
  if kind == "osc":
    o.update(a=2.0, b=0.3)
  if kind == "steep":
    o.update(Q=50 * o["Q"], c=30 * o["c"], e=3.0)
  if kind == "linear":
    o.update(Q=0 * o["Q"], c=4 * o["c"])
  if kind == "concave":
    o.update(Q=-o["Q"], b=0.05)
  return {k: onp.asarray(v) for k, v in o.items()}


OBJ = ("quad", "osc", "steep", "linear", "concave")


def region(kind, r):
  """(projection, hyperparams, set name, p for the specification, sample)."""
  import jax.numpy as jnp
  from jaxopt import projection as pj
  l, u = -r.rand(N) * 1.5, r.rand(N) * 1.5
  if kind == "box-inf":
    l[0], u[1] = -onp.inf, onp.inf
  if kind == "box-equal":
    l[1] = u[1] = 0.25
  if kind.startswith("box") and kind != "box_section":
    return pj.projection_box, (jnp.asarray(l), jnp.asarray(u)), "box", [l, u]
  if kind == "non_negative":
    return pj.projection_non_negative, None, kind, []
  if kind in ("simplex", "l1_ball", "l2_ball", "linf_ball"):
    rad = float(r.choice([0.5, 1.0, 2.5]))
    return getattr(pj, "projection_" + kind), rad, kind, [[rad]]
  a = r.randn(N)
  b = float(r.randn())
  if kind in ("hyperplane", "halfspace"):
    return getattr(pj, "projection_" + kind), (jnp.asarray(a), b), kind, [a, [b]]
  if kind == "affine_set":
    A, b = r.randn(2, N), r.randn(2)
    return pj.projection_affine_set, (jnp.asarray(A), jnp.asarray(b)), kind, [b, A[0], A[1]]
  w = r.rand(N) + 0.2
  c = float(w @ (l + r.rand(N) * (u - l)))
  return pj.projection_box_section, (jnp.asarray(l), jnp.asarray(u), jnp.asarray(w), c), kind, [l, u, w, [c]]


def trace(tid, name, p, tol, factor, mirror=False, slack="1E-11"):
  return dict(id=tid, set=name, p=[vec(q) for q in p], tol=num(tol), factor=factor, mirror=mirror, slack=slack, steps=[])


def big(x, g):
  """A diverging run: rounding of the point to be projected exceeds the slack."""
  return not all(onp.abs(onp.asarray(q, float)).max() < 1e4 for q in (onp.concatenate([onp.ravel(w) for w in leaves(x)]), onp.ravel(g)))


def follow(tr, sol, upd, x, args, grad, K, tol):
  """init_state and K updates; every iterate is recorded."""
  st, exc = guarded(sol.init_state, x, *args)
  if exc:
    tr["steps"].append(dict(exc=exc))
    return tr
  for _ in range(K):
    res, exc = guarded(upd, x, st, *args)
    if exc:
      tr["steps"].append(dict(exc=exc))
      break
    x, st = res
    e = float(st.error)
    tr["steps"].append(dict(exc="", x=flat(x), g=flat(grad(x)), done=bool(e <= tol)))
    if e <= tol * 1e-3 or big(x, grad(x)):
      break
  return tr


def pg(kinds, seed):
  import jax, jax.numpy as jnp, jaxopt
  from jaxopt import prox
  out = []
  for kind in kinds:
    r = onp.random.RandomState(seed * 11 + sum(map(ord, kind)))
    for mode in ("ls", "fixed", "wild", "schedule"):
      acc = bool(r.randint(2))
      proj, _, _, _ = region(kind, r)
      step = dict(ls=0.0, fixed=0.1, wild=5.0).get(mode) if mode != "schedule" else (lambda k: 2.0 / (k + 1.0))
      kw = dict(fun=fun, stepsize=step, acceleration=acc, maxls=int(r.choice([1, 4, 20])))
      cls = jaxopt.ProjectedGradient if r.randint(2) else jaxopt.ProximalGradient
      sol = cls(projection=proj, **kw) if cls is jaxopt.ProjectedGradient else cls(prox=prox.make_prox_from_projection(proj), **kw)
      upd = jax.jit(sol.update)
      for ob in (("quad", "osc"), ("steep", "linear"), ("concave", "quad"), ("linear", "osc"))[r.randint(4)]:
        o = objective(r, ob)
        _, hp, name, p = region(kind, r)
        x = proj(jnp.asarray(r.randn(N)), hp) if hp is not None else proj(jnp.asarray(r.randn(N)))
        tol = 1e-4
        tr = trace(f"pg:{kind}:{mode}{'-acc' if acc else ''}:{ob}#{seed}", name, p, tol, "none" if acc else "2", slack="1E-3" if kind == "box_section" else "1E-11")
        out.append(follow(tr, sol, upd, x, (hp, o), jax.jit(jax.grad(lambda x: fun(x, o))), 12, tol))
  return out


def lbfgsb(ls, ms, seed):
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed * 5 + sum(map(ord, ls)) + int(ms))
  out = []
  variants = [dict(linesearch=ls, max_stepsize=ms, linesearch_init=str(r.choice(["increase", "max", "current"])), maxls=int(r.choice([3, 20])))]
  if ls == "steps":
    variants = [dict(stepsize=s) for s in (0.4, 1.0, 3.0)] + [dict(stepsize=lambda k: 2.5 / (k + 1.0))]
  for v, kw in enumerate(variants):
    tree = bool(r.randint(2))
    pack = (lambda w: dict(a=w[:1], b=(w[1:],))) if tree else (lambda w: w)
    un = (lambda t: jnp.concatenate([t["a"], t["b"][0]])) if tree else (lambda t: t)
    sol = jaxopt.LBFGSB(fun=lambda t, o: fun(un(t), o), history_size=int(r.choice([1, 3, 10])), use_gamma=bool(r.randint(2)), **kw)
    upd = jax.jit(sol.update)
    for kind in ("box", "box-inf", "box-equal"):
      for rep in range(4 if ls != "steps" else 2):
        o = objective(r, OBJ[(rep + len(kind)) % 5])
        _, (l, u), name, p = region(kind, r)
        if kind == "box" and rep == 1:
          l, u = 0.05 * l, 0.05 * u
          p = [l, u]
        x = jnp.clip(jnp.asarray(r.randn(N)), l, u)
        tol = 1e-4
        tr = trace(f"lbfgsb:{ls}{ms:g}:{kind}#{seed}.{v}.{rep}", name, p, tol, "2")
        gr = jax.jit(jax.grad(lambda w, o=o: fun(w, o)))
        t = follow(tr, sol, upd, pack(x), ((pack(l), pack(u)), o), lambda q: gr(un(q)), 10, tol)
        out.append(t)
  return out


def mirror(seed):
  import jax, jax.numpy as jnp, jaxopt
  from jaxopt import projection
  r = onp.random.RandomState(seed + 77)
  out = []
  for mp, step in (("kl", 0.5), ("kl", "schedule"), ("kl", 20.0), ("euclid", 0.1), ("euclid", 7.0)):
    sc = step if step != "schedule" else (lambda k: 3.0 / jnp.sqrt(k + 1.0))
    pg_ = jaxopt.MirrorDescent.make_projection_grad(lambda z, _: jax.nn.softmax(z), jnp.log) if mp == "kl" else \
        jaxopt.MirrorDescent.make_projection_grad(projection.projection_simplex, lambda x: x)
    sol = jaxopt.MirrorDescent(fun=fun, projection_grad=pg_, stepsize=sc)
    upd = jax.jit(sol.update)
    for ob in OBJ:
      o = objective(r, ob)
      x = r.rand(N) + 0.05
      x = jnp.asarray(x / x.sum())
      hp = None if mp == "kl" else 1.0
      tr = trace(f"mirror:{mp}:{step}:{ob}#{seed}", "simplex", [[1.0]], 1e-6, "100" if mp == "kl" and step == 0.5 else "none", mirror=True)
      # log(0) after an underflow belongs to the map, not to the solver
      t = follow(tr, sol, upd, x, (hp, o), jax.jit(jax.grad(lambda w, o=o: fun(w, o))), 40 if mp == "kl" else 8, 1e-6)
      if mp == "kl":
        under = [k for k, s in enumerate(t["steps"]) if not s["exc"] and min(map(float, s["x"])) == 0.0]
        if under:
          t["steps"] = t["steps"][:under[0]]
      if t["steps"]:
        out.append(t)
  return out


def cd(seed):
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed + 13)
  sol = jaxopt.BoxCDQP()
  upd = jax.jit(sol.update)
  out = []
  for kind in ("box", "box-inf", "box-equal"):
    for rep in range(6):
      M = r.randn(N, 2 if rep % 3 == 0 else N)
      Q, c = M @ M.T * (30.0 if rep == 5 else 1.0) + 0.02 * onp.eye(N) * (rep % 2), r.randn(N) * (10.0 if rep % 2 else 1.0)
      if rep == 4 and kind == "box":
        Q[0] = 0
        Q[:, 0] = 0
      _, (l, u), name, p = region(kind, r)
      x = jnp.clip(jnp.asarray(r.randn(N)), l, u)
      tol = 1e-6
      tr = trace(f"cd:{kind}#{seed}.{rep}", name, p, tol, num(2 + 4 * onp.abs(Q).sum()))
      out.append(follow(tr, sol, upd, x, ((jnp.asarray(Q), jnp.asarray(c)), (l, u)), lambda w: Q @ onp.asarray(w) + c, 15, tol))
  return out


def scipy(seed):
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed + 29)
  out = []
  for method in ("L-BFGS-B", "TNC", "SLSQP", "Powell", "trust-constr"):
    for rep, kind in enumerate(("box", "box-inf", "box-equal") if method in ("L-BFGS-B", "SLSQP") else ("box",)):
      seen = []
      kw = dict(callback=lambda *a: seen.append(a[0])) if method in ("L-BFGS-B", "TNC") else {}
      o = objective(r, ("quad", "osc", "steep")[rep])
      _, (l, u), name, p = region(kind, r)
      sol = jaxopt.ScipyBoundedMinimize(fun=lambda t, o: fun(jnp.concatenate([t["a"], t["b"]]), o), method=method, maxiter=30, tol=1e-8, **kw)
      pack = lambda w: dict(a=w[:1], b=w[1:])
      x = jnp.clip(jnp.asarray(r.randn(N)), l, u)
      tr = trace(f"scipy:{method}:{kind}#{seed}", name, p, 1e-8, "none")
      res, exc = guarded(lambda: sol.run(pack(x), bounds=(pack(l), pack(u)), o=o))
      pts = [] if exc else [flat(q) if isinstance(q, dict) else vec(q) for q in seen] + [flat(res.params)]
      tr["steps"] = [dict(exc=exc)] if exc else [dict(exc="", x=q, g=q, done=False) for q in pts]
      out.append(tr)
  return out


def scipyls(seed):
  import jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed + 31)
  out = []
  for method in ("trf", "dogbox"):
    for rep in range(4):
      A, b = r.randn(5, N), r.randn(5) * 3
      l, u = -r.rand(N), r.rand(N)
      if rep == 2:
        l[0], u[1] = -onp.inf, onp.inf
      f = lambda t: jnp.tanh(A @ jnp.concatenate([t["a"], t["b"]])) * 2 - b
      sol = jaxopt.ScipyBoundedLeastSquares(fun=f, method=method)
      pack = lambda w: dict(a=jnp.asarray(w[:1]), b=jnp.asarray(w[1:]))
      x = onp.clip(r.randn(N), l, u) * 0.9
      x = onp.clip(x, l + 1e-6, u - 1e-6)
      tr = trace(f"scipyls:{method}#{seed}.{rep}", "box", [l, u], 1e-8, "none")
      res, exc = guarded(lambda: sol.run(pack(x), bounds=(pack(l), pack(u))))
      tr["steps"] = [dict(exc=exc)] if exc else [dict(exc="", x=flat(res.params), g=flat(res.params), done=False)]
      out.append(tr)
  return out
