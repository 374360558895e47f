"""C26: first-order methods, every update against FirstOrder.tla."""
import numpy as onp
from common import *

DESIGN = [("MCFirst", "MCFirst.cfg")]
TRACE = "TraceFirst"
ASSUMPTIONS = ["float64; smooth parts are quadratic plus quartic in 2-4 variables, block coordinate descent on the library's composite objectives",
               "line-search decisions within 1e-11 of the condition's boundary are accepted either way"]
PROXES = ["none", "lasso", "enet", "nn_lasso", "ridge", "group", "box", "simplex", "l2_ball", "non_negative", "l1_ball"]


def jobs(ctx):
  m = 1 if ctx.quick else 6
  J = []
  for j in range(m):
    sd = ctx.seed + 17 * j
    J += [("pg", (p, sd)) for p in PROXES]
    J += [("md", (sd,)), ("cd", (sd,))]
    J += [("bcd", (k, sd)) for k in ("least_squares", "binary_logreg", "multiclass_logreg", "svm_dual", "multitask")]
    J += [("cg", (l, me, sd)) for l in ("zoom", "backtracking") for me in ("polak-ribiere", "fletcher-reeves", "hestenes-stiefel")]
    J += [("cg", ("hager-zhang", "polak-ribiere", sd)), ("cg_eager", (sd,))]
  return J


def smooth(r, n, quartic, scale=1.0):
  M = r.randn(n, n)
  Q = scale * (M @ M.T / n + (0.05 if r.rand() < 0.7 else 0.0) * onp.eye(n))
  if r.rand() < 0.2:
    Q[:, 0] = Q[0, :] = 0.0          # flat direction
  return dict(Q=Q, c=r.randn(n), q=(r.rand(n) * quartic))


def spec_o(o, prox="none", p=()):
  return dict(Q=mat(o["Q"]), c=vec(o["c"]), q=vec(o["q"]), prox=prox, p=[vec(v) for v in p])


def fun(x, o):
  import jax.numpy as jnp
  return 0.5 * jnp.vdot(x, o["Q"] @ x) - jnp.vdot(o["c"], x) + 0.25 * jnp.sum(o["q"] * x ** 4)


def auxf(x):
  return dict(a=x + 1.0, b=(x ** 2).sum())


def hyper(kind, r, n):
  """(prox callable, hyperparams, parameters for the specification)."""
  import jax.numpy as jnp
  from jaxopt import prox, projection
  if kind == "none":
    return prox.prox_none, None, []
  if kind == "lasso":
    w = r.rand(n) * 0.6
    return prox.prox_lasso, jnp.asarray(w), [w]
  if kind == "enet":
    a, b = r.rand() * 0.6, r.rand() * 2
    return prox.prox_elastic_net, (a, b), [onp.full(n, a), onp.full(n, b)]
  if kind == "nn_lasso":
    a = r.rand() * 0.5
    return prox.prox_non_negative_lasso, a, [onp.full(n, a)]
  if kind == "ridge":
    a = r.rand()
    return prox.prox_ridge, a, [[a]]
  if kind == "group":
    a = r.rand()
    return prox.prox_group_lasso, a, [[a]]
  if kind == "box":
    l = -r.rand(n) * 0.8
    u = r.rand(n) * 0.8
    if r.rand() < 0.3:
      u[0] = l[0]
    return projection.projection_box, (jnp.asarray(l), jnp.asarray(u)), [l, u]
  if kind == "non_negative":
    return projection.projection_non_negative, None, []
  rad = float(r.choice([0.3, 1.0, 2.0]))
  return getattr(projection, "projection_" + kind), rad, [[rad]]


def pg(kind, seed):
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed * 13 + sum(map(ord, kind)))
  n = 3
  out = []
  for mode in ("ls", "fixed", "callable"):
    for acc in (False, True):
      aux = bool(r.randint(2))
      vg = bool(r.randint(2)) and not aux
      factor = float(r.choice([0.5, 0.8, 0.3]))
      maxls = int(r.choice([2, 6, 15]))
      base_ = (lambda x, o: (fun(x, o), auxf(x))) if aux else fun
      f = jax.value_and_grad(base_, has_aux=aux) if vg else base_
      step = dict(ls=0.0, fixed=0.15)[mode] if mode != "callable" else (lambda k: 0.3 / jnp.sqrt(k + 1.0))
      pf, _, _ = hyper(kind, r, n)
      cls, pk = jaxopt.ProximalGradient, dict(prox=pf)
      if kind in ("box", "simplex", "l2_ball", "non_negative", "l1_ball"):
        cls, pk = jaxopt.ProjectedGradient, dict(projection=pf)
      if kind == "none":
        cls, pk = jaxopt.GradientDescent, {}
      # negative step sizes mean line search as well
      if mode == "ls" and r.rand() < 0.5:
        step = -1.0
      sol = cls(fun=f, stepsize=step, acceleration=acc, has_aux=aux, value_and_grad=vg, decrease_factor=factor, maxls=maxls, **pk)
      upd = jax.jit(sol.update)
      for rep in range(2):
        o = smooth(r, n, float(r.choice([0.0, 1.0])), float(r.choice([0.3, 1.0, 30.0])))
        _, hp, p = hyper(kind, r, n)
        x = jnp.asarray(r.randn(n) * float(r.choice([0.3, 2.0])))
        args = (o,) if kind == "none" else (hp, o)
        tr = dict(id=f"pg:{kind}:{mode}{'-acc' if acc else ''}#{seed}.{rep}", kind="pg", o=spec_o(o, kind, p), acc=acc, ls=mode == "ls",
                  factor=num(factor), maxls=maxls, steps=[])
        st = None
        for k in range(6):
          s = dict(exc="")
          if k == 0:
            st, s["exc"] = guarded(sol.init_state, x, *args)
          else:
            res, s["exc"] = guarded(upd, x, st, *args)
            if not s["exc"]:
              x, st = res
          if s["exc"]:
            tr["steps"].append(s)
            break
          y = st.velocity if acc else None
          s.update(x=vec(x), y=vec(y) if acc else [], t=num(st.t), s=num(st.stepsize), error=num(st.error), iter_num=int(st.iter_num),
                   aux=flat(st.aux), auxx=flat(auxf(x)) if aux else [], auxy=flat(auxf(y)) if aux and acc else [],
                   fixed=num(0.15 if mode == "fixed" else 0.3 / onp.sqrt(k)) if k and mode != "ls" else "0")
          if onp.max(onp.abs(fvec(x))) > 1e5:     # a fixed step can diverge
            break
          tr["steps"].append(s)
        out.append(tr)
  return out


def md(seed):
  import jax, jax.numpy as jnp, jaxopt
  from jaxopt import projection
  r = onp.random.RandomState(seed + 500)
  n = 3
  out = []
  for mp_ in ("kl", "euclid"):
    for mode in ("fixed", "callable"):
      aux = bool(r.randint(2))
      f = (lambda x, o: (fun(x, o), auxf(x))) if aux else fun
      step = 0.4 if mode == "fixed" else (lambda k: 0.5 / (k + 1.0))
      if mp_ == "kl":
        pg_ = jaxopt.MirrorDescent.make_projection_grad(lambda z, _: jax.nn.softmax(z), jnp.log)
      else:
        pg_ = jaxopt.MirrorDescent.make_projection_grad(projection.projection_simplex, lambda x: x)
      sol = jaxopt.MirrorDescent(fun=f, projection_grad=pg_, stepsize=step, has_aux=aux)
      upd = jax.jit(sol.update)
      for rep in range(3):
        o = smooth(r, n, 1.0)
        x = r.rand(n) + 0.05
        x = jnp.asarray(x / x.sum())
        hp = None if mp_ == "kl" else 1.0
        tr = dict(id=f"md:{mp_}:{mode}#{seed}.{rep}", kind="md", map=mp_, o=spec_o(o, "simplex", [[1.0]]), steps=[])
        for k in range(5):
          s = dict(exc="")
          if k == 0:
            st, s["exc"] = guarded(sol.init_state, x, hp, o)
          else:
            res, s["exc"] = guarded(upd, x, st, hp, o)
            if not s["exc"]:
              x, st = res
          if s["exc"]:
            tr["steps"].append(s)
            break
          s.update(x=vec(x), error=num(st.error), iter_num=int(st.iter_num), aux=flat(st.aux), auxx=flat(auxf(x)) if aux else [],
                   fixed=num(0.4 if mode == "fixed" else 0.5 / max(k, 1)))
          tr["steps"].append(s)
        out.append(tr)
  return out


def cd(seed):
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed + 900)
  out = []
  sol = jaxopt.BoxCDQP()
  upd = jax.jit(sol.update)
  for rep in range(24):
    n = 3 + rep % 2
    o = smooth(r, n, 0.0, 1.0 if rep % 3 else 10.0)
    l, u = -r.rand(n) * 0.7, r.rand(n) * 0.7
    if rep % 3 == 1:
      u[1] = l[1]
    if rep % 4 == 2:
      l = onp.where(onp.diag(o["Q"]) > 0, -onp.inf, l)
    if rep % 4 == 3:
      u = onp.where(onp.diag(o["Q"]) > 0, onp.inf, u)
    x = jnp.asarray(onp.clip(r.randn(n), l, u) if rep % 2 else r.randn(n))
    args = ((jnp.asarray(o["Q"]), jnp.asarray(o["c"])), (jnp.asarray(l), jnp.asarray(u)))
    so = spec_o(o)
    so.update(l=vec(l), u=vec(u))
    tr = dict(id=f"cd#{seed}.{rep}", site="cd", kind="cd", o=so, steps=[])
    for k in range(4):
      s = dict(exc="")
      if k == 0:
        st, s["exc"] = guarded(sol.init_state, x, *args)
      else:
        res, s["exc"] = guarded(upd, x, st, *args)
        if not s["exc"]:
          x, st = res
      if s["exc"]:
        tr["steps"].append(s)
        break
      s.update(x=vec(x), error=num(st.error), iter_num=int(st.iter_num))
      tr["steps"].append(s)
    out.append(tr)
  return out


def bcd(kind, seed):
  import jax, jax.numpy as jnp, jaxopt
  from jaxopt import objective, prox, projection
  r = onp.random.RandomState(seed + sum(map(ord, kind)))
  out = []
  n, d, k = 5, 3, 3
  obj = dict(least_squares=objective.least_squares, multitask=objective.least_squares, binary_logreg=objective.binary_logreg,
             multiclass_logreg=objective.multiclass_logreg, svm_dual=objective.multiclass_linear_svm_dual)[kind]
  for px in (("lasso", "none", "ridge") if kind in ("least_squares", "binary_logreg") else ("simplex",) if kind == "svm_dual" else ("group", "lasso")):
    fn = dict(lasso=prox.prox_lasso, none=prox.prox_none, ridge=prox.prox_ridge, group=prox.prox_group_lasso,
              simplex=prox.make_prox_from_projection(projection.projection_simplex))[px]
    sol = jaxopt.BlockCoordinateDescent(fun=obj, block_prox=fn)
    upd = jax.jit(sol.update)
    for rep in range(2):
      X = r.randn(n, d)
      k_ = 1 if kind in ("least_squares", "binary_logreg") else k
      lam = float(r.choice([0.05, 0.3]))
      so = dict(kind=kind if kind != "multitask" else "least_squares", prox=px, b=[], l2="1", Q=[], c=[], q=[])
      pen = dict(lasso=lambda w: lam * onp.abs(w).sum(), none=lambda w: 0.0, ridge=lambda w: 0.5 * lam * (w ** 2).sum(),
                 group=lambda w: lam * onp.linalg.norm(w, axis=1).sum(), simplex=lambda w: 0.0)[px]
      hp = dict(none=None, simplex=1.0).get(px, lam)
      width = k_
      so["p"] = [[]] if px == "none" else [vec([1.0])] if px == "simplex" else [vec(onp.full(width, lam))]
      if px == "none":
        so["p"] = []
      if kind == "svm_dual":
        l2 = float(r.choice([0.5, 2.0]))
        Y = onp.eye(k)[r.randint(k, size=n)]
        args = (hp, l2, (jnp.asarray(X), jnp.asarray(Y)))
        x = jnp.asarray(onp.full((n, k), 1.0 / k))
        so.update(X=mat(X.T), y=mat(X.T @ Y), l2=num(l2), b=mat(Y - 1.0))
        L = onp.asarray(obj.columnwise_lipschitz_const(l2, (X, Y)))
        total = lambda w: float(obj(jnp.asarray(w), l2, (X, Y)))
      else:
        y = r.randn(n) if kind == "least_squares" else r.randn(n, k) if kind == "multitask" else r.randint(2 if kind == "binary_logreg" else k, size=n)
        args = (hp, (jnp.asarray(X), jnp.asarray(y)))
        x = jnp.asarray(r.randn(d) if k_ == 1 else r.randn(d, k))
        so.update(X=mat(X), y=mat(onp.asarray(y, float).reshape(n, -1)))
        L = onp.asarray(obj.columnwise_lipschitz_const((X, y)))
        total = lambda w: float(obj(jnp.asarray(w), (X, y)))
      so["L"] = vec(L)
      tr = dict(id=f"bcd:{kind}:{px}#{seed}.{rep}", kind="bcd", k=k_, o=so, steps=[])
      for i in range(4):
        s = dict(exc="", i=i + 1)
        if i == 0:
          st, s["exc"] = guarded(sol.init_state, x, *args)
        else:
          res, s["exc"] = guarded(upd, x, st, *args)
          if not s["exc"]:
            x, st = res
        if s["exc"]:
          tr["steps"].append(s)
          break
        w = onp.asarray(x)
        s.update(x=vec(w), pred=vec(st.predictions), sub=vec(st.subfun_g), error=num(st.error), iter_num=int(st.iter_num),
                 total=num(total(w) + pen(w if w.ndim == 2 else w[:, None])))
        tr["steps"].append(s)
      out.append(tr)
  return out


def cg(linesearch, method, seed):
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed + sum(map(ord, linesearch + method)))
  out = []
  n = 3
  strategy = ["increase", "max", "current"][r.randint(3)]
  cfg = dict(max_stepsize=float(r.choice([1.0, 5.0])), increase_factor=float(r.choice([1.2, 2.0])))
  sol = jaxopt.NonlinearCG(fun=fun, method=method, linesearch=linesearch, linesearch_init=strategy, maxls=20, **cfg)
  upd = jax.jit(sol.update)
  for rep in range(6):
    out.append(cg_trace(sol, upd, r, n, linesearch, method, strategy, cfg, f"cg:{linesearch}:{method}#{seed}.{rep}", 6, []))
  return out


def cg_trace(sol, upd, r, n, linesearch, method, strategy, cfg, tid, K, log):
  import jax.numpy as jnp
  o = smooth(r, n, float(r.choice([0.0, 1.0])), float(r.choice([0.3, 3.0])))
  o["Q"] = o["Q"] + 0.1 * onp.eye(n)
  x = jnp.asarray(r.randn(n) * 2)
  tr = dict(id=tid, kind="cg", o=spec_o(o), method=method, linesearch=linesearch, strategy=strategy, maxs=num(cfg["max_stepsize"]),
            mins=num(1e-6), inc=num(cfg["increase_factor"]), steps=[])
  for k in range(K):
    s = dict(exc="", first=[], failed=False)
    del log[:]
    if k == 0:
      st, s["exc"] = guarded(sol.init_state, x, o)
    else:
      old = st
      res, s["exc"] = guarded(upd, x, st, o)
      if not s["exc"]:
        x, st = res
    if s["exc"]:
      tr["steps"].append(s)
      break
    if k and log:
      pts = [p for p in log if onp.max(onp.abs(p - last)) > 0]
      s["first"] = vec(pts[0]) if pts else []
    # an increase is only legitimate when the search was exhausted (counted by its iterations)
    its = int(st.num_linesearch_iter) - (int(old.num_linesearch_iter) if k else 0)
    s["failed"] = its >= sol.maxls - 1
    s.update(x=vec(x), d=vec(st.descent_direction), s=num(st.stepsize), value=num(st.value), grad=vec(st.grad), error=num(st.error),
             iter_num=int(st.iter_num))
    last = onp.asarray(x)
    tr["steps"].append(s)
    if float(st.error) < 1e-5:
      break
  return tr


def cg_eager(seed):
  """Uncompiled: the first trial point of every line search is observed."""
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed + 77)
  log = []
  vgf = jax.value_and_grad(fun)

  def spy(x, o):
    if not isinstance(x, jax.core.Tracer):
      log.append(onp.asarray(x))
    return vgf(x, o)
  out = []
  for strategy in ("increase", "max", "current"):
    for linesearch in ("zoom", "backtracking"):
      cfg = dict(max_stepsize=2.0, increase_factor=1.5)
      sol = jaxopt.NonlinearCG(fun=spy, value_and_grad=True, linesearch=linesearch, linesearch_init=strategy, maxls=20, jit=False, unroll=True, **cfg)
      out.append(cg_trace(sol, sol.update, r, 3, linesearch, "polak-ribiere", strategy, cfg, f"cg-eager:{linesearch}:{strategy}#{seed}", 4, log))
  return out
