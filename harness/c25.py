"""C25: Gauss-Newton and Levenberg-Marquardt, every step against LeastSq.tla."""
from functools import partial
import numpy as onp
from common import *

DESIGN = [("MCLeastSq", "MCLeastSq.cfg")]
TRACE = "TraceLM"
ASSUMPTIONS = ["float64, 1-3 parameters, 2-5 residuals; acceptance is not judged when the loss change is below 1e-11 relative",
               "the default conjugate gradient inner solver is judged at its own tolerance (1e-5) times the condition number"]
PROBS = ["tanh", "rosen", "expfit", "singular", "log", "powell", "osc", "linear", "zero", "curved", "valley"]


def jobs(ctx):
  m = 1 if ctx.quick else 6
  J = []
  for j in range(m):
    sd = ctx.seed + 31 * j
    for pr in PROBS:
      J.append(("lm", (pr, sd, "mat", ctx.quick)))
      J.append(("lm", (pr, sd, "op", ctx.quick)))
    J += [("gn", (sd, k)) for k in range(2)]
  return J


def problem(name, r):
  """(residual function (x, data) -> vector, data, x0 sampler)."""
  import jax.numpy as jnp
  if name == "tanh":
    X, y = r.randn(5, 3), r.randn(5)
    return lambda x, d: jnp.tanh(d[0] @ x) - d[1], (X, y), lambda: r.randn(3)
  if name == "rosen":
    return lambda x, d: jnp.array([d[0] * (x[1] - x[0] ** 2), 1 - x[0]]), (10.0,), lambda: r.randn(2) * 2
  if name == "expfit":
    t = onp.linspace(0, 2, 5)
    y = 2.0 * onp.exp(-1.3 * t) + 0.3
    return lambda x, d: x[0] * jnp.exp(x[1] * d[0]) + x[2] - d[1], (t, y), lambda: r.randn(3) * 2
  if name == "singular":
    return lambda x, d: jnp.array([x[0] + x[1] - 1, (x[0] + x[1]) ** 2, d[0] * (x[0] + x[1])]), (0.5,), lambda: r.randn(2)
  if name == "log":       # nan at many trial points
    return lambda x, d: jnp.array([jnp.log(x[0]) - d[0], x[1] - jnp.sqrt(x[0]), x[1] * d[0]]), (2.0,), lambda: onp.array([0.05 + 8 * r.rand(), r.randn() * 3])
  if name == "powell":
    return lambda x, d: jnp.array([x[0], 10 * x[0] / (x[0] + d[0]) + 2 * x[1] ** 2]), (0.1,), lambda: r.randn(2) * 2 + 1
  if name == "osc":
    return lambda x, d: jnp.array([jnp.sin(d[0] * x[0]) + x[0], 3 * jnp.cos(d[0] * x[0])]), (5.0,), lambda: r.randn(1) * 2
  if name == "linear":
    A, b = r.randn(4, 2), r.randn(4)
    return lambda x, d: d[0] @ x - d[1], (A, b), lambda: r.randn(2) * 3
  if name == "zero":      # zero residual, overflow far away
    return lambda x, d: jnp.array([jnp.exp(d[0] * x[0]) - 1, x[1] ** 3 + x[0]]), (3.0,), lambda: r.randn(2) * 1.5
  if name == "curved":    # strong curvature: the acceleration test matters
    return lambda x, d: jnp.array([d[0] * x[0] + x[1] ** 2, x[1] + d[0] * x[0] ** 2 - 1, 0.1 * x[0] * x[1]]), (0.3,), lambda: r.randn(2) * 3
  if name == "valley":    # stiff curved valley: the predicted decrease of an accelerated step can be negative
    def start():
      a = r.randn() * 1.5
      return onp.array([a, a * a + r.randn() * r.choice([1e-2, 1e-1])])
    return lambda x, d: jnp.array([d[0] * (x[1] - x[0] ** 2), 1 - x[0]]), (100.0,), lambda: onp.array([-1.44113192, 2.08063047]) if r.rand() < 0.5 else start()
  raise KeyError(name)


def lm_configs(mode):
  import jaxopt
  from jaxopt import linear_solve
  C = []
  if mode == "mat":
    for s in ("cholesky", "lu", "inv", "qr"):
      C += [(s, dict(solver=s, materialize_jac=True, geodesic=g)) for g in (False, True)]
  else:
    C += [("cg", dict(geodesic=False)), ("cg", dict(geodesic=True)),
          ("cgtight", dict(solver=partial(linear_solve.solve_cg, tol=1e-13), geodesic=True)),
          ("lu-op", dict(solver="lu", geodesic=False)), ("cholesky-op", dict(solver="cholesky", geodesic=True))]
  return C


def tidy(x):
  return [] if x is None else mat(x)


def lm(pr, seed, mode, quick):
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed * 7 + sum(map(ord, pr + mode)))
  f, data, sample = problem(pr, r)
  jac = jax.jit(jax.jacfwd(f))
  hes = jax.jit(jax.jacfwd(jax.jacrev(f)))
  fj = jax.jit(f)
  out = []
  C = lm_configs(mode)
  if quick:
    off = (PROBS.index(pr) + seed) % 2
    C = [C[2 * k + (off + k) % 2] for k in range(4)] if mode == "mat" else C[off::2]
  for ci, (cn, cfg) in enumerate(C):
    aux = bool(r.randint(2))
    auxf = lambda x: dict(s=jnp.sum(x ** 2), t=2 * x)
    fun = (lambda x, d: (f(x, d), auxf(x))) if aux else f
    tau = float(r.choice([1e-6, 1e-2, 1.0, 30.0])) if pr != "valley" else 1e-6
    extra = {}
    if mode == "mat" and r.rand() < 0.4:
      extra["jac_fun"] = jax.jacrev(f)
    usekw = bool(r.randint(2))
    args, kw = ((), dict(d=data)) if usekw else ((data,), {})
    sol = jaxopt.LevenbergMarquardt(fun, has_aux=aux, damping_parameter=tau, **cfg, **extra)
    upd = jax.jit(sol.update)
    for rep in range(4):
      x = jnp.asarray(sample())
      if not bool(jnp.all(jnp.isfinite(fj(x, data)))):
        continue
      tr = dict(id=f"lm:{pr}:{cn}{'-geo' if cfg['geodesic'] else ''}#{seed}.{rep}", kind="lm", geo=cfg["geodesic"],
                rtol="1E-5" if cn == "cg" else "1E-10", cond="", steps=[])
      st = None
      conds = []
      for k in range(9):
        s = dict(exc="", k=k, tau=num(tau))
        if k == 0:
          st, s["exc"] = guarded(sol.init_state, x, *args, **kw)
        else:
          res, s["exc"] = guarded(upd, x, st, *args, **kw)
          if not s["exc"]:
            s["rt"] = vec(fj(x + res.state.delta, data))
            x, st = res
        if s["exc"]:
          tr["steps"].append(s)
          break
        J, H, rr = onp.asarray(jac(x, data)), onp.asarray(hes(x, data)), onp.asarray(fj(x, data))
        s.update(p=vec(x), mu=num(st.damping_factor), nu=num(st.increase_factor), residual=vec(st.residual), value=num(st.value),
                 gradient=vec(st.gradient), error=num(st.error), delta=vec(st.delta), iter_num=int(st.iter_num),
                 jac=tidy(st.jac), jt=tidy(st.jt), jtj=tidy(st.jtj),
                 hess=[mat(h) for h in onp.asarray(st.hess_res)] if st.hess_res is not None else [],
                 aux=flat(st.aux), auxwant=flat(auxf(x)) if aux else [],
                 J=mat(J), r=vec(rr), H=[mat(h) for h in H], hesswant=[mat(h) for h in H])
        tr["steps"].append(s)
        M = J.T @ J + float(st.damping_factor) * onp.eye(J.shape[1])
        conds.append(onp.linalg.cond(M))
        if not onp.all(onp.isfinite(onp.asarray(x))) or onp.linalg.norm(J.T @ rr) < 1e-7:
          break
      # solutions of badly conditioned systems are not compared digit by digit
      cmax = max(conds)
      if not tr["steps"][-1]["exc"] and onp.isfinite(cmax) and cmax < (1e3 if cn == "cg" else 1e5):
        tr["cond"] = num(10 * cmax)
      out.append(tr)
  return out


def gn(seed, k):
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed * 11 + k)
  out = []
  for pr in (["tanh", "expfit", "linear", "rosen"] if k == 0 else ["singular", "curved", "tree"]):
    tree = pr == "tree"
    if tree:
      A, b = r.randn(5, 3), r.randn(5)
      f = lambda x, d: jnp.sin(d[0] @ jnp.concatenate([x["a"], x["b"][0].ravel()])) - d[1]
      data, sample = (A, b), lambda: dict(a=jnp.asarray(r.randn(2)), b=(jnp.asarray(r.randn(1, 1)),))
    else:
      f, data, sample = problem(pr, r)
    ravel = lambda x: jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(x)])
    jacv = lambda x: onp.concatenate([onp.asarray(l).reshape(len(f(x, data)), -1) for l in leaves(jax.jacfwd(f)(x, data))], axis=1)
    aux = bool(r.randint(2))
    auxf = lambda x: dict(s=jnp.sum(ravel(x) ** 2), t=2 * ravel(x))
    fun = (lambda x, d: (f(x, d), auxf(x))) if aux else f
    sol = jaxopt.GaussNewton(fun, has_aux=aux)
    upd = jax.jit(sol.update)
    for rep in range(2):
      x = sample() if tree else jnp.asarray(0.5 * sample())
      tr = dict(id=f"gn:{pr}#{seed}.{rep}", kind="gn", steps=[])
      for kk in range(5):
        s = dict(exc="", k=kk)
        if kk == 0:
          st, s["exc"] = guarded(sol.init_state, x, data)
        else:
          res, s["exc"] = guarded(upd, x, st, data)
          if not s["exc"]:
            x, st = res
        if s["exc"]:
          tr["steps"].append(s)
          break
        s.update(p=flat(x), residual=flat(st.residual), value=num(st.value), gradient=flat(st.gradient), error=num(st.error),
                 delta=flat(st.delta), iter_num=int(st.iter_num), aux=flat(st.aux), auxwant=flat(auxf(x)) if aux else [],
                 J=mat(jacv(x)), r=vec(f(x, data)))
        tr["steps"].append(s)
        if not onp.all(onp.isfinite(fvec(x))) or onp.linalg.norm(jacv(x).T @ onp.asarray(f(x, data))) < 1e-8 or onp.max(onp.abs(fvec(x))) > 1e4 \
           or not onp.linalg.cond(jacv(x)) < 1e2 and pr != "singular":
          break
      out.append(tr)
  return out
