"""C03: reported value, gradient, aux, residual and error belong to the returned parameters."""
import numpy as onp
from common import *
from lines import rflat
from c26 import fun, smooth, spec_o, hyper
from c07 import objective
from c08 import shape, TREES, root_problem

DESIGN = [("MCReport", "MCReport.cfg")]
TRACE = "TraceReport"
ASSUMPTIONS = ["float64; quadratic-plus-quartic objectives (convex and indefinite) in 3 variables; error measures are compared relative to the size of the summed terms"]


def jobs(ctx):
  J = []
  for j in range(1 if ctx.quick else 6):
    sd = ctx.seed + 41 * j
    J += [("minim", (s, ls, sd)) for s in ("LBFGS", "BFGS", "NonlinearCG", "LBFGSB") for ls in ("zoom", "backtracking", "hager-zhang")]
    J += [("minim", (s, "fixed", sd)) for s in ("LBFGS", "BFGS", "LBFGSB")]
    J += [("pg", (sd,)), ("fixed_point", (sd,)), ("roots", (sd,))]
    # solvers whose update specification states the reported quantities
    J += [("borrow", ("c25", "lm", (p, sd, m, True))) for p, m in (("rosen", "mat"), ("tanh", "op"), ("valley", "mat"))]
    J += [("borrow", ("c25", "gn", (sd, 0))), ("borrow", ("c26", "cd", (sd,))), ("borrow", ("c26", "md", (sd,))),
          ("borrow", ("c26", "pg", ("lasso", sd))), ("borrow", ("c26", "bcd", ("least_squares", sd))),
          ("borrow", ("c18", "real", (sd, 0))), ("borrow", ("c21", "refine", (sd, 0)))]
  return J


def aux_of(v):
  import jax.numpy as jnp
  return dict(a=v + 1.0, b=jnp.sum(v ** 2))


def step(x, st, done=False, init=False, exc="", value=None):
  s = dict(exc=exc, done=done, init=init)
  if not exc:
    g = getattr(st, "grad", None)
    v = getattr(st, "value", None) if value is None else value
    s.update(x=vec(rflat(x)), value=(num(v) if onp.ndim(v) == 0 else vec(rflat(v))) if v is not None and not isinstance(v, (dict, tuple)) else vec(rflat(v)) if v is not None else "0",
             grad=vec(rflat(g)) if g is not None else [], aux=flat(st.aux) if getattr(st, "aux", None) is not None else [], error=num(st.error))
  return s


def minim(solver, ls, seed):
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed * 5 + sum(map(ord, solver + ls)))
  out = []
  cls = getattr(jaxopt, solver)
  for rep in range(1 if ls == "hager-zhang" else 2):
    tree = TREES[r.randint(3)]
    aux = bool(r.randint(2))
    vg = [False, True][r.randint(2)]
    _, flat_ = shape(tree, onp.zeros(3))
    plain = lambda t, o: (fun(flat_(t), o), aux_of(flat_(t))) if aux else fun(flat_(t), o)
    f = jax.value_and_grad(plain, has_aux=aux) if vg else plain
    cfg = dict(stepsize=0.2) if ls == "fixed" else dict(linesearch=ls, maxls=int(r.choice([1, 2, 20])), max_stepsize=float(r.choice([1.0, 5.0])),
                                                        linesearch_init=str(r.choice(["increase", "max", "current"])))
    if solver == "LBFGSB" and "max_stepsize" in cfg:
      cfg["max_stepsize"] = 1.0
    if solver in ("LBFGS", "LBFGSB"):
      cfg["history_size"] = int(r.choice([1, 4]))
    tol = float(r.choice([1e-1, 1e-2, 1e-4]))
    sol = cls(fun=f, has_aux=aux, value_and_grad=vg, tol=tol, maxiter=int(r.choice([2, 7, 40])), **cfg)
    upd, run = jax.jit(sol.update), jax.jit(sol.run)
    for k2, kind in enumerate(("quartic", "indefinite", "quadratic")):
      o = objective(r, 3, kind)
      x0 = r.randn(3) * 2
      l = u = onp.zeros(3)
      args = (o,)
      if solver == "LBFGSB":
        l, u = -0.4 - r.rand(3), 0.4 + r.rand(3)
        if r.rand() < 0.3:
          l[0], u[1] = -onp.inf, onp.inf
        x0 = onp.clip(x0, l, u)
        args = ((shape(tree, l)[0], shape(tree, u)[0]), o)
      x, _ = shape(tree, x0)
      start = x
      tr = dict(id=f"{solver}:{ls}#{seed}.{rep}.{k2}", kind="box" if solver == "LBFGSB" else "smooth", o=spec_o(o), aux=aux, tol=num(tol), l=vec(l), u=vec(u), steps=[])
      for k in range(4):
        if k == 0:
          st, exc = guarded(sol.init_state, x, *args)
        else:
          res, exc = guarded(upd, x, st, *args)
          if not exc:
            x, st = res
        if not exc and not onp.all(onp.abs(rflat(x)) < 1e3):
          break
        tr["steps"].append(step(x, None if exc else st, init=k == 0, exc=exc))
        if exc:
          break
      res, exc = guarded(run, start, *args)
      if exc or onp.all(onp.abs(rflat(res[0])) < 1e3):
        tr["steps"].append(step(None if exc else res[0], None if exc else res[1], done=True, exc=exc, init=False))
      out.append(tr)
  return out


def pg(seed):
  import jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed + 19)
  out = []
  for kind in ("none", "lasso", "box", "simplex", "enet"):
    pf, _, _ = hyper(kind, r, 3)
    if kind == "none":
      mk = lambda **kw: jaxopt.GradientDescent(fun=fun, **kw)
    elif kind in ("box", "simplex"):
      mk = lambda **kw: jaxopt.ProjectedGradient(fun=fun, projection=pf, **kw)
    else:
      mk = lambda **kw: jaxopt.ProximalGradient(fun=fun, prox=pf, **kw)
    for rep in range(2):
      o = smooth(r, 3, 0.0)
      o["Q"] = o["Q"] + 0.3 * onp.eye(3)
      s = 1.0 / onp.linalg.eigvalsh(o["Q"]).max()
      _, hp, p = hyper(kind, r, 3)
      tol = float(r.choice([1e-1, 1e-3, 1e-5]))
      sol = mk(stepsize=s, acceleration=False, tol=tol, maxiter=300)
      x = jnp.asarray(r.randn(3) * 2)
      res, exc = guarded(sol.run, x, *((o,) if kind == "none" else (hp, o)))
      out.append(dict(id=f"pg:{kind}#{seed}.{rep}", kind="pg", o=spec_o(o, kind, p), s=num(s), tol=num(tol),
                      steps=[step(None if exc else res[0], None if exc else res[1], done=True, exc=exc)]))
  return out


def fixed_point(seed):
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed + 23)
  out = []
  for rep in range(4):
    aux = bool(rep % 2)
    A = r.randn(3, 3)
    A = 0.8 * A / onp.linalg.norm(A, 2)
    b = r.randn(3)
    T = (lambda x, A, b: (A @ x + b, aux_of(x))) if aux else (lambda x, A, b: A @ x + b)
    tol = float(r.choice([1e-1, 1e-4]))
    sol = jaxopt.FixedPointIteration(fixed_point_fun=T, has_aux=aux, tol=tol, maxiter=int(r.choice([3, 200])))
    x = jnp.asarray(r.randn(3))
    tr = dict(id=f"fixed_point#{seed}.{rep}", kind="fp", aux=aux, tol=num(tol), A=mat(A), b=vec(b), steps=[])
    start = x
    for k in range(4):
      if k == 0:
        st, exc = guarded(sol.init_state, x, A, b)
      else:
        res, exc = guarded(sol.update, x, st, A, b)
        if not exc:
          x, st = res
      tr["steps"].append(step(x, None if exc else st, init=k == 0, exc=exc))
      if exc:
        break
    res, exc = guarded(sol.run, start, A, b)
    tr["steps"].append(step(None if exc else res[0], None if exc else res[1], done=True, exc=exc))
    out.append(tr)
  return out


def roots(seed):
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed + 29)
  out = []
  for ls in ("ls", "fixed"):
    for aux in (False, True):
      def res_(v, o):
        w = o["Q"] @ v - o["c"] + o["q"] * v ** 3
        return (w, aux_of(v)) if aux else w
      tol = float(r.choice([1e-1, 1e-4]))
      sol = jaxopt.Broyden(fun=res_, has_aux=aux, tol=tol, stepsize=0.7 if ls == "fixed" else 0.0, maxls=int(r.choice([1, 15])), maxiter=int(r.choice([2, 40])))
      upd, run = jax.jit(sol.update), jax.jit(sol.run)
      for rep in range(2):
        o = root_problem(r, 3)
        x = jnp.asarray(r.randn(3))
        start = x
        tr = dict(id=f"broyden:{ls}{':aux' if aux else ''}#{seed}.{rep}", kind="root", o=spec_o(o), aux=aux, tol=num(tol), steps=[])
        for k in range(4):
          if k == 0:
            st, exc = guarded(sol.init_state, x, o)
          else:
            res, exc = guarded(upd, x, st, o)
            if not exc:
              x, st = res
          if not exc and not onp.all(onp.abs(rflat(x)) < 1e3):
            break
          tr["steps"].append(step(x, None if exc else st, init=k == 0, exc=exc))
          if exc:
            break
        res, exc = guarded(run, start, o)
        if exc or onp.all(onp.abs(rflat(res[0])) < 1e3):
          tr["steps"].append(step(None if exc else res[0], None if exc else res[1], done=True, exc=exc))
        out.append(tr)
  return out
