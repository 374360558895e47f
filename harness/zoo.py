"""The solver zoo: small problems and one factory per iterative solver variant.

Only the public API of jaxopt is used.  Every entry knows how to build the
solver (any field may be overridden), its initial parameters and the arguments
its run/init_state/update take.  All data derives from the seed passed in.
"""
import dataclasses
from typing import Any, Callable

import numpy as onp


@dataclasses.dataclass
class Entry:
  name: str
  make: Callable           # make(**overrides) -> solver
  init: Any                # initial parameters
  args: tuple = ()         # positional arguments of run/init_state/update
  kwargs: dict = dataclasses.field(default_factory=dict)
  tol: float = 1e-6
  maxiter: int = 8
  tags: frozenset = frozenset()
  fields: frozenset = frozenset()
  x64: bool = True

  def has(self, tag):
    return tag in self.tags


def data(seed, n=6, d=3):
  r = onp.random.RandomState(seed)
  X = r.randn(n, d)
  w = r.randn(d)
  y = X @ w + 0.3 * r.randn(n)
  return X, y


def build(seed=0, only=None, dtype=None):
  """Returns the list of zoo entries (names are stable)."""
  import jax
  import jax.numpy as jnp
  import jaxopt
  from jaxopt import projection, prox, objective
  import optax

  r = onp.random.RandomState(1000 + seed)
  d = 3
  dt = dtype or jnp.float64
  A_ = lambda x: jnp.asarray(x, dt)
  X, y = data(seed, 6, d)
  X, y = A_(X), A_(y)
  x0 = A_(r.randn(d))
  Q = r.randn(d, d)
  Q = A_(Q @ Q.T + 0.5 * onp.eye(d))
  c = A_(r.randn(d))

  # smooth, strongly convex, not quadratic
  def fun(w, l2, data):
    Xd, yd = data
    z = Xd @ w - yd
    return jnp.mean(jnp.sqrt(1.0 + z ** 2)) + 0.5 * l2 * jnp.sum(w ** 2)

  def ls(w, data):
    Xd, yd = data
    return 0.5 * jnp.mean((Xd @ w - yd) ** 2)

  def rosen(w, a):
    return jnp.sum(5.0 * (w[1:] - w[:-1] ** 2) ** 2 + (a - w[:-1]) ** 2)

  def root(w, a):
    return Q @ w + 0.1 * jnp.sin(w) - a * c

  def contraction(w, a):
    return 0.4 * jnp.tanh(Q @ w / 4.0) + 0.3 * jnp.cos(w) + a * c

  def resid(w, data):
    Xd, yd = data
    return jnp.tanh(Xd @ w) - yd * 0.3

  def cubic(x, a):
    return x ** 3 + 2.0 * x - a

  l2 = A_(0.1)
  dat = (X, y)
  bounds = (A_(onp.array([-0.2, -0.1, -0.3])), A_(onp.array([0.3, 0.4, 0.2])))
  # a larger bounded problem on which some bounds stay inactive
  X5, y5 = data(seed + 50, 9, 5)
  dat5 = (A_(X5), A_(y5))
  lo5 = -0.15 - 0.8 * r.rand(5)
  hi5 = 0.15 + 0.8 * r.rand(5)
  bounds5 = (A_(lo5), A_(hi5))
  x5 = A_(onp.clip(r.randn(5), lo5, hi5))
  E = []

  def add(name, cls, base, init, args=(), kwargs=None, tol=1e-6, maxiter=8, tags=()):
    if only is not None and not only(name):
      return
    def make(**over):
      kw = dict(base)
      kw.update(over)
      return cls(**kw)
    fields = frozenset(f.name for f in dataclasses.fields(cls))
    E.append(Entry(name, make, init, tuple(args), kwargs or {}, tol, maxiter,
                   frozenset(tags), fields))

  # gradient-based
  for acc in (False, True):
    for st in (0.0, 0.2):
      t = f"{'acc' if acc else 'plain'}-{'ls' if st == 0.0 else 'fixed'}"
      add(f"GradientDescent-{t}", jaxopt.GradientDescent,
          dict(fun=fun, acceleration=acc, stepsize=st), x0, (l2, dat), tags=("fun", "vg", "aux"))
      add(f"ProximalGradient-{t}", jaxopt.ProximalGradient,
          dict(fun=ls, prox=prox.prox_lasso, acceleration=acc, stepsize=st), x0, (A_(0.05), dat),
          tags=("fun", "vg", "aux", "hyper"))
      add(f"ProjectedGradient-{t}", jaxopt.ProjectedGradient,
          dict(fun=ls, projection=projection.projection_box, acceleration=acc, stepsize=st),
          x0, (bounds, dat), tags=("fun", "vg", "aux", "hyper"))
  for lsname in ("zoom", "backtracking", "hager-zhang"):
    add(f"BFGS-{lsname}", jaxopt.BFGS, dict(fun=fun, linesearch=lsname), x0, (l2, dat),
        tags=("fun", "vg", "aux", "count", "ls"))
    add(f"LBFGS-{lsname}", jaxopt.LBFGS, dict(fun=fun, linesearch=lsname, history_size=3), x0, (l2, dat),
        tags=("fun", "vg", "aux", "count", "warm", "ls", "stopls"))
    add(f"NonlinearCG-{lsname}", jaxopt.NonlinearCG, dict(fun=fun, linesearch=lsname), x0, (l2, dat),
        tags=("fun", "vg", "aux", "ls"))
    if lsname != "hager-zhang":
      add(f"LBFGSB-{lsname}", jaxopt.LBFGSB, dict(fun=fun, linesearch=lsname, history_size=3),
          x5, (bounds5, l2, dat5), tags=("fun", "vg", "aux", "count", "warm", "ls", "stopls", "box"), maxiter=6)
  add("LBFGS-rosen", jaxopt.LBFGS, dict(fun=rosen, history_size=4), x0, (A_(1.0),),
      tags=("fun", "vg", "aux", "count", "warm", "ls", "stopls"), maxiter=12)
  add("BFGS-rosen", jaxopt.BFGS, dict(fun=rosen), x0, (A_(1.0),),
      tags=("fun", "vg", "aux", "count", "ls"), maxiter=12)
  add("BFGS-fixed", jaxopt.BFGS, dict(fun=fun, stepsize=0.3), x0, (l2, dat), tags=("fun", "vg", "aux", "count"))
  add("LBFGS-fixed", jaxopt.LBFGS, dict(fun=fun, stepsize=0.3, history_size=3), x0, (l2, dat),
      tags=("fun", "vg", "aux", "count", "warm", "stopls"))
  add("LBFGS-nogamma", jaxopt.LBFGS, dict(fun=fun, use_gamma=False, history_size=3), x0, (l2, dat),
      tags=("fun", "vg", "aux", "count", "warm", "ls", "stopls"))
  add("LBFGSB-fixed", jaxopt.LBFGSB, dict(fun=fun, stepsize=0.3, history_size=3), x0, (bounds, l2, dat),
      tags=("fun", "vg", "aux", "count", "warm", "stopls", "box"))
  for m in ("fletcher-reeves", "hestenes-stiefel"):
    add(f"NonlinearCG-{m}", jaxopt.NonlinearCG, dict(fun=fun, method=m), x0, (l2, dat),
        tags=("fun", "vg", "aux", "ls"))
  add("MirrorDescent", jaxopt.MirrorDescent,
      dict(fun=ls, projection_grad=None, stepsize=0.3), A_(onp.ones(d) / d), (None, dat),
      tags=("fun", "aux", "hyper", "md"), tol=1e-4)
  # BlockCD
  if only is None or only("BlockCD"):
    def mk_bcd(**over):
      kw = dict(fun=objective.least_squares, block_prox=prox.prox_lasso)
      kw.update(over)
      return jaxopt.BlockCoordinateDescent(**kw)
    E.append(Entry("BlockCD", mk_bcd, x0, (A_(0.05), dat), {}, 1e-6, 8, frozenset(("hyper",)),
                   frozenset(f.name for f in dataclasses.fields(jaxopt.BlockCoordinateDescent))))
  # root / fixed point
  add("Broyden-backtracking", jaxopt.Broyden, dict(fun=root, history_size=6), x0, (A_(0.7),),
      tags=("rootfun", "aux", "count", "warm", "ls", "stopls"))
  add("Broyden-fixed", jaxopt.Broyden, dict(fun=root, stepsize=0.5, history_size=3), x0, (A_(0.7),),
      tags=("rootfun", "aux", "count", "warm", "stopls"))
  add("Bisection", jaxopt.Bisection, dict(optimality_fun=cubic, lower=-2.0, upper=3.0), None, (A_(1.3),),
      tags=("rootfun", "aux", "count", "bis"))
  add("FixedPoint", jaxopt.FixedPointIteration, dict(fixed_point_fun=contraction), x0, (A_(0.3),),
      tags=("fpfun", "aux", "count"))
  add("Anderson", jaxopt.AndersonAcceleration, dict(fixed_point_fun=contraction, history_size=3), x0, (A_(0.3),),
      tags=("fpfun", "aux", "count"))
  add("Anderson-mix", jaxopt.AndersonAcceleration,
      dict(fixed_point_fun=contraction, history_size=2, mixing_frequency=3, beta=0.7), x0, (A_(0.3),),
      tags=("fpfun", "aux", "count"))
  if only is None or only("AndersonWrapper"):
    def mk_aw(**over):
      inner = dict(fun=fun, acceleration=False, stepsize=0.2)
      for k in ("maxiter", "tol", "has_aux", "fun"):
        if k in over:
          inner[k] = over.pop(k)
      if "jit" in over:
        inner["jit"] = over["jit"]
        inner["unroll"] = over.get("unroll", "auto")
      return jaxopt.AndersonWrapper(solver=jaxopt.GradientDescent(**inner), history_size=3, **over)
    E.append(Entry("AndersonWrapper", mk_aw, x0, (l2, dat), {}, 1e-6, 8, frozenset(("wrap",)),
                   frozenset(f.name for f in dataclasses.fields(jaxopt.AndersonWrapper)) | {"maxiter", "tol"}))
  # least squares
  add("GaussNewton", jaxopt.GaussNewton, dict(residual_fun=resid), 0.1 * x0, (dat,), tags=("resfun", "aux"), tol=1e-7, maxiter=6)
  for mat in (False, True):
    for geo in (False, True):
      add(f"LM-{'mat' if mat else 'op'}{'-geo' if geo else ''}", jaxopt.LevenbergMarquardt,
          dict(residual_fun=resid, materialize_jac=mat, geodesic=geo, damping_parameter=1e-2), 0.1 * x0, (dat,),
          tags=("resfun", "aux", "lm"), tol=1e-7, maxiter=6)
  add("LM-madsen", jaxopt.LevenbergMarquardt,
      dict(residual_fun=resid, stop_criterion="madsen-nielsen"), 0.1 * x0, (dat,),
      tags=("resfun", "aux", "lm", "madsen"), tol=1e-7, maxiter=6)
  # QP
  lo, hi = bounds
  if only is None or only("BoxOSQP"):
    Aeq = A_(r.randn(2, d))
    lw = A_(onp.array([-0.5, -1.0]))
    up = A_(onp.array([0.4, 0.8]))
    def mk_bosqp(**over):
      return jaxopt.BoxOSQP(**over)
    s0 = jaxopt.BoxOSQP()
    E.append(Entry("BoxOSQP", mk_bosqp, s0.init_params(None, (Q, c), Aeq, (lw, up)),
                   ((Q, c), Aeq, (lw, up)), {}, 1e-5, 60, frozenset(("qp", "osqp")),
                   frozenset(f.name for f in dataclasses.fields(jaxopt.BoxOSQP))))
  add("BoxCDQP", jaxopt.BoxCDQP, {}, A_(onp.zeros(d)), ((Q, c), (lo, hi)), tags=("qp", "cdqp"))
  add("IterativeRefinement", jaxopt.IterativeRefinement, {}, A_(onp.zeros(d)), (Q, c), {}, tol=1e-12, maxiter=5,
      tags=("lin",))
  # stochastic
  kw = dict(l2=l2, data=dat)
  for mom in (0.0, 0.5):
    add(f"PolyakSGD-{'mom' if mom else 'plain'}", jaxopt.PolyakSGD, dict(fun=fun, momentum=mom, max_stepsize=0.5), x0, (), kw,
        tags=("fun", "vg", "aux", "sto"))
    add(f"ArmijoSGD-{'mom' if mom else 'plain'}", jaxopt.ArmijoSGD, dict(fun=fun, momentum=mom), x0, (), kw,
        tags=("fun", "vg", "aux", "sto"))
  add("PolyakSGD-plus", jaxopt.PolyakSGD, dict(fun=fun, variant="SPS+", fun_min=0.1), x0, (), kw,
      tags=("fun", "vg", "aux", "sto"))
  add("ArmijoSGD-goldstein", jaxopt.ArmijoSGD, dict(fun=fun, reset_option="goldstein"), x0, (), kw,
      tags=("fun", "vg", "aux", "sto"))
  add("Optax-sgd", jaxopt.OptaxSolver, dict(fun=fun, opt=optax.sgd(0.2, momentum=0.5)), x0, (), kw,
      tags=("fun", "vg", "aux", "sto"))
  add("Optax-adam", jaxopt.OptaxSolver, dict(fun=fun, opt=optax.adam(0.1)), x0, (), kw,
      tags=("fun", "vg", "aux", "sto"))
  for e in E:
    if e.has("md"):
      pg = jaxopt.MirrorDescent.make_projection_grad(lambda z, _: jax.nn.softmax(z), jnp.log)
      old = e.make
      def make(_old=old, _pg=pg, **over):
        over.setdefault("projection_grad", _pg)
        return _old(**over)
      e.make = make
  return E
