"""C15/C29: derivatives of solvers, projections and proximal operators against Sens.tla."""
import functools
import numpy as onp
from common import *
from c14 import shapes

DESIGN = [("MCSens", "MCSens.cfg")]
DESIGN_THOROUGH = [("MCSens", "MCSensLarge.cfg")]
TRACE = "TraceSens"
ASSUMPTIONS = ["float64; objectives of Sens.tla (convex quartics and quadratics, least squares) in 3-4 variables at points of strict complementarity; derivatives compared at the accuracy of the default linear solvers"]
INF = onp.inf


# ------------------------------------------------------------------ problems
def base(r, n, cube=True, s=1):
  M = r.randn(n, n) / onp.sqrt(n)
  return dict(Q=M @ M.T + 0.6 * onp.eye(n), a=r.rand(n) if cube else onp.zeros(n), c=1.5 * r.randn(n), k=float(cube), s=float(s), lo=-INF * onp.ones(n), hi=INF * onp.ones(n), A=onp.zeros((0, n)),
              b=onp.zeros(0), G=onp.zeros((0, n)), h=onp.zeros(0), lam=onp.zeros(n), gam=0.0, grp=0.0, ent=0.0, l1=INF, rad=INF, sphere=False)


def value(x, Q, a, c):
  import jax.numpy as jnp
  return 0.5 * x @ (Q @ x) + 0.25 * jnp.sum(x ** 4) + 0.5 * jnp.sum(a * x ** 2) - c @ x


def slope(x, Q, a, c):
  return Q @ x + x ** 3 + a * x - c


def least(r, n, m):
  """Least-squares data and the problem it defines."""
  X, y = onp.linalg.qr(r.randn(m, n))[0] * onp.sqrt(m) + 0.3 * r.randn(m, n), 2 * r.randn(m)
  p = base(r, n, cube=False)
  p.update(Q=X.T @ X / m, c=X.T @ y / m)
  return X, y, p


# --- sets and penalties: kind -> (changes of p, theta entries, theta -> hyperparams)
def sets(kind, r, n):
  u = lambda *s: r.rand(*s)
  if kind == "box":
    lo, hi = -0.2 - 0.4 * u(n), 0.2 + 0.4 * u(n)
    return dict(lo=lo, hi=hi), dict(lo=lo, hi=hi), lambda t: (t["lo"], t["hi"])
  if kind == "lower":
    lo = -0.3 * u(n)
    return dict(lo=lo), dict(lo=lo), lambda t: (t["lo"], INF * onp.ones(n))
  if kind == "scalarbox":
    return dict(lo=-0.3 * onp.ones(n), hi=0.5 * onp.ones(n)), {}, lambda t: (-0.3, 0.5)
  if kind == "non_negative":
    return dict(lo=onp.zeros(n)), {}, lambda t: None
  if kind == "simplex":
    v = 0.5 + u()
    return dict(lo=onp.zeros(n), A=onp.ones((1, n)), b=onp.array([v])), dict(b=v), lambda t: t["b"]
  if kind == "hypercube":
    v = 0.4 + u()
    return dict(lo=onp.zeros(n), hi=v * onp.ones(n)), dict(hisum=v), lambda t: t["hisum"]
  if kind in ("l2_ball", "l2_sphere"):
    v = 0.3 + u()
    return dict(rad=v, sphere=kind == "l2_sphere"), dict(rad=v), lambda t: t["rad"]
  if kind in ("l1_ball", "l1_sphere"):
    v = 0.4 + u()
    return dict(l1=v, sphere=kind == "l1_sphere"), dict(l1=v), lambda t: t["l1"]
  if kind == "linf_ball":
    v = 0.2 + 0.5 * u()
    return dict(lo=-v * onp.ones(n), hi=v * onp.ones(n)), dict(linf=v), lambda t: t["linf"]
  if kind == "hyperplane":
    A, b = r.randn(1, n), r.randn(1)
    return dict(A=A, b=b), dict(A=A, b=b), lambda t: (t["A"][0], t["b"][0])
  if kind == "halfspace":
    G, h = r.randn(1, n), r.randn(1) - 0.7
    return dict(G=G, h=h), dict(G=G, h=h), lambda t: (t["G"][0], t["h"][0])
  if kind == "affine_set":
    A, b = r.randn(2, n), r.randn(2)
    return dict(A=A, b=b), dict(A=A, b=b), lambda t: (t["A"], t["b"])
  if kind == "polyhedron":
    A, x = r.randn(1, n), r.randn(n)
    b = A @ x
    G = r.randn(2, n)
    h = G @ x + 0.3 * u(2)
    return dict(A=A, b=b, G=G, h=h), dict(A=A, b=b, G=G, h=h), lambda t: (t["A"], t["b"], t["G"], t["h"])
  if kind == "box_section":
    lo, hi, w = -0.5 - u(n), 0.5 + u(n), 0.3 + u(n)
    b = onp.array([w @ (lo + (hi - lo) * (0.3 + 0.4 * u(n)))])
    return dict(lo=lo, hi=hi, A=w[None], b=b), dict(lo=lo, hi=hi, A=w[None], b=b), lambda t: (t["lo"], t["hi"], t["A"][0], t["b"][0])
  if kind == "none":
    return {}, {}, lambda t: None
  if kind == "lasso":
    v = 0.2 + 0.5 * u()
    return dict(lam=v * onp.ones(n)), dict(lamsum=v), lambda t: t["lamsum"]
  if kind == "lasso_each":
    v = 0.1 + 0.6 * u(n)
    return dict(lam=v), dict(lam=v), lambda t: t["lam"]
  if kind == "elastic_net":
    v, g = 0.2 + 0.5 * u(), 0.3 + u()
    return dict(lam=v * onp.ones(n), gam=g), dict(lamsum=v, gam=g), lambda t: (t["lamsum"], t["gam"])
  if kind == "non_negative_lasso":
    v = 0.2 + 0.5 * u()
    return dict(lam=v * onp.ones(n), lo=onp.zeros(n)), dict(lamsum=v), lambda t: t["lamsum"]
  if kind == "group_lasso":
    v = (1.0 if r.randint(2) else 4.0) * (0.3 + u())
    return dict(grp=v), dict(grp=v), lambda t: t["grp"]
  if kind in ("ridge", "non_negative_ridge"):
    v = 0.3 + u()
    return dict(a=v * onp.ones(n), **({"lo": onp.zeros(n)} if kind != "ridge" else {})), dict(asum=v), lambda t: t["asum"]
  raise ValueError(kind)


PROJ = ("box", "lower", "scalarbox", "non_negative", "simplex", "hypercube", "l2_ball", "l1_ball", "linf_ball", "hyperplane", "halfspace", "affine_set", "polyhedron", "box_section")
SPHERES = ("l1_sphere", "l2_sphere")
PROX = ("none", "lasso", "lasso_each", "elastic_net", "non_negative_lasso", "ridge", "non_negative_ridge", "group_lasso")


def operator(kind):
  from jaxopt import projection, prox
  if kind == "polyhedron":
    return functools.partial(projection.projection_polyhedron, check_feasible=False)
  if kind in PROX:
    return getattr(prox, "prox_" + kind.replace("_each", ""))
  return getattr(projection, "projection_" + {"lower": "box", "scalarbox": "box"}.get(kind, kind))


# ------------------------------------------------------------------- steps
def spec_p(p):
  q = {k: vec(p[k]) for k in ("a", "c", "lo", "hi", "b", "h", "lam")}
  q.update({k: mat(p[k]) for k in ("Q", "A", "G")}, k=str(int(p["k"])), s=str(int(p["s"])), gam=num(p["gam"]), grp=num(p["grp"]), ent=num(p["ent"]), l1=num(p["l1"]), rad=num(p["rad"]), sphere=bool(p["sphere"]))
  return q


def measure(run, theta, p, r, jit=True, full=False, rtol=2e-3, stol=1e-5, ls=None, t=0.0, dual=0, deriv=True):
  """One step: run(theta) -> vector, pulled back along a random cotangent."""
  import jax, jax.numpy as jnp
  theta = {k: jnp.asarray(v, float) for k, v in theta.items()}

  def go():
    if not deriv:
      return (jax.jit(run) if jit else run)(theta), None, None
    def both(th, v):
      x, back = jax.vjp(run, th)
      return x, back(v)[0]
    n = len(p["c"]) + dual
    v = jnp.asarray(r.randn(n))
    x, g = (jax.jit(both) if jit else both)(theta, v)
    return x, g, v
  res, exc = guarded(go)
  if exc:
    return dict(exc=exc)
  x, g, v = res
  n = len(p["c"])
  X, y = ls or (onp.zeros((0, n)), onp.zeros(0))
  return dict(exc="", p=spec_p(p), x=vec(x[:n]), v=vec(v[:n]), vn=vec(v[n:]), g={k: flat(w) for k, w in g.items()}, structure=bool(set(g) == set(theta) and all(onp.shape(g[k]) == onp.shape(theta[k]) for k in g)),
              full=full, rtol=num(rtol), stol=num(stol), X=mat(X), y=vec(y), m=num(max(1, len(y))), t=num(t))


CASES = {}


def case(*names):
  def deco(f):
    for k in names:
      CASES[k] = f
    return f
  return deco


def seed_of(name, seed):
  return onp.random.RandomState((sum(ord(ch) * (i + 1) for i, ch in enumerate(name)) * 101 + seed) % 2 ** 31)


def solves(r, tree="vector", sym=True, nested=False):
  from jaxopt import linear_solve as ls
  L = [None, None, ls.solve_normal_cg] + ([] if nested else [ls.solve_gmres, ls.solve_bicgstab])  # JAX cannot transpose a linear solve within GMRES
  if sym:
    L.append(ls.solve_cg)
  if tree == "vector":
    L += [ls.solve_lu, ls.solve_inv] + ([ls.solve_cholesky] if sym else [])
  f = L[r.randint(len(L))]
  return {} if f is None else dict(implicit_diff_solve=f)


def call(sol, form, init, lead, theta, names=("Q", "a", "c")):
  """sol.run in one of the call forms; lead are positional hyper-parameters."""
  vals = [theta[k] for k in names]
  if form == "positional":
    return sol.run(init, *lead, *vals)
  named = [("d" if k == "a" else k, u) for k, u in zip(names, vals)]  # JAX mistakes a keyword a for the *a of a lambda
  if form == "keyword":
    return sol.run(init, *lead, **dict(named))
  return sol.run(init, *lead, *vals[:1], **dict(named[:0:-1]))


SMOOTH = dict(
    GradientDescent=lambda j, f, **k: j.GradientDescent(fun=f, maxiter=3000, tol=1e-9, **k),
    GradientDescentPlain=lambda j, f, **k: j.GradientDescent(fun=f, maxiter=3000, tol=1e-9, acceleration=False, stepsize=0.08, **k),
    ProximalGradient=lambda j, f, **k: j.ProximalGradient(fun=f, prox=__import__("jaxopt").prox.prox_none, maxiter=3000, tol=1e-9, **k),
    BFGS=lambda j, f, **k: j.BFGS(fun=f, tol=1e-9, **k), LBFGS=lambda j, f, **k: j.LBFGS(fun=f, tol=1e-9, **k),
    LBFGSHZ=lambda j, f, **k: j.LBFGS(fun=f, tol=1e-9, linesearch="hager-zhang", **k),
    NonlinearCG=lambda j, f, **k: j.NonlinearCG(fun=f, tol=1e-9, maxiter=400, **k),
    ScipyMinimize=lambda j, f, **k: j.ScipyMinimize(fun=f, tol=1e-11, method="BFGS", **k),
    ArmijoSGD=lambda j, f, **k: j.ArmijoSGD(fun=f, tol=1e-9, maxiter=4000, **k),
    PolyakSGD=lambda j, f, **k: j.OptaxSolver(fun=f, opt=__import__("optax").sgd(0.08), tol=1e-9, maxiter=4000, **k),
    OptaxSolver=lambda j, f, **k: j.OptaxSolver(fun=f, opt=__import__("optax").sgd(0.08, momentum=0.3), tol=1e-9, maxiter=4000, **k),
    AndersonWrapper=lambda j, f, **k: j.AndersonWrapper(solver=j.GradientDescent(fun=f, acceleration=False, stepsize=0.08, maxiter=600, tol=1e-9, **{q: w for q, w in k.items() if q != "implicit_diff_solve"}), history_size=3),
)
SMOOTH["LBFGSB"] = lambda j, f, **k: j.LBFGSB(fun=f, tol=1e-9, **k)
SMOOTH["PolyakSGD"] = lambda j, f, **k: j.PolyakSGD(fun=f, tol=1e-9, maxiter=4000, max_stepsize=0.1, fun_min=-100.0, **k)


@case(*["smooth:" + k for k in SMOOTH])
def smooth(name, seed, j):
  import jax, jax.numpy as jnp, jaxopt
  r = seed_of(name, seed * 10 + j)
  n = 3
  p = base(r, n)
  name = name.split(":")[1]
  tree = r.choice(["vector", "dict", "matrix"])
  pk, un = shapes(n, tree)
  aux = bool(r.randint(2))
  form = str(r.choice(["positional", "keyword", "mixed"]))
  if name in ("ArmijoSGD", "PolyakSGD", "OptaxSolver") and form == "mixed":
    form = "keyword"
  lead = (None,) if name in ("ProximalGradient", "LBFGSB") else ()
  f = lambda x, Q, d, c: value(un(x), Q, d, c)
  g = (lambda x, Q, d, c: (f(x, Q, d, c), un(x) * 2)) if aux else f
  vg = bool(r.randint(3) == 0) and name not in ("AndersonWrapper", "ScipyMinimize")
  if vg:
    g0 = g
    g = jax.value_and_grad(g0, has_aux=aux)
  kw = dict(has_aux=aux, **({"value_and_grad": True} if vg else {}))
  sol = SMOOTH[name](jaxopt, g, **kw, **solves(r, tree, sym=name != "ProximalGradient"))
  theta = dict(Q=p["Q"], a=p["a"], c=p["c"], init=0.3 * r.randn(n))
  run = lambda t: un(call(sol, form, pk(t["init"]), lead, t).params)
  return measure(run, theta, p, r, jit=name != "ScipyMinimize", rtol=5e-3)


ROOTS = dict(
    Broyden=lambda j, f, **k: j.Broyden(fun=f, tol=1e-9, maxiter=300, **k),
    ScipyRootFinding=lambda j, f, **k: j.ScipyRootFinding(optimality_fun=f, method="hybr", tol=1e-10, **k),
    FixedPoint=lambda j, f, **k: j.FixedPointIteration(fixed_point_fun=f, tol=1e-10, maxiter=3000, **k),
    Anderson=lambda j, f, **k: j.AndersonAcceleration(fixed_point_fun=f, tol=1e-9, maxiter=1000, history_size=3, **k),
    GaussNewton=lambda j, f, **k: j.GaussNewton(residual_fun=f, tol=1e-9, maxiter=50, **k),
    LM=lambda j, f, **k: j.LevenbergMarquardt(residual_fun=f, tol=1e-9, maxiter=200, **k),
    LMmat=lambda j, f, **k: j.LevenbergMarquardt(residual_fun=f, tol=1e-9, maxiter=200, materialize_jac=True, geodesic=True, **k),
    ScipyLeastSquares=lambda j, f, **k: j.ScipyLeastSquares(fun=f, method="trf", **{q: w for q, w in k.items()}),
)


@case(*["root:" + k for k in ROOTS])
def roots(name, seed, j):
  import jax, jax.numpy as jnp, jaxopt
  r = seed_of(name, seed * 10 + j)
  n = 3
  p = base(r, n)
  name = name.split(":")[1]
  if name != "Broyden" and name != "Anderson" and name != "FixedPoint":
    p["Q"] = p["Q"] + 0.3 * onp.triu(r.randn(n, n), 1)  # not symmetric
    p["Q"] += 0.3 * onp.eye(n)
  full = True
  p["k"] = 1.0
  tree = "vector" if name.startswith("LM") or name == "GaussNewton" else str(r.choice(["vector", "dict", "matrix"]))
  pk, un = shapes(n, tree)
  aux = bool(r.randint(2))
  form = str(r.choice(["positional", "keyword", "mixed"]))
  if name in ("FixedPoint", "Anderson"):
    f = lambda x, Q, d, c: pk(un(x) - 0.12 * slope(un(x), Q, d, c))
  else:
    f = lambda x, Q, d, c: pk(slope(un(x), Q, d, c))
  g = (lambda x, Q, d, c: (f(x, Q, d, c), un(x) * 2)) if aux else f
  sol = ROOTS[name](jaxopt, g, has_aux=aux, **solves(r, tree, sym=name in ("GaussNewton", "LM", "LMmat", "ScipyLeastSquares")))
  theta = dict(Q=p["Q"], a=p["a"], c=p["c"], init=0.3 * r.randn(n))
  run = lambda t: un(call(sol, form, pk(t["init"]), (), t).params)
  # Sens.tla is for symmetric Q; for a root any Q does
  return dict(measure(run, theta, p, r, jit=not name.startswith("Scipy"), full=full, rtol=5e-3, stol=1e-4), root=True)


@case("bisection")
def bisection(name, seed, j):
  import jax.numpy as jnp, jaxopt
  r = seed_of(name, seed * 10 + j)
  p = base(r, 1)
  f = lambda x, Q, d, c: Q[0, 0] * x + x ** 3 + d[0] * x - c[0]
  sol = jaxopt.Bisection(optimality_fun=f, lower=-6.0, upper=7.0, maxiter=100, tol=1e-10, check_bracket=False)
  form = str(r.choice(["positional", "keyword", "mixed"]))
  run = lambda t: jnp.reshape(call(sol, form, None, (), t).params, (1,))
  return measure(run, dict(Q=p["Q"], a=p["a"], c=p["c"]), p, r, full=True)


@case(*[f"proj:{k}" for k in PROJ], "default:affine_set", "default:polyhedron", "default:box_section", *[f"prox:{k}" for k in PROX])
def constrained(name, seed, j):
  """Projected and proximal gradient with every set and penalty."""
  import jax.numpy as jnp, jaxopt
  r = seed_of(name, seed * 10 + j)
  what, kind = name.split(":")
  n = 3 if kind != "polyhedron" else 4
  p = base(r, n)
  upd, extra, hyper = sets(kind, r, n)
  tree = str(r.choice(["vector", "dict"])) if kind in ("none", "lasso", "elastic_net", "ridge", "non_negative", "l2_ball") else "vector"
  pk, un = shapes(n, tree)
  if "asum" in extra:
    p["a"] = onp.zeros(n)
  p.update(upd)
  aux = bool(r.randint(2))
  form = str(r.choice(["positional", "keyword", "mixed"]))
  th = dict(Q=p["Q"], a=p["a"], c=p["c"], init=pk(onp.zeros(n)) if tree != "vector" else onp.zeros(n))
  th["init"] = 0.1 * onp.ones(n)
  th.update(extra)
  if "asum" in extra:
    th.pop("a")
    zero = onp.zeros(n)
  f = lambda x, Q, d, c: value(un(x), Q, d, c)
  g = (lambda x, Q, d, c: (f(x, Q, d, c), dict(u=un(x)))) if aux else f
  kw = dict(tol=1e-9, maxiter=2000 if kind not in ("polyhedron", "box_section") else 300, has_aux=aux, **solves(r, tree, sym=False, nested=kind in ("affine_set", "polyhedron", "box_section")))
  if kind in ("affine_set", "polyhedron", "box_section"):  # these solve a problem themselves; for the default solver see default:*
    kw.pop("implicit_diff_solve", None)
    if what == "proj":
      kw["implicit_diff_solve"] = jaxopt.linear_solve.solve_lu
  if r.randint(2):
    kw.update(acceleration=False, **({} if kind in ("hyperplane", "halfspace", "affine_set", "polyhedron") else {"stepsize": 0.1}))
  if what in ("proj", "default"):
    sol = jaxopt.ProjectedGradient(fun=g, projection=operator(kind), **kw)
  else:
    sol = jaxopt.ProximalGradient(fun=g, prox=operator(kind), **kw)

  def run(t):
    t = dict(t)
    t.setdefault("a", onp.zeros(n))
    hp = hyper(t)
    if kind in ("scalarbox",):
      hp = hyper(t)
    return un(call(sol, form, pk(t["init"]), (hp,), t).params)
  return measure(run, th, p, r, rtol=1e-2 if kind in ("polyhedron", "box_section") else 5e-3, stol={"polyhedron": 2e-2, "box_section": 1e-3}.get(kind, 1e-5))


@case("box:LBFGSB", "box:LBFGSBtree", "box:ScipyBoundedMinimize", "box:ProjectedGradientTree")
def boxed(name, seed, j):
  import jax, jax.numpy as jnp, jaxopt
  r = seed_of(name, seed * 10 + j)
  n = 4
  p = base(r, n)
  upd, extra, _ = sets("box", r, n)
  p.update(upd)
  name = name.split(":")[1]
  tree = "dict" if name.endswith("ree") else "vector"
  pk, un = shapes(n, tree)
  form = str(r.choice(["positional", "keyword", "mixed"]))
  f = lambda x, Q, d, c: value(un(x), Q, d, c)
  if name.startswith("LBFGSB"):
    sol = jaxopt.LBFGSB(fun=f, tol=1e-9, maxiter=200, **solves(r, tree, sym=False))
  elif name.startswith("Proj"):
    sol = jaxopt.ProjectedGradient(fun=f, projection=jaxopt.projection.projection_box, tol=1e-9, maxiter=2000)
  else:
    sol = jaxopt.ScipyBoundedMinimize(fun=f, method="L-BFGS-B", tol=1e-12, **solves(r, tree, sym=False))
  kwbounds = bool(r.randint(2)) and form == "keyword"

  def run(t):
    bounds = (pk(t["lo"]), pk(t["hi"]))
    init = pk(t["init"])
    if kwbounds:
      return un(sol.run(init, **{"hyperparams_proj" if name.startswith("Proj") else "bounds": bounds}, Q=t["Q"], d=t["a"], c=t["c"]).params)
    return un(call(sol, form, init, (bounds,), t).params)
  th = dict(Q=p["Q"], a=p["a"], c=p["c"], init=onp.zeros(n), **extra)
  return measure(run, th, p, r, jit=not name.startswith("Scipy"), rtol=5e-3)


@case("mirror:kl", "mirror:softmax")
def mirror(name, seed, j):
  import jax, jax.numpy as jnp, jaxopt
  r = seed_of(name, seed * 10 + j)
  n = 3
  p = base(r, n)
  p["c"] = 0.3 * r.randn(n)
  v = 1.0 if name.endswith("softmax") else 0.8 + r.rand()
  p.update(lo=onp.zeros(n), A=onp.ones((1, n)), b=onp.array([v]))
  f = lambda x, Q, d, c: value(x, Q, d, c)
  if name.endswith("softmax"):
    pg = jaxopt.MirrorDescent.make_projection_grad(lambda y, _: jax.nn.softmax(y), jnp.log)
  else:
    pg = jaxopt.MirrorDescent.make_projection_grad(lambda y, s: s * jax.nn.softmax(y), jnp.log)
  sol = jaxopt.MirrorDescent(fun=f, projection_grad=pg, stepsize=0.5, maxiter=5000, tol=1e-10, **solves(r, sym=False))
  form = str(r.choice(["positional", "keyword", "mixed"]))
  th = dict(Q=p["Q"], a=p["a"], c=p["c"], init=v * onp.ones(n) / n)
  if not name.endswith("softmax"):
    th["b"] = v
  run = lambda t: call(sol, form, t["init"], (t.get("b"),), t).params
  return measure(run, th, p, r, rtol=5e-3)


LSQ = ("ls:GaussNewton", "ls:LM", "ls:LMmat", "ls:ScipyLeastSquares", "ls:ScipyBoundedLeastSquares", "ls:BlockCD", "ls:BlockCDridge", "ls:ProximalGradient", "ls:LBFGSB", "ls:IterativeRefinement")


@case(*LSQ)
def lsq(name, seed, j):
  """Least squares: derivatives by the data."""
  import jax, jax.numpy as jnp, jaxopt
  from jaxopt import objective, prox
  r = seed_of(name, seed * 10 + j)
  n, m = 3, 6
  X, y, p = least(r, n, m)
  name = name.split(":")[1]
  th = dict(X=X, y=y, init=onp.zeros(n))
  res = lambda w, X, y: X @ w - y
  data = bool(r.randint(2))
  if data:
    res = lambda w, data: data[0] @ w - data[1]
  args = (lambda t: ((t["X"], t["y"]),)) if data else (lambda t: (t["X"], t["y"]))
  jit = not name.startswith("Scipy")
  sv = solves(r)
  if name in ("GaussNewton", "LM", "LMmat"):
    cls = jaxopt.GaussNewton if name == "GaussNewton" else jaxopt.LevenbergMarquardt
    sol = cls(residual_fun=res, tol=1e-9, **({"materialize_jac": True} if name == "LMmat" else {}), maxiter=100, **sv)
    run = lambda t: sol.run(t["init"], *args(t)).params
  elif name == "ScipyLeastSquares":
    sol = jaxopt.ScipyLeastSquares(fun=res, method="trf", **sv)
    run = lambda t: sol.run(t["init"], *args(t)).params
  elif name == "ScipyBoundedLeastSquares":
    upd, extra, _ = sets("box", r, n)
    p.update(upd)
    th.update(extra)
    sol = jaxopt.ScipyBoundedLeastSquares(fun=res, method=str(r.choice(["trf", "dogbox"])), options=dict(ftol=1e-14, xtol=1e-14, gtol=1e-14), **solves(r, sym=False))
    run = lambda t: sol.run(t["init"], (t["lo"], t["hi"]), *args(t)).params
  elif name.startswith("BlockCD"):
    v = 0.1 + 0.3 * r.rand()
    if name == "BlockCD":
      p["lam"] = v * onp.ones(n)
      th["lamsum"] = v
    else:
      p["a"] = v * onp.ones(n)
      th["asum"] = v
    sol = jaxopt.BlockCoordinateDescent(fun=objective.least_squares, block_prox=prox.prox_lasso if name == "BlockCD" else prox.prox_ridge, tol=1e-10, maxiter=2000, **solves(r, sym=False))
    kw = bool(r.randint(2))
    run = lambda t: sol.run(t["init"], t.get("lamsum", t.get("asum")), **({"data": (t["X"], t["y"])})).params if kw else sol.run(t["init"], t.get("lamsum", t.get("asum")), (t["X"], t["y"])).params
  elif name == "ProximalGradient":
    v, g = 0.1 + 0.3 * r.rand(), 0.4
    p.update(lam=v * onp.ones(n), gam=g)
    th.update(lamsum=v, gam=g)
    sol = jaxopt.ProximalGradient(fun=objective.least_squares, prox=prox.prox_elastic_net, tol=1e-9, maxiter=3000, **solves(r, sym=False))
    run = lambda t: sol.run(t["init"], (t["lamsum"], t["gam"]), data=(t["X"], t["y"])).params
  elif name == "LBFGSB":
    upd, extra, _ = sets("box", r, n)
    p.update(upd)
    th.update(extra)
    sol = jaxopt.LBFGSB(fun=objective.least_squares, tol=1e-9, maxiter=300)
    run = lambda t: sol.run(t["init"], bounds=(t["lo"], t["hi"]), data=(t["X"], t["y"])).params
  else:
    p = base(r, n, cube=False)
    th = dict(Q=p["Q"], c=p["c"], init=onp.zeros(n))
    sol = jaxopt.IterativeRefinement(tol=1e-10, maxiter=30)
    run = lambda t: sol.run(t["init"], t["Q"], t["c"]).params
    return measure(run, th, p, r, full=True)
  return measure(run, th, p, r, jit=jit, ls=(X, y), rtol=5e-3, stol=1e-4 if name.startswith("Scipy") else 1e-5)


QPS = ("qp:BoxCDQP", "qp:EqQP", "qp:EqQPdual", "qp:EqQPfun", "qp:OSQP", "qp:OSQPeq", "qp:OSQPineq", "qp:OSQPlu", "qp:OSQPmatvec", "qp:OSQPfun", "qp:BoxOSQP", "qp:BoxOSQPlu", "qp:Cvxpy", "qp:Cvxpyineq")


@case(*QPS)
def qp(name, seed, j):
  import jax, jax.numpy as jnp, jaxopt
  r = seed_of(name, seed * 10 + j)
  n = 4
  p = base(r, n, cube=False, s=-1)
  name = name.split(":")[1]
  th = dict(Q=p["Q"], c=p["c"])
  kw = bool(r.randint(2))

  def invoke(sol, init, obj, eq, ineq):
    if kw:
      return sol.run(init_params=init, params_obj=obj, params_eq=eq, params_ineq=ineq).params
    return sol.run(init, obj, eq, ineq).params
  if name == "BoxCDQP":
    upd, extra, _ = sets("box", r, n)
    p.update(upd)
    th.update(extra, init=onp.zeros(n))
    sol = jaxopt.BoxCDQP(tol=1e-10, maxiter=3000, **solves(r, sym=False))
    run = lambda t: sol.run(t["init"], (t["Q"], t["c"]), (t["lo"], t["hi"])).params if not kw else sol.run(t["init"], params_obj=(t["Q"], t["c"]), params_ineq=(t["lo"], t["hi"])).params
    return measure(run, th, p, r, rtol=5e-3)
  if name.startswith("EqQP"):
    A, b = r.randn(2, n), r.randn(2)
    p.update(A=A, b=b)
    th.update(A=A, b=b)
    dual = 2 if name == "EqQPdual" else 0
    if name == "EqQPfun":
      from jaxopt._src import base as jbase
      sol = jaxopt.EqualityConstrainedQP(fun=lambda x, o: 0.5 * x @ o[0] @ x + o[1] @ x + 3.0, tol=1e-9)
      run = lambda t: sol.run(jbase.KKTSolution(jnp.zeros(n), jnp.zeros(2)), (t["Q"], t["c"]), (t["A"], t["b"])).params.primal
      return measure(run, th, p, r, rtol=5e-3)
    sol = jaxopt.EqualityConstrainedQP(tol=1e-9, **({"refine_regularization": 1e-3, "refine_maxiter": 60} if r.randint(2) else {}))
    out = (lambda k: jnp.concatenate([k.primal, k.dual_eq])) if dual else (lambda k: k.primal)
    if kw:
      run = lambda t: out(sol.run(params_obj=(t["Q"], t["c"]), params_eq=(t["A"], t["b"])).params)
    else:
      run = lambda t: out(sol.run(None, (t["Q"], t["c"]), (t["A"], t["b"])).params)
    return measure(run, th, p, r, rtol=5e-3, dual=dual)
  x = r.randn(n)
  if name.startswith("BoxOSQP"):
    B = r.randn(3, n)
    l, u = B @ x - 0.1 - 0.4 * r.rand(3), B @ x + 0.1 + 0.4 * r.rand(3)
    p.update(G=onp.concatenate([B, -B]), h=onp.concatenate([u, -l]))
    th.update(B=B, l=l, u=u)
    sol = jaxopt.BoxOSQP(tol=1e-8, maxiter=20000, **({"eq_qp_solve": "lu"} if name.endswith("lu") else {}))
    run = lambda t: invoke(sol, None, (t["Q"], t["c"]), t["B"], (t["l"], t["u"])).primal[0]
    return measure(run, th, p, r, rtol=1e-2, stol=1e-4)
  eq = ineq = None
  if name not in ("OSQPineq", "Cvxpyineq"):
    A = r.randn(1, n)
    p.update(A=A, b=A @ x)
    th.update(A=A, b=A @ x)
    eq = lambda t: (t["A"], t["b"])
  if name not in ("OSQPeq"):
    G = r.randn(3, n)
    h = G @ x + 0.5 * r.rand(3)
    p.update(G=G, h=h)
    th.update(G=G, h=h)
    ineq = lambda t: (t["G"], t["h"])
  put = lambda f, t: None if f is None else f(t)
  if name.startswith("Cvxpy"):
    sol = jaxopt.CvxpyQP(solver="OSQP")
    run = lambda t: invoke(sol, None, (t["Q"], t["c"]), put(eq, t), put(ineq, t)).primal
    return measure(run, th, p, r, jit=False, rtol=1e-2, stol=1e-3)
  opt = dict(tol=1e-8, maxiter=20000)
  obj = lambda t: (t["Q"], t["c"])
  init = None
  if name == "OSQPlu":
    opt["eq_qp_solve"] = "lu"
  if name == "OSQPmatvec":
    opt.update(matvec_Q=lambda Q, x: Q @ x, matvec_A=lambda A, x: A @ x, matvec_G=lambda G, x: G @ x)
  if name == "OSQPfun":
    opt["fun"] = lambda x, o: 0.5 * x @ o["Q"] @ x + o["c"] @ x + 2.0
    obj = lambda t: dict(Q=t["Q"], c=t["c"])
    init = "kkt"
  sol = jaxopt.OSQP(**opt)

  def run(t):
    k = sol.init_params(jnp.zeros(n), obj(t), put(eq, t), put(ineq, t)) if init else None
    return invoke(sol, k, obj(t), put(eq, t), put(ineq, t)).primal
  return measure(run, th, p, r, rtol=1e-2, stol=1e-4)


UNROLLED = ("GradientDescent", "ProximalGradient", "ProjectedGradient", "FixedPoint", "GaussNewton", "LBFGS", "BlockCD", "BoxCDQP", "Anderson", "NonlinearCG", "MirrorDescent")


@case(*["unrolled:" + k for k in UNROLLED])
def unrolled(name, seed, j):
  """The same derivatives by differentiating the iterations."""
  import jax, jax.numpy as jnp, jaxopt
  from jaxopt import projection, prox, objective
  r = seed_of(name, seed * 10 + j)
  n = 3
  p = base(r, n)
  name = name.split(":")[1]
  un = bool(r.randint(2)) and name != "LBFGS" and name != "NonlinearCG"
  kw = dict(implicit_diff=False, tol=0.0, maxiter=150, **({"jit": False, "unroll": False} if False else {}))
  th = dict(Q=p["Q"], a=p["a"], c=p["c"])
  full = name in ("FixedPoint", "GaussNewton", "Anderson")
  x0 = jnp.asarray(0.2 * r.randn(n))
  if name == "GradientDescent":
    sol = jaxopt.GradientDescent(fun=value, acceleration=bool(r.randint(2)), stepsize=0.15, **kw)
    run = lambda t: sol.run(x0, t["Q"], t["a"], t["c"]).params
  elif name in ("LBFGS", "NonlinearCG"):
    kw.update(maxiter=12, tol=1e-6)
    sol = getattr(jaxopt, name)(fun=value, linesearch="backtracking", **dict(kw, maxiter=25))
    run = lambda t: sol.run(x0, t["Q"], t["a"], t["c"]).params
  elif name == "ProximalGradient":
    upd, extra, hyper = sets("lasso", r, n)
    p.update(upd)
    th.update(extra)
    sol = jaxopt.ProximalGradient(fun=value, prox=prox.prox_lasso, acceleration=False, stepsize=0.15, **kw)
    run = lambda t: sol.run(x0, t["lamsum"], t["Q"], t["a"], t["c"]).params
  elif name == "ProjectedGradient":
    upd, extra, hyper = sets("simplex", r, n)
    p.update(upd)
    th.update(extra)
    sol = jaxopt.ProjectedGradient(fun=value, projection=projection.projection_simplex, acceleration=False, stepsize=0.15, **kw)
    run = lambda t: sol.run(x0, t["b"], t["Q"], t["a"], t["c"]).params
  elif name == "MirrorDescent":
    p["c"] = 0.3 * r.randn(n)
    th["c"] = p["c"]
    p.update(lo=onp.zeros(n), A=onp.ones((1, n)), b=onp.ones(1))
    pg = jaxopt.MirrorDescent.make_projection_grad(lambda y, _: jax.nn.softmax(y), jnp.log)
    sol = jaxopt.MirrorDescent(fun=value, projection_grad=pg, stepsize=0.5, **dict(kw, maxiter=300))
    run = lambda t: sol.run(jnp.ones(n) / n, None, t["Q"], t["a"], t["c"]).params
  elif name == "FixedPoint":
    sol = jaxopt.FixedPointIteration(fixed_point_fun=lambda x, Q, d, c: x - 0.15 * slope(x, Q, d, c), **kw)
    run = lambda t: sol.run(x0, t["Q"], t["a"], t["c"]).params
  elif name == "Anderson":
    sol = jaxopt.AndersonAcceleration(fixed_point_fun=lambda x, Q, d, c: x - 0.15 * slope(x, Q, d, c), history_size=2, ridge=1e-6, **dict(kw, maxiter=40, tol=1e-7))
    run = lambda t: sol.run(x0, t["Q"], t["a"], t["c"]).params
  elif name == "GaussNewton":
    sol = jaxopt.GaussNewton(residual_fun=slope, **dict(kw, maxiter=12, tol=1e-9))
    run = lambda t: sol.run(x0, t["Q"], t["a"], t["c"]).params
  elif name == "BlockCD":
    X, y, p = least(r, n, 6)
    p["lam"] = 0.2 * onp.ones(n)
    th = dict(X=X, y=y, lamsum=0.2)
    sol = jaxopt.BlockCoordinateDescent(fun=objective.least_squares, block_prox=prox.prox_lasso, **kw)
    run = lambda t: sol.run(x0, t["lamsum"], (t["X"], t["y"])).params
    return measure(run, th, p, r, ls=(X, y), rtol=2e-2, stol=1e-3)
  else:
    p = base(r, n, cube=False, s=-1)
    upd, extra, _ = sets("box", r, n)
    p.update(upd)
    th = dict(Q=p["Q"], c=p["c"], **extra)
    sol = jaxopt.BoxCDQP(**kw)
    run = lambda t: sol.run(x0, (t["Q"], t["c"]), (t["lo"], t["hi"])).params
  return measure(run, th, p, r, full=full, rtol=2e-2, stol=1e-3)


# --------------------------------------------------------------- C29: operators
OPS = tuple(f"proj:{k}" for k in PROJ + SPHERES + ("sparse_simplex", "transport", "transport_dual", "birkhoff", "kl_transport", "kl_transport_dual", "kl_birkhoff")) + tuple(f"prox:{k}" for k in PROX + ("from_simplex", "from_box"))
TREES = ("none", "lasso", "elastic_net", "ridge", "non_negative", "non_negative_lasso", "non_negative_ridge", "l2_ball", "l2_sphere", "group_lasso")


def transport(kind, r):
  """Projection on matrices with given row and column sums; one column sum is implied."""
  import jax.numpy as jnp
  from jaxopt import projection
  k, m = (2, 3) if not kind.endswith("birkhoff") else (2, 2)
  n = k * m
  T = r.rand(k, m) + 0.2
  kl = kind.startswith("kl")
  if kind.endswith("birkhoff"):
    T = onp.array([[0.5, 0.5], [0.5, 0.5]])
  rows, cols = T.sum(1), T.sum(0)
  A = onp.zeros((k + m - 1, n))
  for i in range(k):
    A[i, i * m:(i + 1) * m] = 1
  for c in range(m - 1):
    A[k + c, c::m] = 1
  p = base(r, n, cube=False)
  y = r.randn(n)
  p.update(Q=onp.eye(n), c=y, lo=onp.zeros(n), A=A, b=onp.concatenate([rows, cols[:-1]]))
  if kl:
    p.update(Q=onp.zeros((n, n)), ent=1.0, lo=-INF * onp.ones(n))
  pre = projection.__dict__["kl_projection_birkhoff" if kl else "projection_birkhoff"], projection.__dict__["kl_projection_transport" if kl else "projection_transport"]
  if kind.endswith("birkhoff"):
    run = lambda t: jnp.ravel(pre[0](jnp.reshape(t["c"], (k, m))))
  else:
    run = lambda t: jnp.ravel(pre[1](jnp.reshape(t["c"], (k, m)), (jnp.asarray(rows), jnp.asarray(cols)), use_semi_dual=not kind.endswith("dual")))
  return measure(run, dict(c=y), p, r, rtol=2e-2, stol=1e-2)


def op(name, seed, j):
  import jax.numpy as jnp
  from jaxopt import projection, prox
  r = seed_of(name, seed * 10 + j)
  kind = name.split(":")[1]
  if "transport" in kind or "birkhoff" in kind:
    return transport(kind, r)
  n = int(r.randint(3, 6))
  p = base(r, n, cube=False)
  upd, extra, hyper = sets(kind.replace("sparse_", "").replace("from_", ""), r, n)
  y = 1.2 * r.randn(n)
  isprox = name.startswith("prox")
  scale = float(r.choice([1.0, 0.5, 2.0])) if isprox and not kind.startswith("from_") else 1.0
  if "asum" in extra:
    p["a"] = onp.zeros(n)
  p.update(Q=onp.eye(n) / scale, c=y / scale)
  p.update(upd)
  tree = str(r.choice(["vector", "dict", "matrix"])) if kind in TREES else "vector"
  pk, un = shapes(n, tree)
  kwargs = {}
  if kind == "sparse_simplex":  # the simplex of the k largest entries; k-support of the rest is empty
    k = int(r.randint(2, n))
    S = onp.argsort(-y)[:k]
    p = base(r, k, cube=False)
    p.update(Q=onp.eye(k), c=y[S], lo=onp.zeros(k), A=onp.ones((1, k)), b=upd["b"])
    run = lambda t: projection.projection_sparse_simplex(jnp.asarray(y).at[S].set(t["point"]), k, value=t["b"])[S]
    return measure(run, dict(point=y[S], **extra), p, r, t=1.0, rtol=1e-6, stol=1e-7)
  f = prox.make_prox_from_projection(getattr(projection, "projection_" + kind[5:])) if kind.startswith("from_") else operator(kind)
  th = dict(point=y, **extra)
  if isprox:
    th["scaling"] = scale
    run = lambda t: un(f(pk(t["point"]), hyper(t), scaling=t["scaling"] if not kind.startswith("from_") else 3.0))
    if kind.startswith("from_"):
      th.pop("scaling")
  else:
    run = lambda t: un(f(pk(t["point"]), hyper(t)))
  loose = kind in ("polyhedron", "box_section", "affine_set")
  return measure(run, th, p, r, t=scale, rtol=1e-2 if loose else 1e-6, stol=1e-3 if loose else 1e-7)


def group(names, seed, reps, which):
  out = []
  for name in names:
    t = dict(id=f"{name}#{seed}", site=name, steps=[])
    for j in range(reps):
      f = op if which == "op" else CASES[name]
      step, exc = guarded(f, name, seed, j)
      t["steps"].append(dict(exc=exc) if exc else step)
    out.append(t)
  return out


def jobs(ctx):
  names = sorted(CASES)
  reps = 2 if ctx.quick else 10
  return [("group", ([k], ctx.seed, reps, "solver")) for k in names]
