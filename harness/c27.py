"""C27: SciPy wrappers against Flatten.tla and direct SciPy runs on the flat problem."""
import copy
import functools
import numpy as onp
from common import *

DESIGN = [("MCFlatten", "MCFlatten.cfg")]
GENERATE = ("MCFlatten", "GenFlatten.cfg")
TRACE = "TraceScipy"
ASSUMPTIONS = ["float64 (float32 and mixed leaves: structure, dtypes and values only); one family of quartic objectives and cubic systems in 3-6 variables; methods needing second derivatives are refused by SciPy and not exercised"]


def jobs(ctx):
  cases = {repr(sorted(c.items())): c for c in ctx.cases}
  cases = [cases[k] for k in sorted(cases)]
  r = onp.random.RandomState(ctx.seed)
  if ctx.quick:
    by = {}
    for c in cases:
      by.setdefault((c["what"], c["method"]), []).append(c)
    cases = [v[j] for k, v in sorted(by.items()) for j in r.permutation(len(v))[:4]]
  r.shuffle(cases)
  J = [("configs", (cases[k::8], ctx.seed + k)) for k in range(8)]
  J += [("dtypes", (ctx.seed,)), ("sharing", (ctx.seed,))]
  return J


def tree(kind, r, dtype=float):
  """A tree of numpy leaves and the number of entries."""
  f = lambda *s: onp.asarray(r.randint(-4, 5, s) / 4.0, dtype)
  return {"vector": lambda: f(5), "matrix": lambda: f(2, 3), "nested": lambda: {"b": f(2), "a": (f(1, 2), float(f()))}, "scalars": lambda: (float(f()), f(), [f(1)])}[kind]()


def bridge(x0):
  """Canonical flattening, written here: (flat, unflat, shapes, dtypes, treedef)."""
  import jax, jax.numpy as jnp
  ls, td = jax.tree_util.tree_flatten(x0)
  ls = [jnp.asarray(l) for l in ls]
  shapes, dtypes = [l.shape for l in ls], [str(l.dtype) for l in ls]

  def flatten(t):
    return onp.concatenate([onp.asarray(l, onp.float64).ravel() for l in jax.tree_util.tree_leaves(t)])

  def unflatten(v):
    out, k = [], 0
    for s, d in zip(shapes, dtypes):
      n = int(onp.prod(s))
      out.append(jnp.asarray(onp.asarray(v[k:k + n]).reshape(s), d))
      k += n
    return jax.tree_util.tree_unflatten(td, out)
  return flatten, unflatten, shapes, dtypes, td


def cat(t):
  import jax, jax.numpy as jnp
  return jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(t)])


def uncat(t, v):
  import jax, jax.numpy as jnp
  ls, td = jax.tree_util.tree_flatten(t)
  out, k = [], 0
  for l in ls:
    n = int(onp.prod(jnp.shape(l)))
    out.append(v[k:k + n].reshape(jnp.shape(l)))
    k += n
  return jax.tree_util.tree_unflatten(td, out)


def objective(x, o):
  import jax.numpy as jnp
  v = cat(x)
  return 0.5 * jnp.sum(o["w"] * (v - o["a"]) ** 2) + 0.25 * o["s"] * jnp.sum(v ** 4) + o["t"] * jnp.sum(v[:-1] * v[1:])


def residual(x, o):
  import jax.numpy as jnp
  v = cat(x)
  return uncat(x, o["w"] * v + o["s"] * v ** 3 + o["t"] * jnp.roll(v, -1) - o["a"])


def residuals(x, o):
  import jax.numpy as jnp
  v = cat(x)
  return (cat(residual(x, o)), jnp.reshape(v[0] * v[-1] - o["s"], (1, 1)))


def params(n, r):
  return dict(w=1.0 + r.rand(n), a=r.randn(n), s=float(0.1 + r.rand() / 2), t=float(0.4 * (r.rand() - 0.5)))


def ospec(o):
  return dict(w=vec(o["w"]), a=vec(o["a"]), s=num(o["s"]), t=num(o["t"]))


def leafspec(t):
  import jax
  ls = jax.tree_util.tree_leaves(t)
  return [dict(shape=[int(k) for k in onp.shape(l)], vals=vec(l)) for l in ls], [str(getattr(l, "dtype", type(l))) for l in ls]


def code(v):
  return "none" if v is None else str(int(v))


def common(x0, res, x, ref, untouched, rtol):
  import jax
  flatten, _, shapes, dtypes, td = bridge(x0)
  lv, dt = leafspec(res)
  return dict(exc="", structure=bool(jax.tree_util.tree_structure(res) == td), leaves=lv, shapes=[[int(k) for k in s] for s in shapes], dtypes=dt, dtypes0=dtypes, x=vec(x),
              ref=ref, untouched=untouched, rtol=num(rtol), lo=[], hi=[], slack="0")


def wrap_min(form):
  import jax
  vg = jax.value_and_grad(objective)
  if form == "plain":
    return objective, {}
  if form == "aux":
    return (lambda x, o: (objective(x, o), dict(twice=2 * cat(x)))), dict(has_aux=True)
  if form == "vg":
    return (lambda x, o: vg(x, o)), dict(value_and_grad=True)
  return (lambda x, o: ((vg(x, o)[0], cat(x)), vg(x, o)[1])), dict(value_and_grad=True, has_aux=True)


MOPT = {"L-BFGS-B": [{}, {"maxcor": 2}, {"gtol": 1e-3}], "BFGS": [{}, {"norm": 2}, {"gtol": 1e-6}], "CG": [{}, {"gtol": 1e-7}], "SLSQP": [{}, {"ftol": 1e-9}], "TNC": [{}], "Nelder-Mead": [{}, {"xatol": 1e-2}],
        "Newton-CG": [{}, {"xtol": 1e-8}], "COBYLA": [{}, {"rhobeg": 0.5}]}


def mat_of(h, n):
  return [vec(row) for row in h] if h is not None else []


def configs(cases, seed):
  out = []
  for k, c in enumerate(cases):
    name = {"min": "ScipyMinimize", "bounded": "ScipyBoundedMinimize", "root": "ScipyRootFinding", "ls": "ScipyLeastSquares", "lsb": "ScipyBoundedLeastSquares"}[c["what"]]
    if c["what"] in ("ls", "lsb") and c["method"] == "lm" and (c["extra"] != "linear" or c["what"] == "lsb"):
      continue
    t = dict(id=f"{name}-{c['method']}-{c['form']}#{seed}.{k}", site=f"{name}-{c['method']}-{c['form']}", what=c["what"].replace("lsb", "ls"), steps=[])
    for j in range(2):
      r = onp.random.RandomState(seed * 1000 + 10 * k + j)
      f = {"min": minimize, "bounded": minimize, "root": root}.get(c["what"], squares)
      step, exc = guarded(f, c, r, name, j)
      t["steps"].append(dict(exc=exc) if exc else step)
    out.append(t)
  return out


def invoke(sol, j, x0, extra, o):
  return sol.run(x0, *extra, o) if j == 0 else sol.run(x0, *extra, o=o)


def minimize(c, r, name, j):
  import jax, jax.numpy as jnp, jaxopt, scipy.optimize as so
  x0 = tree(c["tree"], r)
  flatten, unflatten, shapes, dtypes, td = bridge(x0)
  n = len(flatten(x0))
  o = params(n, r)
  method = None if c["method"] == "none" else c["method"]
  fun, kw = wrap_min(c["form"])
  opts = dict(MOPT.get(method, [{}])[r.randint(len(MOPT.get(method, [{}])))])
  tol = [None, 1e-3, 1e-6][r.randint(3)]
  maxiter = int(r.choice([3, 40, 300]))
  if method in ("COBYLA", "COBYQA"):
    maxiter = max(maxiter, 2 * n + 4)
  seen, seen0 = [], []
  cb = (lambda x: seen.append(vec(flatten(x)) if jax.tree_util.tree_structure(x) == td else ["nan"])) if c["extra"] == "callback" else None
  cb0 = (lambda x, *_: seen0.append(vec(x))) if cb else None
  given = copy.deepcopy(opts)
  arg = opts if r.randint(2) or opts else None
  bargs, bref = (), None
  if c["what"] == "bounded":
    bargs = (None,)
    if c["extra"] != "nobounds":
      lo = onp.asarray(flatten(x0)) - (r.rand(n) if c["extra"] == "" else 0.05)
      hi = onp.asarray(flatten(x0)) + (r.rand(n) if c["extra"] == "" else 0.05)
      if method in (None, "L-BFGS-B", "TNC") and c["extra"] == "":
        lo[0], hi[-1] = -onp.inf, onp.inf
      bargs = ((unflatten(lo), unflatten(hi)),)
      bref = so.Bounds(lo, hi)
    kw["callback"] = cb
  elif cb:
    kw["callback"] = cb
  cls = getattr(jaxopt, name)
  sol = cls(fun=fun, method=method, tol=tol, options=arg, maxiter=maxiter, jit=c["jit"], **kw)
  res = invoke(sol, j, x0, bargs, o)
  # the same run on the flat problem
  vg = jax.value_and_grad(objective)
  vg = jax.jit(vg) if c["jit"] else vg

  def flat_fun(v):
    a, g = vg(unflatten(v), o)
    return onp.asarray(a, onp.float64), flatten(g)
  ref = so.minimize(flat_fun, flatten(x0), jac=True, tol=tol, bounds=bref, method=method, callback=cb0, options=dict(given, maxiter=maxiter))
  hess = lambda h: [] if h is None else mat_of(h.todense() if hasattr(h, "todense") else onp.asarray(h), n)
  cnt = lambda s, names: [code(getattr(s, q, d)) for q, d in names]
  s = common(x0, res.params, flatten(res.params),
             dict(x=vec(ref.x), counts=cnt(ref, (("nit", None), ("nfev", 0), ("njev", 0), ("nhev", 0))), success=bool(ref.success), status=code(ref.status), seen=seen0, hess=hess(getattr(ref, "hess_inv", None))),
             (arg is None or arg == given), 1e-8)
  st = res.state
  s.update(o=ospec(o), fun=num(st.fun_val), counts=cnt(st, (("iter_num", None), ("num_fun_eval", 0), ("num_jac_eval", 0), ("num_hess_eval", 0))), success=bool(st.success), status=code(st.status),
           seen=seen, hess=hess(st.hess_inv))
  if bref is not None and method not in ("COBYLA", "COBYQA", "trust-constr"):  # these may end outside
    s.update(lo=vec(lo), hi=vec(hi), slack="1E-6" if method == "SLSQP" else "1E-12")
  return s


ROPT = {"broyden1": [{"maxiter": 60}], "broyden2": [{"maxiter": 60}], "anderson": [{"maxiter": 40}, {"fatol": 1e-3}], "diagbroyden": [{"maxiter": 60}], "krylov": [{"maxiter": 30}], "hybr": [{}, {"maxfev": 8}], "lm": [{}, {"maxiter": 5}],
        "df-sane": [{"maxfev": 100}]}


def root(c, r, name, j):
  import jax, jax.numpy as jnp, jaxopt, scipy.optimize as so
  x0 = tree(c["tree"], r)
  flatten, unflatten, shapes, dtypes, td = bridge(x0)
  n = len(flatten(x0))
  o = params(n, r)
  method = None if c["method"] == "none" else c["method"]
  opts = dict(ROPT.get(method, [{}])[r.randint(len(ROPT.get(method, [{}])))])
  given = copy.deepcopy(opts)
  tol = [None, 1e-4][r.randint(2)]
  fun = residual if c["form"] == "plain" else (lambda x, o: (residual(x, o), "text"[:0] or 1.0))
  sol = jaxopt.ScipyRootFinding(optimality_fun=fun, method=method, tol=tol, options=opts or None, jit=c["jit"], use_jacrev=c["extra"] == "", has_aux=c["form"] == "aux")
  res = invoke(sol, j, x0, (), o)
  f = jax.jit(residual) if c["jit"] else residual
  flat_f = lambda v: flatten(f(unflatten(v), o))
  jac = jax.jit(jax.jacobian(lambda v: cat(residual(uncat(x0, v), o))))
  m = method or "hybr"
  ref = so.root(flat_f, flatten(x0), jac=(lambda v: onp.asarray(jac(v))) if m in ("hybr", "lm") else None, tol=tol, method=m, options=given or None)
  cnt = lambda s, a, b: [code(getattr(s, a, None)), code(getattr(s, b, None))]
  s = common(x0, res.params, flatten(res.params), dict(x=vec(ref.x), fun=vec(ref.fun), counts=cnt(ref, "nit", "nfev"), success=bool(ref.success), status=code(getattr(ref, "status", None))), opts == given, 1e-6)
  st = res.state
  s.update(o=ospec(o), fun=vec(flatten(st.fun_val)), counts=cnt(st, "iter_num", "num_fun_eval"), success=bool(st.success), status=code(st.status), exact=m != "lm" or bool(ref.success))
  return s


def squares(c, r, name, j):
  import jax, jax.numpy as jnp, jaxopt, scipy.optimize as so
  x0 = tree(c["tree"], r)
  flatten, unflatten, shapes, dtypes, td = bridge(x0)
  n = len(flatten(x0))
  o = params(n, r)
  method = None if c["method"] == "none" else c["method"]
  loss = c["extra"]
  opts = [{}, {"f_scale": 0.6}, {"max_nfev": 4}, {"ftol": 1e-4, "f_scale": 1.7}, {"x_scale": "jac"}, {"x_scale": 2}, {"x_scale": unflatten(1.0 + r.rand(n))}][r.randint(7)]
  if method == "lm" and "max_nfev" in opts:
    opts = {"xtol": 1e-4}
  given = dict(opts)
  flat_opts = {k: (flatten(v) if k == "x_scale" and not isinstance(v, (str, int)) else v) for k, v in opts.items()}
  fun = residuals if c["form"] == "plain" else (lambda x, o: (residuals(x, o), {"u": cat(x)}))
  sol = getattr(jaxopt, name)(fun=fun, method=method, loss=loss, options=opts or None, jit=c["jit"], use_jacrev=bool(r.randint(2)), has_aux=c["form"] == "aux")
  bargs, bref, lo, hi = (), (-onp.inf, onp.inf), None, None
  if c["what"] == "lsb":
    bargs = (None,)
    if r.randint(4):
      lo, hi = flatten(x0) - r.rand(n) - 0.1, flatten(x0) + r.rand(n) + 0.1
      bargs, bref = ((unflatten(lo), unflatten(hi)),), (lo, hi)
  res = invoke(sol, j, x0, bargs, o)
  f = jax.jit(residuals) if c["jit"] else residuals
  jac = jax.jit(jax.jacobian(lambda v: cat(residuals(uncat(x0, v), o))))
  kw = dict(ftol=1e-8, xtol=1e-8, gtol=1e-8, x_scale=1.0, f_scale=1.0)
  kw.update(flat_opts)
  ref = so.least_squares(lambda v: flatten(f(unflatten(v), o)), flatten(x0), jac=lambda v: onp.asarray(jac(v)), bounds=bref, method=method or "trf", loss=loss, **kw)
  cnt = lambda s, a, b: [code(getattr(s, a)), code(getattr(s, b))]
  same = set(opts) == set(given) and all(opts[k] is given[k] for k in opts)
  s = common(x0, res.params, flatten(res.params), dict(x=vec(ref.x), counts=cnt(ref, "nfev", "njev"), success=bool(ref.success), status=code(ref.status), error=num(ref.optimality)), bool(same), 1e-6)
  st = res.state
  s.update(o=ospec(o), fun=vec(flatten(st.fun_val)), cost=num(st.cost_val), error=num(st.error), counts=cnt(st, "num_fun_eval", "num_jac_eval"), success=bool(st.success), status=code(st.status),
           loss=loss, fscale=num(opts.get("f_scale", 1.0)))
  if lo is not None:
    s.update(lo=vec(lo), hi=vec(hi))
  return s


def dtypes(seed):
  """float32 and mixed leaves keep their types."""
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed + 5)
  out = []
  for kind in ("single", "mixed"):
    x0 = {"u": jnp.asarray([0.5, -0.25], jnp.float32), "v": jnp.asarray([[1.0]], jnp.float64 if kind == "mixed" else jnp.float32)}
    flatten, unflatten, shapes, dts, td = bridge(x0)
    o = {k: onp.asarray(v, onp.float32) for k, v in params(3, r).items()}
    for name, mk, args in (("ScipyMinimize", lambda: jaxopt.ScipyMinimize(fun=objective, method="L-BFGS-B"), ()), ("ScipyMinimize-raw", lambda: jaxopt.ScipyMinimize(fun=objective, method="BFGS", dtype=None), ()),
                           ("ScipyBoundedMinimize", lambda: jaxopt.ScipyBoundedMinimize(fun=objective, method="L-BFGS-B"), ((unflatten(-2 * onp.ones(3)), unflatten(2 * onp.ones(3))),)),
                           ("ScipyRootFinding", lambda: jaxopt.ScipyRootFinding(optimality_fun=residual, method="hybr", tol=1e-3), ()), ("ScipyLeastSquares", lambda: jaxopt.ScipyLeastSquares(fun=residual, method="trf"), ())):
      t = dict(id=f"{name}-{kind}", site=name + "-dtype", what="min", steps=[])
      res, exc = guarded(lambda: mk().run(x0, *args, o))
      if exc:
        t["steps"].append(dict(exc=exc))
      else:
        x = flatten(res.params)
        ref = dict(x=vec(x), counts=[], success=True, status="0", seen=[], hess=[])
        s = common(x0, res.params, x, ref, True, 1.0)
        s.update(o=ospec(o), fun=num(objective(unflatten(x), {k: onp.asarray(v, float) for k, v in o.items()})), counts=[], success=True, status="0", seen=[], hess=[])
        s["o"] = {k: (vec(onp.asarray(v, float)) if k in "wa" else num(float(v))) for k, v in o.items()}
        s["fun"] = num(float(onp_objective(x, o)))
        t["steps"].append(s)
      out.append(t)
  return out


def onp_objective(v, o):
  o = {k: onp.asarray(a, float) for k, a in o.items()}
  return 0.5 * onp.sum(o["w"] * (v - o["a"]) ** 2) + 0.25 * o["s"] * onp.sum(v ** 4) + o["t"] * onp.sum(v[:-1] * v[1:])


def sharing(seed):
  """One options dictionary shared by several wrappers, made and run in every order."""
  import jax, jaxopt
  r = onp.random.RandomState(seed + 6)
  out = []
  for k in range(6):
    x0 = tree("nested", r)
    flatten, unflatten, shapes, dts, td = bridge(x0)
    n = len(flatten(x0))
    o = params(n, r)
    shared = {} if k % 2 else {"gtol": 1e-6}
    before = dict(shared)
    mk = lambda m: jaxopt.ScipyMinimize(fun=objective, method="BFGS", maxiter=m, options=shared)
    ms = [2, 40] if k % 3 else [40, 2]
    t = dict(id=f"shared-options-{k}", site="ScipyMinimize-shared", what="min", steps=[])
    sols, exc = guarded(lambda: [mk(m) for m in ms])
    if exc:
      t["steps"].append(dict(exc=exc))
    for sol, m in zip(sols or [], ms):
      res, exc = guarded(sol.run, x0, o)
      alone, exc2 = guarded(jaxopt.ScipyMinimize(fun=objective, method="BFGS", maxiter=m, options=dict(before)).run, x0, o)
      if exc or exc2:
        t["steps"].append(dict(exc=exc or exc2))
        continue
      st, s0 = res.state, alone.state
      s = common(x0, res.params, flatten(res.params), dict(x=vec(flatten(alone.params)), counts=[code(s0.iter_num)], success=bool(s0.success), status=code(s0.status), seen=[], hess=[]), shared == before, 1e-9)
      s.update(o=ospec(o), fun=num(st.fun_val), counts=[code(st.iter_num)], success=bool(st.success), status=code(st.status), seen=[], hess=[])
      s["untouched"] = bool(s["untouched"] and int(st.iter_num) <= m)
      t["steps"].append(s)
    out.append(t)
  return out
