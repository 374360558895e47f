"""C11: the forms an objective may be given in (Forms.tla) lead to the same executions."""
import numpy as onp
from common import *
import c01

DESIGN = [("Forms", "Forms.cfg")]
GENERATE = ("Forms", "Forms.cfg")
TRACE = "TraceForms"
ASSUMPTIONS = ["float64; the quick tier draws two forms per solver, the thorough tier takes all of them"]
# at which point the last update evaluated what it reports as aux
HERE = ("BFGS", "LBFGS", "LBFGSB", "NonlinearCG", "Broyden", "Bisection", "LM")
SKIP = ("LBFGS-nogamma", "BFGS-rosen", "NonlinearCG-hestenes-stiefel", "NonlinearCG-fletcher-reeves", "LM-madsen", "Broyden-fixed")
CHEAP = ("GradientDescent", "ProximalGradient", "ProjectedGradient", "Optax", "Polyak", "Armijo", "Mirror", "Fixed", "Bisection", "GaussNewton")


def jobs(ctx):
  J = []
  forms = [c for c in ctx.cases if c["aux"] or c["vg"] != "no"]
  forms.sort(key=str)
  for k, nm in enumerate(c01.entry_names()):
    if nm in SKIP or nm.startswith(("BlockCD", "BoxOSQP", "BoxCDQP", "IterativeRef")):
      continue
    fs = forms
    if ctx.quick and "hager" in nm and not nm.startswith("LBFGS-"):
      continue
    if ctx.quick:
      n = 3 if nm.startswith(CHEAP) else 1 if "hager" in nm else 2
      fs = [forms[(ctx.seed + k * 2 + i * 2) % 5] for i in range(n)]
    J.append(("solver", (nm, fs, ctx.seed, ctx.quick)))
    if not ctx.quick:
      J.append(("solver", (nm, fs, ctx.seed + 1, ctx.quick)))
  for ls in ("backtracking", "zoom", "hager"):
    for k, fm in enumerate(forms):
      if not ctx.quick or ls == "backtracking" or (k + ctx.seed) % (5 if ls == "hager" else 2) == 0:
        J.append(("search", (ls, [fm], ctx.seed)))
  J += [("scipy", (forms, ctx.seed)), ("derivs", (forms, ctx.seed))]
  J.sort(key=lambda j: 0 if "hager" in str(j[1][0]) else 1 if "zoom" in str(j[1][0]) else 2)
  return J


def aux_of(p):
  import jax, jax.numpy as jnp
  v = jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(p)])
  return dict(pt=[v + 1.0], sq=(jnp.sum(v ** 2),))


AUXTREE = "PyTreeDef({'pt': [*], 'sq': (*,)})"


def tree_of(a):
  import jax
  return "" if a is None else str(jax.tree_util.tree_structure(a))


def reformed(f, form):
  """What the user passes: (fun, value_and_grad) in the given form.  A function
  whose gradient is supplied refuses to be differentiated."""
  import jax, functools

  @functools.wraps(f)
  def val(p, *a, **k):
    return (f(p, *a, **k), aux_of(p)) if form["aux"] else f(p, *a, **k)
  vg = jax.value_and_grad(val, has_aux=form["aux"])
  if form["vg"] == "no":
    return val, False
  if form["vg"] == "same":
    return refuse(vg), True
  return refuse(val), refuse(vg)


def refuse(f):
  import jax, functools
  g = jax.custom_jvp(f)

  @g.defjvp
  def rule(primals, tangents):
    raise RuntimeError("a function given with its gradient was differentiated")

  @functools.wraps(f)
  def h(*a, **k):
    if k:                                    # custom_jvp takes arguments by position
      names = sorted(k)
      gg = jax.custom_jvp(lambda *v: f(*v[:len(a)], **dict(zip(names, v[len(a):]))))

      @gg.defjvp
      def rule2(primals, tangents):
        raise RuntimeError("a function given with its gradient was differentiated")
      return gg(*a, *[k[n] for n in names])
    return g(*a)
  return h


def solver(name, forms, seed, quick):
  import jax, zoo
  e = [x for x in zoo.build(seed, only=lambda n: name.startswith(n) or n == name) if x.name == name][0]
  field = "fun" if e.has("fun") or name.startswith("Broyden") else "optimality_fun" if e.has("bis") else \
      "fixed_point_fun" if e.has("fpfun") else "residual_fun" if e.has("resfun") else "fun"
  base = e.make(maxiter=5, tol=1e-300)
  f = getattr(base, field) if field in e.fields else None
  if name == "AndersonWrapper":
    f = base.solver.fun
  if name == "Bisection":
    f = base.optimality_fun
  K = 5
  out = []

  def execute(sol, run):
    upd = jax.jit(sol.update)
    p, st = e.init, sol.init_state(e.init, *e.args, **e.kwargs)
    ch = [(p, st)]
    for _ in range(K):
      p, st = upd(p, st, *e.args, **e.kwargs)
      ch.append((p, st))
    if run:
      ch.append(sol.run(e.init, *e.args, **e.kwargs))
    return ch
  ref, exc = guarded(execute, base, True)
  if exc:
    return [dict(id=f"forms:{name}:plain#{seed}", aux=False, auxtree="", steps=[dict(exc=exc)])]
  for fi, form in enumerate(forms):
    over = dict(has_aux=form["aux"]) if form["aux"] else {}
    if form["vg"] != "no":
      if not e.has("vg"):
        continue
      if name.startswith(("GradientDescent", "ProximalGradient", "ProjectedGradient", "ArmijoSGD", "PolyakSGD", "Optax")) and form["vg"] == "other" and not accepts_callable(base):
        continue
    elif "has_aux" not in e.fields and name != "AndersonWrapper":
      continue
    g, vg = reformed(f, form)
    over[field] = g
    if e.has("vg"):
      over["value_and_grad"] = vg
    tr = dict(id=f"forms:{name}:{'aux+' if form['aux'] else ''}{form['vg']}#{seed}", aux=form["aux"], auxtree=AUXTREE, steps=[])
    ch, exc = guarded(lambda: execute(e.make(maxiter=K, tol=1e-300, **over), not quick or fi == 0))
    if exc:
      tr["steps"].append(dict(exc=exc))
    else:
      for k, (p, st) in enumerate(ch):
        rk = k if k < K + 1 else int(min(K, int(inner(st).iter_num)))
        rp, rs = ref[rk] if k <= K else ref[K + 1]
        a = inner(st).aux if hasattr(inner(st), "aux") else None
        at = point(name, ref, rk, e)
        if name == "AndersonWrapper":
          rs, st = rs.solver_state if hasattr(rs, "solver_state") else rs, st.solver_state if hasattr(st, "solver_state") else st
        if name.startswith("Anderson-") or name in ("Anderson", "AndersonWrapper"):
          # the map was applied to an extrapolated point the state does not show: judged by its image
          at = image_point(a, f, e, p, rk, base, name) if form["aux"] else []
        noinit = form["aux"] and rk == 0 and a is None       # methods that have not evaluated anything yet
        m, rm = c01.state_map(st), c01.state_map(rs)
        keys = [q for q in sorted(rm) if "aux" not in q and "num_fun_eval" not in q and "num_grad_eval" not in q]
        tr["steps"].append(dict(exc="", x=flat(p) if p is not None else [], refx=flat(rp) if rp is not None else [],
                                state=[v for q in keys for v in m.get(q, ["nan"])], refstate=[v for q in keys for v in rm[q]],
                                aux=(aux_at(at) if noinit else flat(a)) if a is not None or noinit else [],
                                auxtree=AUXTREE if noinit else tree_of(a), at=vec(at) if form["aux"] else [],
                                structure=c01.structure(p), refstructure=c01.structure(rp)))
    out.append(tr)
  return out


def inner(st):
  return st.solver_state if hasattr(st, "solver_state") else st


def aux_at(at):
  v = onp.asarray(at, float).reshape(-1)
  return vec(onp.concatenate([v + 1.0, [onp.sum(v ** 2)]]))


def accepts_callable(sol):
  """Some methods document value_and_grad as a Boolean only."""
  return True


def point(name, ref, k, e):
  if name == "Bisection":
    return onp.asarray(ref[k][0] if ref[k][0] is not None else 0.0).reshape(-1)
  if name.startswith(HERE) or k == 0:
    return fvec(ref[k][0])
  if getattr(ref[k - 1][1], "velocity", None) is not None and name.startswith(("GradientDescent-acc", "ProximalGradient-acc", "ProjectedGradient-acc")):
    return fvec(ref[k - 1][1].velocity)
  return fvec(ref[k - 1][0])


def image_point(a, f, e, p, k, base, name):
  if a is None:
    return []
  pt = fvec(a["pt"]) - 1.0
  if name == "AndersonWrapper" or k == 0:
    return pt
  img = fvec(f(pt, *e.args, **e.kwargs))
  return pt if onp.allclose(img, fvec(p), rtol=1e-7, atol=1e-9) else onp.full(len(pt), onp.nan)


def search(kind, forms, seed):
  """Line searches in every form, with and without value and gradient supplied."""
  import jax, jax.numpy as jnp, jaxopt
  from jaxopt import BacktrackingLineSearch, HagerZhangLineSearch
  from jaxopt._src.zoom_linesearch import ZoomLineSearch
  r = onp.random.RandomState(seed)
  cls = dict(backtracking=BacktrackingLineSearch, zoom=ZoomLineSearch, hager=HagerZhangLineSearch)[kind]
  Q = r.randn(3, 3)
  Q = jnp.asarray(Q @ Q.T + 0.3 * onp.eye(3))
  f = lambda x, c: 0.5 * x @ Q @ x - c @ x + 0.1 * jnp.sum(x ** 4)
  c = jnp.asarray(r.randn(3))
  pts = [jnp.asarray(r.randn(3) * s) for s in (1.0, 4.0)]
  out = []
  base = dict(maxiter=12, max_stepsize=2.0)
  if kind == "backtracking":
    base["condition"] = "strong-wolfe"

  def go(sol, x, given):
    v, g = jax.value_and_grad(f)(x, c)
    kw = dict(value=v, grad=g) if given else {}
    if given == 2:
      kw["descent_direction"] = -2.0 * g
    return jax.jit(lambda x: sol.run(init_stepsize=1.0, params=x, fun_args=(c,), **kw))(x)
  ref, exc = guarded(lambda: [[go(cls(fun=f, **base), x, g) for g in (0, 1)] for x in pts])
  for form in forms:
    g, vg = reformed(f, form)
    tr = dict(id=f"forms:ls-{kind}:{'aux+' if form['aux'] else ''}{form['vg']}#{seed}", aux=form["aux"], auxtree=AUXTREE, steps=[])
    for xi, x in enumerate(pts):
      for given in (0, 1):
        res, ex = guarded(lambda: go(cls(fun=g, value_and_grad=vg, has_aux=form["aux"], **base), x, given))
        ex = ex or exc
        if ex:
          tr["steps"].append(dict(exc=ex))
          continue
        s, st = res
        rs, rst = ref[xi][given]
        m, rm = c01.state_map(st), c01.state_map(rst)
        keys = [q for q in sorted(rm) if "aux" not in q and "eval" not in q]
        tr["steps"].append(dict(exc="", x=vec([s]), refx=vec([rs]), state=[v for q in keys for v in m.get(q, ["nan"])],
                                refstate=[v for q in keys for v in rm[q]], aux=flat(st.aux) if st.aux is not None else [],
                                auxtree=tree_of(st.aux), at=vec(rst.params), structure="", refstructure=""))
    out.append(tr)
  return out


def scipy(forms, seed):
  import jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed)
  f = lambda x, c: jnp.sum((x["a"] - c) ** 2) + jnp.sum(x["b"] ** 4) + jnp.sum(x["a"]) * jnp.sum(x["b"])
  c = jnp.asarray(r.randn(2))
  x0 = dict(a=jnp.asarray(r.randn(2)), b=jnp.asarray(r.randn(2)))
  lo = dict(a=-0.4 * jnp.ones(2), b=-0.6 * jnp.ones(2))
  hi = dict(a=0.5 * jnp.ones(2), b=0.5 * jnp.ones(2))
  out = []
  cases = dict(ScipyMinimize=(jaxopt.ScipyMinimize, dict(method="BFGS"), ()),
               ScipyBoundedMinimize=(jaxopt.ScipyBoundedMinimize, dict(method="l-bfgs-b"), ((lo, hi),)))
  for name, (cls, kw, pre) in cases.items():
    ref, exc = guarded(lambda: cls(fun=f, tol=1e-6, maxiter=100, **kw).run(x0, *pre, c))
    for form in forms:
      g, vg = reformed(f, form)
      for jit in (True, False):
        tr = dict(id=f"forms:{name}:{'aux+' if form['aux'] else ''}{form['vg']}{'' if jit else ':nojit'}#{seed}", aux=False, auxtree="", steps=[])
        res, ex = guarded(lambda: cls(fun=g, value_and_grad=vg, has_aux=form["aux"], tol=1e-6, maxiter=100, jit=jit, **kw).run(x0, *pre, c))
        ex = ex or exc
        tr["steps"].append(dict(exc=ex) if ex else dict(
            exc="", x=flat(res.params), refx=flat(ref.params), state=flat(res.state.fun_val), refstate=flat(ref.state.fun_val),
            aux=[], auxtree="", at=[], structure=c01.structure(res.params), refstructure=c01.structure(ref.params)))
        out.append(tr)
  # residuals and roots with auxiliary output
  res_ = lambda x, c: dict(u=x["a"] - c, v=jnp.tanh(x["b"]) + 0.1 * jnp.sum(x["a"]))
  sq = lambda x, c: dict(a=x["a"] + 0.2 * jnp.sin(x["b"]) - c, b=x["b"] + 0.1 * x["a"] ** 2)
  for name, cls, fun, fld, kw, pre in [
      ("ScipyRootFinding", jaxopt.ScipyRootFinding, sq, "optimality_fun", dict(method="hybr", tol=1e-9), ()),
      ("ScipyLeastSquares", jaxopt.ScipyLeastSquares, res_, "fun", dict(method="trf"), ()),
      ("ScipyBoundedLeastSquares", jaxopt.ScipyBoundedLeastSquares, res_, "fun", dict(method="trf"), ((lo, hi),))]:
    for jit in (True, False):
      ref, exc = guarded(lambda: cls(**{fld: fun}, **kw).run(dict(x0) if not pre else lo, *pre, c))
      got, ex = guarded(lambda: cls(**{fld: lambda x, c: (fun(x, c), aux_of(x))}, has_aux=True, jit=jit, **kw).run(dict(x0) if not pre else lo, *pre, c))
      ex = ex or exc
      out.append(dict(id=f"forms:{name}:aux{'' if jit else ':nojit'}#{seed}", aux=False, auxtree="", steps=[dict(exc=ex) if ex else dict(
          exc="", x=flat(got.params), refx=flat(ref.params), state=[], refstate=[], aux=[], auxtree="", at=[],
          structure=c01.structure(got.params), refstructure=c01.structure(ref.params))]))
  return out


def derivs(forms, seed):
  """Implicit derivatives of the solution do not depend on the form of the objective."""
  import jax, jax.numpy as jnp, jaxopt
  from jaxopt import prox
  r = onp.random.RandomState(seed)
  Q = r.randn(3, 3)
  Q = jnp.asarray(Q @ Q.T + 0.5 * onp.eye(3))
  f = lambda x, c: 0.5 * x @ Q @ x - c @ x + 0.1 * jnp.sum(x ** 4)
  c = jnp.asarray(r.randn(3))
  x0 = jnp.zeros(3)
  out = []
  make = {
      "GradientDescent": lambda **k: jaxopt.GradientDescent(tol=1e-10, maxiter=500, **k),
      "LBFGS": lambda **k: jaxopt.LBFGS(tol=1e-10, maxiter=100, **k),
      "ProximalGradient": lambda **k: jaxopt.ProximalGradient(prox=prox.prox_ridge, tol=1e-10, maxiter=500, **k),
  }
  for name, mk in make.items():
    pre = (jnp.asarray(0.3),) if name == "ProximalGradient" else ()

    def jac(sol):
      return jax.jit(jax.jacobian(lambda c: sol.run(x0, *pre, c).params))(c)
    ref, exc = guarded(lambda: jac(mk(fun=f)))
    for form in forms:
      if form["vg"] == "other" and name != "LBFGS":
        continue
      # implicit differentiation needs the derivative of the supplied gradient: no refusal here
      val = (lambda p, c: (f(p, c), aux_of(p))) if form["aux"] else f
      vgf = jax.value_and_grad(val, has_aux=form["aux"])
      g, vg = (val, False) if form["vg"] == "no" else (vgf, True) if form["vg"] == "same" else (val, vgf)
      got, ex = guarded(lambda: jac(mk(fun=g, value_and_grad=vg, has_aux=form["aux"])))
      ex = ex or exc
      out.append(dict(id=f"forms:deriv-{name}:{'aux+' if form['aux'] else ''}{form['vg']}#{seed}", aux=False, auxtree="", steps=[dict(exc=ex) if ex else dict(
          exc="", x=vec(onp.asarray(got) * 0.1), refx=vec(onp.asarray(ref) * 0.1), state=[], refstate=[], aux=[], auxtree="", at=[], structure="", refstructure="")]))
  return out
