"""C18: bisection.  Every sign history TLC generates on the dyadic grid, and
real functions; see TraceBisect."""
import numpy as onp
from common import *

DESIGN = [("MCBisect", "MCBisect.cfg")]
GENERATE = ("MCBisect", "GenBisect.cfg")
TRACE = "TraceBisect"
ASSUMPTIONS = ["float64; continuous functions; a zero exactly at the lower end may be accepted or rejected"]


def jobs(ctx):
  n = 4
  J = [("replay", (ctx.cases[i::n], ctx.seed, i)) for i in range(n)]
  m = 1 if ctx.quick else 8
  return J + [(f, (ctx.seed + 50 * j,)) for j in range(m) for f in ("brackets", "batch")] + [
      ("real", (ctx.seed + 50 * j, k)) for j in range(m) for k in range(0, 9, 2)]


def step(s0, p, s1, dirn, k, fval, aux, auxwant, exc):
  d = dict(op="update", low=num(s0.low), high=num(s0.high), dir=dirn, k=k, exc=exc, fval="0", params="0", slow="0",
           shigh="0", value="0", error="0", sign="0", iter_num="0", nfe="0", aux=[], auxwant=[])
  if not exc:
    d.update(fval=num(fval), params=num(p), slow=num(s1.low), shigh=num(s1.high), value=num(s1.value), error=num(s1.error),
             sign=num(s1.sign), iter_num=num(s1.iter_num), nfe=num(s1.num_fun_eval), aux=aux, auxwant=auxwant)
  return d


def replay(cases, seed, part):
  """A piecewise linear function with exactly the generated signs."""
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed + part)
  f = lambda x, xs, ys: jnp.interp(x, xs, ys)
  out = []
  for variant in range(2):
    lo, hi = [(0.0, 16.0), (-3.0, 5.0)][variant]
    sc = (hi - lo) / 16
    mk = dict(optimality_fun=f, lower=lo, upper=hi, maxiter=4, tol=0.0, check_bracket=False)
    if variant:
      mk.update(optimality_fun=lambda x, xs, ys: (f(x, xs, ys), dict(t=2 * x)), has_aux=True)
    bis = jaxopt.Bisection(**mk)
    init, upd = jax.jit(bis.init_state), jax.jit(bis.update)
    run = jax.jit(bis.run)
    for ci, c in enumerate(cases):
      if variant and ci % 3:
        continue
      pts = [(0, -c["dir"]), (16, c["dir"])] + [(p, s) for p, s in c["visited"]]
      pts.sort()
      xs = onp.array([lo + sc * p for p, _ in pts])
      ys = onp.array([s * abs(r.choice([1.0, 1e-7, 1e5]) * (0.1 + r.rand())) for _, s in pts])
      steps, mids, vals = [], [], []
      st, exc = guarded(init, None, xs, ys)
      d = dict(op="init", check=False, low=num(lo), high=num(hi), flow=num(ys[0]), fhigh=num(ys[-1]), exc=exc,
               valueerror=False, sign="0", slow="0", shigh="0", nfe="0")
      if not exc:
        d.update(sign=num(st.sign), slow=num(st.low), shigh=num(st.high), nfe=num(st.num_fun_eval))
      steps.append(d)
      p = None
      for k in range(4):
        if exc:
          break
        res, exc = guarded(upd, p, st, xs, ys)
        if not exc:
          p1, s1 = res
          fv = float(onp.interp(float(p1), xs, ys))
          steps.append(step(st, p1, s1, c["dir"], k, fv, flat(s1.aux), vec([2 * float(p1)]) if variant else [], ""))
          mids.append(num(p1))
          vals.append(num(fv))
          p, st = p1, s1
        else:
          steps.append(step(st, None, None, c["dir"], k, 0, [], [], exc))
      res, exc = guarded(run, None, xs, ys)
      d = dict(op="run", tol="0", maxiter=4, mids=mids, vals=vals, exc=exc, params="0", error="0", iter_num="0", root="",
               low=num(lo), high=num(hi))
      if not exc:
        d.update(params=num(res.params), error=num(res.state.error), iter_num=num(res.state.iter_num))
      if mids:
        steps.append(d)
      out.append(dict(id=f"replay{variant}#{seed}-{part}-{ci}", site=f"replay{variant}", steps=steps))
  return out


def problems():
  import jax.numpy as jnp
  return [
      ("cubic", lambda x, c: x ** 3 - x - c, -1.0, 2.0, 2.0, None),
      ("decreasing", lambda x, c: c - jnp.exp(x), -3.0, 4.0, 1.7, lambda c: onp.log(c)),
      ("linear", lambda x, c: 3.0 * (x - c), -10.0, 10.0, 0.3, lambda c: c),
      ("neglinear", lambda x, c: 2.0 * (c - x), 0.0, 1.0, 0.77, lambda c: c),
      ("steep", lambda x, c: jnp.tanh(1e3 * (x - c)), -5.0, 1.0, -4.9, lambda c: c),
      ("simplex", lambda x, c: jnp.sum(jnp.maximum(c * jnp.arange(1., 5.) - x, 0)) - 1.0, -1.0, 4.5, 0.9, None),
      ("farbracket", lambda x, c: x - c, 1e5, 3e5, 123456.789, lambda c: c),
      ("tiny", lambda x, c: 1e-3 * (x - c), -1e-3, 2e-3, 1e-4, lambda c: c),
      ("odd", lambda x, c: jnp.cbrt(x - c), -2.0, 7.0, 6.3, lambda c: c),
  ]


def real(seed, part):
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed + part)
  out = []
  for name, f, lo, hi, c0, root in problems()[part:part + 2]:
    steps = []
    for variant in range(3):
      c = c0 + 0.02 * (r.rand() - 0.5) * (hi - lo) * (variant > 0)
      if name == "farbracket":
        c = c0 + r.rand() * 1e4
      fc = lambda x: float(f(jnp.asarray(x), c))
      maxiter = [40, 12, 25][variant]
      tol = float(r.choice([1e-3, 1e-6, 1e-12]))
      kw = dict(lower=lo, upper=hi, maxiter=maxiter, tol=tol)
      if variant == 1:
        kw.update(lower=jnp.asarray(lo), upper=onp.float64(hi), jit=False)
      if variant == 2:
        g = lambda x, c: (f(x, c), (x + 1, [c * x]))
        kw.update(has_aux=True)
      else:
        g = f
      bis = jaxopt.Bisection(g, **kw)
      st, exc = guarded(bis.init_state, None, c)
      d = dict(op="init", check=True, low=num(lo), high=num(hi), flow=num(fc(lo)), fhigh=num(fc(hi)), exc=exc,
               valueerror="ValueError" in exc, sign="0", slow="0", shigh="0", nfe="0")
      if not exc:
        d.update(sign=num(st.sign), slow=num(st.low), shigh=num(st.high), nfe=num(st.num_fun_eval))
      steps.append(d)
      mids, vals, p = [], [], None
      dirn = 1 if fc(hi) > 0 else -1
      upd = jax.jit(bis.update)
      for k in range(maxiter):
        if exc:
          break
        res, exc = guarded(upd, p, st, c)
        if exc:
          steps.append(step(st, None, None, dirn, k, 0, [], [], exc))
          break
        p1, s1 = res
        fv = fc(p1)
        aw = vec([float(p1) + 1, c * float(p1)]) if variant == 2 else []
        if k < 14 or k == maxiter - 1:
          steps.append(step(st, p1, s1, dirn, k, fv, flat(s1.aux), aw, ""))
        mids.append(num(p1))
        vals.append(num(fv))
        p, st = p1, s1
      res, exc2 = guarded(bis.run, None, c) if variant == 0 else guarded(lambda: bis.run(c=c))
      d = dict(op="run", tol=num(tol), maxiter=maxiter, mids=mids, vals=vals, exc=exc2, params="0", error="0", iter_num="0",
               root=num(root(c)) if root else "", low=num(lo), high=num(hi))
      if not exc2:
        d.update(params=num(res.params), error=num(res.state.error), iter_num=num(res.state.iter_num))
      if mids:
        steps.append(d)
      # derivative of the root: -f_c / f_x at the root
      kd = dict(kw, tol=1e-13, maxiter=60, check_bracket=False)
      kd.pop("jit", None)
      b2 = jaxopt.Bisection(g, **kd)
      if name in ("farbracket", "odd"):
        continue
      got, exc3 = guarded(jax.grad(lambda q: b2.run(None, q).params), c)
      d = dict(op="deriv", exc=exc3, got=[], want=[])
      if not exc3:
        x = float(b2.run(None, c).params)
        fx = float(jax.grad(f, 0)(jnp.asarray(x), c))
        fcd = float(jax.grad(f, 1)(jnp.asarray(x), c))
        d.update(got=vec([got]), want=vec([-fcd / fx]))
      steps.append(d)
    out.append(dict(id=f"{name}#{seed}", steps=steps))
  return out


def brackets(seed):
  """Valid and invalid brackets, checked or not."""
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed)
  fs = [lambda x: x, lambda x: -x, lambda x: x ** 2 + 1, lambda x: -x ** 2 - 1, lambda x: x ** 3 - 0.5,
        lambda x: jnp.log(x), lambda x: jnp.where(x > 0, 1e-300, -1e300), lambda x: 0 * x + jnp.nan,
        lambda x: 1e-9 * x]
  steps = []
  for f in fs:
    for lo, hi in [(-1.0, 2.0), (1.0, 2.0), (-2.0, -1.0), (0.5, 3.0), (-1e-6, 1e6), (0.0, 1.0), (-1.0, 0.0)]:
      for check in (True, False):
        for op in (("init", "run") if check else ("init",)):
          b = jaxopt.Bisection(f, lower=lo, upper=hi, check_bracket=check, maxiter=3)
          try:
            st, exc, ve = (b.init_state(None) if op == "init" else b.run().state), "", False
          except Exception as e:
            st, exc, ve = None, exc_name(e), isinstance(e, ValueError)
          d = dict(op="init", check=check, low=num(lo), high=num(hi), flow=num(f(jnp.asarray(lo))), fhigh=num(f(jnp.asarray(hi))),
                   exc=exc, valueerror=ve, sign="0", slow=num(lo), shigh=num(hi), nfe="2")
          if st is not None:
            d["sign"] = num(st.sign)
            if op == "init":
              d.update(slow=num(st.low), shigh=num(st.high), nfe=num(st.num_fun_eval))
          steps.append(d)
  return [dict(id=f"brackets#{seed}", steps=steps)]


def batch(seed):
  """Batches and outer jit give what single runs give."""
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed)
  steps = []
  for name, f, lo, hi, c0, root in problems()[:6]:
    cs = onp.array([c0 + 0.05 * (hi - lo) * (r.rand() - 0.5) for _ in range(4)])
    b = jaxopt.Bisection(f, lower=lo, upper=hi, check_bracket=False, maxiter=30, tol=1e-4)
    one = [b.run(None, c) for c in cs]
    want = onp.array([[float(o.params), float(o.state.error), float(o.state.low), float(o.state.high), float(o.state.iter_num)] for o in one])
    for w in (jax.vmap(lambda c: b.run(None, c)), jax.jit(jax.vmap(lambda c: b.run(None, c)))):
      o, exc = guarded(w, cs)
      d = dict(op="same", exc=exc, a=[], b=vec(want))
      if not exc:
        s = o.state
        d["a"] = vec(onp.stack([o.params, s.error, s.low, s.high, s.iter_num], 1))
      steps.append(d)
  return [dict(id=f"batch#{seed}", steps=steps)]
