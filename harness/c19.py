"""C19: quadratic-programme solvers against QP.tla (optimality, certificates, splitting)."""
import numpy as onp
from common import *

DESIGN = [("MCQP", "MCQP.cfg")]
GENERATE = ("MCQP", "GenQP.cfg")
TRACE = "TraceQP"
ASSUMPTIONS = ["float64; 2-variable problems from the exhaustive grid of MCQP with their verdicts, random problems in 3-5 variables with planted solutions or certificates",
               "reaching a verdict is demanded of the exact (LU) variant only; the conjugate-gradient variants may end unsolved on degenerate problems but never with a wrong verdict"]
INF = onp.inf


def jobs(ctx):
  cases = {repr(c): c for c in ctx.cases}
  cases = [cases[k] for k in sorted(cases)]
  onp.random.RandomState(ctx.seed).shuffle(cases)
  J = []
  q = ctx.quick
  n = 330 if q else len(cases)
  for k in range(2 if q else 6):
    m = 2 if q else 6
    J += [("box", ("lu", cases[:n][k::m], {})), ("box", ("lu-tight", cases[n // 3:n][k::m] if q else cases[k::m], {})),
          ("box", ("cg", cases[:n][k::m] if not q else cases[-160:][k::m], {}))]
  J += [("box", (nm, cases[-120:] if q else cases[-1500:], {})) for nm in ("jacobi", "matvec-lu", "fun-cg", "slow")]
  J += [("trees", (cases[:160] if q else cases[:2000], ctx.seed)), ("eager", (cases[200:206] if q else cases[200:240],)), ("warm", (cases[300:380] if q else cases[300:1500],))]
  J += [("forms", (f, cases[400 + 100 * k:400 + 100 * k + (70 if q else 700)])) for k, f in enumerate(("mat", "matvecs", "fun", "mixed"))]
  J += [("cvxpy", (cases[700:740] if q else cases[700:1100],))]
  for j in range(1 if q else 6):
    sd = ctx.seed + 53 * j
    J += [("planted", (sd, 40)), ("split", (sd,)), ("measure", (sd,)), ("cd", (sd, cases[900:1400])), ("eqqp", (sd,))]
  return [("part", (k, fn, args)) for k, (fn, args) in enumerate(J)]


def part(k, fn, args):
  out = globals()[fn](*args)
  for t in out:
    t["id"] += f"@{k}"
  return out


def F(a):
  return onp.array([[float(v) for v in r] for r in a] if a and isinstance(a[0], (list, tuple)) else [float(v) for v in a])


def P(case):
  return {k: F(case[k]) for k in "QcAlu"}


def prob(p):
  return dict(Q=mat(p["Q"]), c=vec(p["c"]), A=mat(p["A"]), l=vec(p["l"]), u=vec(p["u"]))


def tr(tid, what):
  return dict(id=tid, site=tid.split("#")[0], what=what, steps=[])


def run_step(p, kind, must, tol, status, error, par, xs, ys):
  (x, z), y, (mu, phi) = par
  return dict(exc="", p=prob(p), kind=kind, must=must, tol=num(tol), status=int(status), error=num(error), x=flat(x), z=flat(z), y=flat(y),
              mu=flat(mu), phi=flat(phi), xs=vec(xs), ys=vec(ys))


CFG = {"lu": (dict(eq_qp_solve="lu"), True), "lu-tight": (dict(eq_qp_solve="lu", tol=1e-5, primal_infeasible_tol=1e-5, dual_infeasible_tol=1e-5), True),
       "cg": (dict(eq_qp_solve="cg"), False), "jacobi": (dict(eq_qp_solve="cg+jacobi", momentum=1.0), False),
       "slow": (dict(eq_qp_solve="lu", stepsize_updates_frequency=100, maxiter=8000), True)}


def solver(name):
  """(run(Q, c, A, l, u), tol, must) for a BoxOSQP configuration."""
  import jax, jax.numpy as jnp, jaxopt
  from jaxopt._src import base
  kw, must = CFG.get(name, CFG["cg"])
  kw = dict(kw, check_primal_dual_infeasability=True)
  if name == "matvec-lu":
    kw = dict(kw, matvec_Q=lambda Q, x: Q[0] @ x, matvec_A=lambda A, x: A[0] @ x)
    sol = jaxopt.BoxOSQP(**kw)
    f = lambda Q, c, A, l, u: sol.run(None, ((Q,), c), (A,), (l, u))
  elif name == "fun-cg":
    sol = jaxopt.BoxOSQP(fun=lambda x, po: 0.5 * jnp.vdot(x, po[0] @ x) + jnp.vdot(po[1], x) + 7.0, **kw)
    f = lambda Q, c, A, l, u: sol.run(sol.init_params(jnp.zeros(c.shape), (Q, c), A, (l, u)), (Q, c), A, (l, u))
  else:
    sol = jaxopt.BoxOSQP(**kw)
    f = lambda Q, c, A, l, u: sol.run(None, (Q, c), A, (l, u))
  return jax.jit(f), sol.tol, must


def box(name, cases, _):
  run, tol, must = solver(name)
  out = [tr("BoxOSQP-" + name, "run")]
  for c in cases:
    p = P(c)
    res, exc = guarded(run, p["Q"], p["c"], p["A"], p["l"], p["u"])
    if exc:
      out[0]["steps"].append(dict(exc=exc))
      break
    out[0]["steps"].append(run_step(p, c["kind"], must, tol, res.state.status, res.state.error, res.params, F(c["x"]), F(c["y"])))
  return split_up(out)


def split_up(out, k=40):
  """Traces of at most k steps, so that TLC can spread them over its workers."""
  r = []
  for t in out:
    for j in range(0, len(t["steps"]), k):
      r.append(dict(t, id=f"{t['id']}#{j // k}", site=t["site"], steps=t["steps"][j:j + k]))
  return r


def planted(seed, count):
  """Random problems in 3-5 variables with a planted solution, combination or ray."""
  r = onp.random.RandomState(seed * 7 + 1)
  out = {}
  runs = {nm: solver(nm) for nm in ("lu", "cg")}
  for k in range(count):
    n, m = ((3, 4), (5, 3), (4, 6))[k % 3]
    kind = ("solved", "solved", "infeasible", "unbounded")[r.randint(4)]
    B = r.randint(-2, 3, (n, n)) / 2.0
    Q = B @ B.T / n + (0.5 * onp.eye(n) if r.randint(2) else 0)
    A = r.randint(-2, 3, (m, n)) / 1.0
    x, y = r.randint(-3, 4, n) / 2.0, onp.where(r.rand(m) < 0.5, r.randint(-4, 5, m) / 2.0, 0)
    if kind == "unbounded":
      d = onp.zeros(n)
      d[r.randint(n)] = 1.0
      T = onp.eye(n) - onp.outer(d, d)
      Q, A = T @ Q @ T, A
      y = 0 * y
    z = A @ x
    l, u = z - 0.5 - r.rand(m) * 2, z + 0.5 + r.rand(m) * 2
    l = onp.where(y < 0, z, l)
    u = onp.where(y > 0, z, u)
    eq = (y != 0) & (r.rand(m) < 0.3)
    l, u = onp.where(eq, z, l), onp.where(eq, z, u)
    l = onp.where((y >= 0) & ~eq & (r.rand(m) < 0.3), -INF, l)
    u = onp.where((y <= 0) & ~eq & (r.rand(m) < 0.3), INF, u)
    c = -(Q @ x + A.T @ y)
    if kind == "infeasible":
      w = r.randint(1, 3, m - 1) * r.choice([-1.0, 1.0], m - 1)
      A[-1] = w @ A[:-1]
      lo, hi = onp.where(onp.isfinite(l), l, z - 3), onp.where(onp.isfinite(u), u, z + 3)
      l[:-1], u[:-1] = lo[:-1], hi[:-1]
      top = onp.where(w > 0, w * hi[:-1], w * lo[:-1]).sum()
      l[-1], u[-1] = top + 1.0, INF
      if not onp.any(A[-1]):
        continue
    if kind == "unbounded":
      w = A @ d
      u, l = onp.where(w > 0, INF, u), onp.where(w < 0, -INF, l)
      c = c - 1.0 * d
    p = dict(Q=Q, c=c, A=A, l=l, u=u)
    for nm, (run, tol, must) in runs.items():
      t = out.setdefault(nm, tr("BoxOSQP-planted-" + nm, "run"))
      res, exc = guarded(run, Q, c, A, l, u)
      t["steps"].append(dict(exc=exc) if exc else run_step(p, kind, must and kind == "solved", tol, res.state.status, res.state.error, res.params, x, y))
  return split_up(list(out.values()), 20)


def trees(cases, seed):
  """Two problems as one problem on a tree."""
  import jax, jaxopt, scipy.linalg as sl
  by = {}
  for c in cases:
    by.setdefault(c["kind"], []).append(c)
  out = []
  for nm in ("lu", "cg", "cg+jacobi"):
    sol = jaxopt.BoxOSQP(eq_qp_solve=nm, check_primal_dual_infeasability=True)
    run = jax.jit(lambda Q, c, A, l, u: sol.run(None, (Q, c), A, (l, u)))
    t = tr("BoxOSQP-tree-" + nm, "run")
    S = by.get("solved", [])
    pairs = list(zip(S[::2], S[1::2])) + list(zip(S, by.get("infeasible", [])))[:25] + list(zip(by.get("unbounded", []), S[3:]))[:25]
    for a, b in pairs:
      pa, pb = P(a), P(b)
      tree = {k: {"u": pa[k], "v": pb[k]} for k in "QcAlu"}
      both = {k: (sl.block_diag(pa[k], pb[k]) if k in "QA" else onp.concatenate([pa[k], pb[k]])) for k in "QcAlu"}
      kind = b["kind"] if a["kind"] == "solved" else a["kind"]
      res, exc = guarded(run, *(tree[k] for k in "QcAlu"))
      t["steps"].append(dict(exc=exc) if exc else run_step(both, kind, nm == "lu" and kind == "solved", sol.tol, res.state.status, res.state.error, res.params,
                                                          onp.concatenate([F(a["x"]), F(b["x"])]), onp.concatenate([F(a["y"]), F(b["y"])])))
    out.append(t)
  return split_up(out)


def eager(cases):
  """Not compiled: infeasibility is an exception."""
  import jaxopt
  t = tr("BoxOSQP-eager", "run")
  for c in cases:
    p = P(c)
    sol = jaxopt.BoxOSQP(eq_qp_solve="lu", jit=False, maxiter=60)
    res, exc = guarded(sol.run, None, (p["Q"], p["c"]), p["A"], (p["l"], p["u"]))
    if exc:
      st = 3 if "Primal infeasible" in exc else 2 if "Dual infeasible" in exc else -1
      z = onp.zeros(2)
      t["steps"].append(dict(exc=exc) if st < 0 else run_step(p, c["kind"], False, sol.tol, st, 0, ((z, z), z, (z, z)), z, z))
    else:
      # an infeasible problem must not come back as if nothing had happened
      t["steps"].append(run_step(p, c["kind"], False, sol.tol, res.state.status, res.state.error, res.params, F(c["x"]), F(c["y"])))
  return [t]


def warm(cases):
  """Started at the solution the first run returned."""
  import jax, jaxopt
  out = []
  for nm in ("lu", "cg"):
    sol = jaxopt.BoxOSQP(eq_qp_solve=nm, check_primal_dual_infeasability=True)
    run = jax.jit(lambda Q, c, A, l, u: sol.run(None, (Q, c), A, (l, u)))
    again = jax.jit(lambda i, Q, c, A, l, u: sol.run(i, (Q, c), A, (l, u)))
    t = tr("BoxOSQP-warm-" + nm, "run")
    for c in cases:
      if c["kind"] != "solved":
        continue
      p = P(c)
      a = [p[k] for k in "QcAlu"]
      res, exc = guarded(run, *a)
      if not exc and int(res.state.status) == 1:
        res, exc = guarded(again, res.params, *a)
        must = True
      else:
        must = False
      t["steps"].append(dict(exc=exc) if exc else run_step(p, "solved", must, sol.tol, res.state.status, res.state.error, res.params, F(c["x"]), F(c["y"])))
    out.append(t)
  return split_up(out)


# ------------------------------------------------- separate equalities/inequalities
def separate(p):
  """E x = b and G x <= h equivalent to l <= A x <= u."""
  E, b, G, h = [], [], [], []
  for a, l, u in zip(p["A"], p["l"], p["u"]):
    if l == u:
      E.append(a), b.append(l)
      continue
    if onp.isfinite(u):
      G.append(a), h.append(u)
    if onp.isfinite(l):
      G.append(-a), h.append(-l)
  return onp.array(E).reshape(-1, len(p["c"])), onp.array(b), onp.array(G).reshape(-1, len(p["c"])), onp.array(h)


def form_step(p, sep, kind, must, tol, status, par, xs, ys):
  E, b, G, h = sep
  x, y, mu = par
  return dict(exc="", q=dict(Q=mat(p["Q"]), c=vec(p["c"]), E=mat(E), b=vec(b), G=mat(G), h=vec(h)), kind=kind, must=must, tol=num(tol), status=int(status),
              x=flat(x), y=flat(y), mu=flat(mu), noney=y is None, nonemu=mu is None, xs=vec(xs), ys=vec(ys))


def forms(form, cases):
  import jax, jax.numpy as jnp, jaxopt
  from jaxopt._src.base import KKTSolution
  kw = dict(check_primal_dual_infeasability=True)
  if form == "mat":
    sol = jaxopt.OSQP(eq_qp_solve="lu", **kw)
  elif form == "matvecs":
    sol = jaxopt.OSQP(matvec_Q=lambda q, x: q @ x, matvec_A=lambda a, x: a @ x, matvec_G=lambda g, x: g[0] @ x, **kw)
  elif form == "mixed":
    sol = jaxopt.OSQP(matvec_G=lambda g, x: 2.0 * (g[0] @ x), **kw)
  else:
    sol = jaxopt.OSQP(fun=lambda x, po: 0.5 * jnp.vdot(x, po["Q"] @ x) + jnp.vdot(po["c"], x) - 3.0, **kw)

  @jax.jit
  def run(Q, c, eq, ineq):
    obj = dict(Q=Q, c=c) if form == "fun" else (Q, c)
    if ineq is not None and form in ("matvecs", "mixed"):
      ineq = ((ineq[0] / (2.0 if form == "mixed" else 1.0),), ineq[1])
    init = sol.init_params(jnp.zeros(c.shape), obj, eq, ineq) if form == "fun" else None
    return sol.run(init, params_obj=obj, params_eq=eq, params_ineq=ineq)

  t = tr("OSQP-" + form, "form")
  for c in cases:
    p = P(c)
    E, b, G, h = sep = separate(p)
    if form == "matvecs" and (len(b) == 0 or len(h) == 0):
      continue
    if form == "mixed" and len(h) == 0:
      continue
    res, exc = guarded(run, p["Q"], p["c"], (E, b) if len(b) else None, (G, h) if len(h) else None)
    t["steps"].append(dict(exc=exc) if exc else form_step(p, sep, c["kind"], form == "mat", 1e-3, res.state.status, res.params, F(c["x"]), F(c["y"])))
  return split_up([t])


def cvxpy(cases):
  import jaxopt
  t = tr("CvxpyQP", "form")
  for k, c in enumerate(cases):
    p = P(c)
    E, b, G, h = sep = separate(p)
    sol = jaxopt.CvxpyQP()
    res, exc = guarded(sol.run, None, (p["Q"], p["c"]), (E, b) if len(b) else None, (G, h) if len(h) else None)
    if exc:
      st = 3 if "infeasible" in exc else 2 if "unbounded" in exc else -1
      t["steps"].append(dict(exc=exc) if st < 0 else form_step(p, sep, c["kind"], False, 1e-3, st, (onp.zeros(2), None, None), [], []))
    else:
      t["steps"].append(form_step(p, sep, c["kind"], True, 1e-3, 1, res.params, F(c["x"]), F(c["y"])))
  return split_up([t])


def eqqp(seed):
  """Equality constraints only."""
  import jax, jax.numpy as jnp, jaxopt
  from jaxopt._src.base import KKTSolution
  r = onp.random.RandomState(seed * 3 + 2)
  out = {}
  n, m = 4, 2
  z = KKTSolution(jnp.zeros(n), jnp.zeros(m), None)
  fun = lambda x, po: 0.5 * jnp.vdot(x, po["Q"] @ x) + jnp.vdot(po["c"], x) + 11.0
  tfun = lambda x, po: fun(jnp.concatenate([x["u"], x["v"]]), po)
  tz = KKTSolution(dict(u=jnp.zeros(1), v=jnp.zeros(3)), jnp.zeros(m), None)
  cat = lambda x: jnp.concatenate([x["u"], x["v"]])
  EQ = jaxopt.EqualityConstrainedQP
  mk = {
      "mat": (lambda **k: EQ(**k), lambda s, Q, c, A, b: s.run(None, (Q, c), (A, b))),
      "init": (lambda **k: EQ(**k), lambda s, Q, c, A, b: s.run(KKTSolution(jnp.ones(n), -jnp.ones(m), None), (Q, c), (A, b))),
      "matvec": (lambda **k: EQ(matvec_Q=lambda q, x: q["Q"] @ x, matvec_A=lambda a, x: a[0] @ x, **k), lambda s, Q, c, A, b: s.run(None, (dict(Q=Q), c), ((A,), b))),
      "fun": (lambda **k: EQ(fun=fun, **k), lambda s, Q, c, A, b: s.run(z, dict(Q=Q, c=c), (A, b))),
      "fun-tree": (lambda **k: EQ(fun=tfun, matvec_A=lambda a, x: a @ cat(x), **k), lambda s, Q, c, A, b: s.run(tz, dict(Q=Q, c=c), (A, b))),
  }
  for nm, (make, call) in mk.items():
    for reg in (0.0, 0.01):
      sol = make(refine_regularization=reg, refine_maxiter=40)
      run = jax.jit(lambda *a: call(sol, *a))
      t = out.setdefault((nm, reg), tr(f"EqualityConstrainedQP-{nm}{'-refined' if reg else ''}", "form"))
      for k in range(4):
        M = r.randn(n, n)
        Q = M @ M.T / n + 0.3 * onp.eye(n) if k != 2 else onp.diag([1.0, 1.0, 0.0, 2.0])
        A, x, y = r.randn(m, n), r.randn(n), r.randn(m)
        if k == 3 and not reg:
          A[1] = 2 * A[0]
        c, b = -(Q @ x + A.T @ y), A @ x
        p = dict(Q=Q, c=c)
        res, exc = guarded(run, Q, c, A, b)
        sep = (A, b, onp.zeros((0, n)), onp.zeros(0))
        t["steps"].append(dict(exc=exc) if exc else form_step(p, sep, "solved", True, 1e-3, 1, res.params, x, y))
  return list(out.values())


# ------------------------------------------------------------- single iterations
def split(seed):
  """BoxOSQP.update step by step from arbitrary iterates."""
  import jax, jax.numpy as jnp, jaxopt
  from jaxopt._src.base import KKTSolution
  r = onp.random.RandomState(seed * 5 + 3)
  out = []
  for k in range(6):
    n, m = ((3, 4), (2, 2), (4, 2))[k % 3]
    how = ("lu", "cg", "cg+jacobi")[k % 3] if k < 3 else ("matvec", "fun", "lu")[k % 3]
    kw = dict(momentum=float(r.choice([1.0, 1.6, 0.7])), sigma=float(r.choice([1e-6, 1e-2])), rho_start=float(r.choice([0.1, 2.0])),
              stepsize_updates_frequency=int(r.choice([3, 4, 10])), termination_check_frequency=int(r.choice([1, 2, 5])), rho_min=1e-3, rho_max=50.0, tol=1e-9,
              check_primal_dual_infeasability=False)
    if how == "matvec":
      sol = jaxopt.BoxOSQP(matvec_Q=lambda Q, x: Q @ x, matvec_A=lambda A, x: A @ x, **kw)
    elif how == "fun":
      sol = jaxopt.BoxOSQP(fun=lambda x, po: 0.5 * jnp.vdot(x, po[0] @ x) + jnp.vdot(po[1], x), **kw)
    else:
      sol = jaxopt.BoxOSQP(eq_qp_solve=how, **kw)
    B = r.randn(n, n - 1)
    Q, c, A = B @ B.T, r.randn(n), r.randn(m, n)
    l = -r.rand(m)
    u = l + onp.where(r.rand(m) < 0.3, 0.0, r.rand(m) * 2)
    if not (l == u).all():
      i = onp.flatnonzero(l < u)[0]
      u[i] = INF
    p = dict(Q=Q, c=c, A=A, l=l, u=u)
    args = ((Q, c), A, (l, u))
    if k < 3:
      par = sol.init_params(jnp.asarray(r.randn(n)), *args)
    else:
      y = jnp.asarray(r.randn(m))
      par = KKTSolution((jnp.asarray(r.randn(n)), jnp.asarray(r.randn(m))), y, (jnp.maximum(y, 0), jnp.maximum(-y, 0)))
    st, upd = sol.init_state(par, *args), jax.jit(sol.update)
    t = tr(f"BoxOSQP-update-{how}#{k}", "split")
    for _ in range(9 if how == "lu" else 7):
      e = float(max(onp.abs(fvec(st.primal_residuals)).max(), onp.abs(fvec(st.dual_residuals)).max()))
      if how != "lu" and e < 1e-3:
        break  # the inner tolerance of CG follows the residuals
      res, exc = guarded(upd, par, st, *args)
      if exc:
        t["steps"].append(dict(exc=exc))
        break
      p1, s1 = res
      (x, z), (x1, z1) = par.primal, p1.primal
      loose = how != "lu"
      if not loose:
        t["steps"].append(dict(exc="", p=prob(p), x=flat(x), z=flat(z), y=flat(par.dual_eq), rho=num(st.rho_bar), sigma=num(kw["sigma"]), relax=num(kw["momentum"]),
                               x1=flat(x1), z1=flat(z1), y1=flat(p1.dual_eq), n=int(st.iter_num), n1=int(s1.iter_num), rp=flat(s1.primal_residuals), rd=flat(s1.dual_residuals),
                               rfreq=kw["stepsize_updates_frequency"], tfreq=kw["termination_check_frequency"], rmin=num(kw["rho_min"]), rmax=num(kw["rho_max"]),
                               rho1=num(s1.rho_bar), e=num(st.error), e1=num(s1.error), st=int(st.status), st1=int(s1.status), tol=num(kw["tol"])))
      par, st = p1, s1
    if t["steps"]:
      out.append(t)
  return out


def measure(seed):
  """l2_optimality_error at arbitrary primal and dual points."""
  import jax.numpy as jnp, jaxopt
  from jaxopt._src.base import KKTSolution
  r = onp.random.RandomState(seed * 5 + 4)
  out = []
  n = 3
  for k in range(6):
    M = r.randn(n, n)
    Q, c, E, b, G, h = M @ M.T, r.randn(n), r.randn(1, n), r.randn(1), r.randn(2, n), r.randn(2)
    x, y, mu, phi, z = r.randn(n), r.randn(1), r.rand(2), r.rand(2), r.randn(2)
    q = dict(Q=mat(Q), c=vec(c), E=mat(E), b=vec(b), G=mat(G), h=vec(h))
    base = dict(exc="", box=False, p=prob(dict(Q=Q, c=c, A=G, l=h - 1, u=h)), q=q, x=vec(x), y=vec(y), mu=vec(mu), z=vec(z), phi=vec(phi))
    J = [jnp.asarray(v) for v in (x, y, mu)]

    def add(tid, f, **k):
      v, exc = guarded(f)
      t = tr(tid, "measure")
      t["id"] += f"#{len(out)}"
      t["steps"].append(dict(exc=exc) if exc else dict(base, l2=num(v), **k))
      out.append(t)
    none = dict(q, G=[], h=[]), dict(q, E=[], b=[])
    cv = jaxopt.CvxpyQP()
    add("CvxpyQP-l2", lambda: cv.l2_optimality_error(KKTSolution(*J), (Q, c), (E, b), (G, h)))
    add("CvxpyQP-l2-ineq", lambda: cv.l2_optimality_error(KKTSolution(J[0], None, J[2]), (Q, c), None, (G, h)), q=none[1], y=[])
    add("CvxpyQP-l2-eq", lambda: cv.l2_optimality_error(KKTSolution(J[0], J[1], None), (Q, c), (E, b), None), q=none[0], mu=[])
    eqp = jaxopt.EqualityConstrainedQP()
    add("EqualityConstrainedQP-l2", lambda: eqp.l2_optimality_error(KKTSolution(J[0], J[1], None), (Q, c), (E, b)), q=none[0], mu=[])
    eqf = jaxopt.EqualityConstrainedQP(fun=lambda w, po: 0.5 * jnp.vdot(w, po["Q"] @ w) + po["c"] @ w + 2.0)
    add("EqualityConstrainedQP-l2-fun", lambda: eqf.l2_optimality_error(KKTSolution(J[0], J[1], None), dict(Q=Q, c=c), (E, b)), q=none[0], mu=[])
    osqp = jaxopt.OSQP()
    add("OSQP-l2-ineq", lambda: osqp.l2_optimality_error(KKTSolution(J[0], None, J[2]), (Q, c), None, (G, h)), q=none[1], y=[])
    bx = jaxopt.BoxOSQP()
    yz = jnp.asarray(r.randn(2))
    lo = onp.where(onp.arange(2) == k % 3, -INF, h - 1)
    up = onp.where(onp.arange(2) == (k + 1) % 3, INF, h)
    add("BoxOSQP-l2", lambda: bx.l2_optimality_error(KKTSolution((J[0], jnp.asarray(z)), yz, (jnp.asarray(mu), jnp.asarray(phi))), (Q, c), G, (lo, up)),
        box=True, y=vec(yz), p=prob(dict(Q=Q, c=c, A=G, l=lo, u=up)))
  return out


def cd(seed, cases):
  """Coordinate descent over a box."""
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed * 5 + 5)
  out = []
  ps = [P(c) for c in cases if c["A"] == [["1", "0"], ["0", "1"]] and "inf" not in c["u"] and "-inf" not in c["l"]][:12]
  for k in range(8):
    n = 4
    B = r.randn(n, n - k % 2)
    Q = B @ B.T
    if k % 4 == 3:
      Q[1], Q[:, 1] = 0, 0
    l = -r.rand(n)
    u = l + onp.where(r.rand(n) < 0.2, 0.0, 2 * r.rand(n))
    if k % 4 == 0:
      u[0], l[1] = INF, -INF
    ps.append(dict(Q=Q, c=2 * r.randn(n), A=onp.eye(n), l=l, u=u))
  sols = {}
  for k, p in enumerate(ps):
    n = len(p["c"])
    tol = 1e-4
    sol = jaxopt.BoxCDQP(tol=tol, maxiter=400)
    upd = sols.setdefault(n, jax.jit(sol.update))
    args = ((jnp.asarray(p["Q"]), jnp.asarray(p["c"])), (jnp.asarray(p["l"]), jnp.asarray(p["u"])))
    t = tr(f"BoxCDQP#{k}", "cd")
    x = jnp.clip(jnp.asarray(3 * r.randn(n)), *args[1]) if k % 2 else jnp.asarray(3 * r.randn(n))
    st = sol.init_state(x, *args)
    for j in range(300):
      res, exc = guarded(upd, x, st, *args)
      if exc:
        t["steps"].append(dict(exc=exc))
        break
      x1, s1 = res
      fin = float(s1.error) <= tol
      if j < 6 or fin:
        t["steps"].append(dict(exc="", p=prob(p), x=flat(x), x1=flat(x1), e1=num(s1.error), n=int(st.iter_num), n1=int(s1.iter_num), final=bool(fin), tol=num(tol)))
      x, st = x1, s1
      if fin:
        break
    out.append(t)
  return out
