"""C10: resuming, snapshots, warm restarts and reuse of one solver object.

Schedules of calls come from Resume.tla (TLC, all of length 7); every call on
the shared solver object is compared with the uninterrupted execution of a
fresh one."""
import random
import numpy as onp
from common import *
import c01

DESIGN = [("MCResume", "MCResume.cfg")]
GENERATE = ("Resume", "GenResume.cfg")
TRACE = "TraceSame"
ASSUMPTIONS = ["float64; one abstract update stands for one or two real ones; schedules are sampled by the seed from all those of length 7"]
VOLATILE = ("error", "num_", "failed", "aux", "iter_num_inner")
SLOW = ("NonlinearCG-hager-zhang", "BFGS-hager-zhang", "NonlinearCG-fletcher-reeves", "NonlinearCG-hestenes-stiefel", "LM-op-geo", "LM-mat", "BFGS-rosen",
        "BFGS-backtracking", "LBFGS-nogamma", "LBFGS-backtracking", "LBFGSB-backtracking", "ProximalGradient-plain-ls", "GradientDescent-plain-ls",
        "LBFGS-hager-zhang", "LBFGSB-zoom-capped", "ProximalGradient-plain-fixed", "ProjectedGradient-plain-fixed", "LM-madsen", "ArmijoSGD-plain")


def jobs(ctx):
  rng = random.Random(ctx.seed)
  cases = list(ctx.cases)
  rng.shuffle(cases)
  runs = [c for c in cases if any(a in ("run", "runfrom") for a, _ in c)]
  runs2 = [c for c in runs if any(a == "run" for a, _ in c) and any(j == 2 and a == "update" for a, j in c)]
  rfrom = [c for c in cases if any(a == "runfrom" and j == 1 for a, j in c)]
  upds = [c for c in cases if c not in runs]
  J = []
  k = 0
  for nm in c01.entry_names():
    if ctx.quick and nm in SLOW:
      continue
    for j in range(1 if ctx.quick else 4):
      n = 1 if ctx.quick else 4
      pick = [runs2[(k * n + i) % len(runs2)] for i in range(n)] + [rfrom[(k * n + i) % len(rfrom)] for i in range(n)] + \
             [upds[(k * 12 + i) % len(upds)] for i in range(12)]
      J.append(("replay", (nm, pick, ctx.seed + j)))
      k += 1
  J += [("scipy_reuse", (ctx.seed,))]
  J.sort(key=lambda j: 0 if "hager" in str(j[1][0]) else 1 if "zoom" in str(j[1][0]) else 2)
  return J


def obs(p, st, warm=False):
  d = c01.state_map(st)
  keys = sorted(k for k in d if not (warm and any(v in k for v in VOLATILE)))
  return dict(params=flat(p) if p is not None else [], state=[v for k in keys for v in d[k]]), [k for k in keys]


def o_params(p):
  return flat(p) if p is not None else []


def steady(a, b):
  a, b = float(a), float(b)
  return not abs(a - b) > 1e-9 + 1e-9 * abs(a)


def restrict(st, keys):
  d = c01.state_map(st)
  return [v for k in keys for v in d.get(k, ["nan"])]


def replay(name, cases, seed):
  import jax, zoo
  out = []
  E = {}
  for j in (1, 2):
    es = zoo.build(seed + 100 * (j - 1), only=lambda n: name.startswith(n) or n == name)
    E[j] = [e for e in es if e.name == name][0]
  e = E[1]
  K, u = 5, 2 if e.has("warm") or "Anderson" in name else 1
  tol = 1e-300 if not e.has("osqp") else 1e-9

  def make():
    return e.make(maxiter=K * u, tol=tol)
  jitted = e.has("ls") or "ls" in name or "Armijo" in name or "Anderson" in name or "LM" in name or "OSQP" in name or "LBFGSB" in name
  both, exc = guarded(lambda: {j: reference(make(), E[j], K * u, jitted) for j in (1, 2)})
  if exc:
    return [dict(id=f"resume:{name}#{seed}", steps=[dict(exc=exc)])]
  refs, pert = {j: both[j][0] for j in both}, {j: both[j][1] for j in both}
  sol = make()                      # the shared object
  upd = jax.jit(sol.update) if jitted else sol.update
  warm = e.has("warm")
  for ci, case in enumerate(cases):
    tr = dict(id=f"resume:{name}#{seed}.{ci}", sched=[list(c) for c in case], steps=[])
    cur, saved = {}, {}
    for a, j in case:
      if a in ("warm", "runfrom") and not warm:
        continue
      if j not in cur and a not in ("init", "run"):
        continue
      ej, ref = E[j], refs[j]
      s = dict(exc="", action=a, rtol="1E-7", atol="1E-9", structure="", ref_structure="")

      def check(p, st, pos, keys=None):
        _, ks = obs(p, st, keys is not None)
        rp, rs = ref[pos]
        keys = ks if keys is None else keys
        o, r, q = restrict(st, keys), restrict(rs, keys), restrict(pert[j][pos][1], keys)
        if len(q) == len(r) == len(o):                 # leave out what rounding-sized changes of the start already move
          ok = [i for i in range(len(r)) if steady(r[i], q[i])]
          o, r = [o[i] for i in ok], [r[i] for i in ok]
        s["obs"] = dict(params=o_params(p), state=o)
        s["ref"] = dict(params=o_params(rp), state=r)
        s["structure"], s["ref_structure"] = c01.structure(p), c01.structure(rp)

      def go():
        if a == "init":
          st = sol.init_state(ej.init, *ej.args, **ej.kwargs)
          cur[j] = (ej.init, st, 0, False)
          check(ej.init, st, 0)
        elif a == "update":
          p, st, pos, w = cur[j]
          for _ in range(u):
            p, st = upd(p, st, *ej.args, **ej.kwargs)
          cur[j] = (p, st, pos + u, w)
          check(p, st, pos + u, obs(p, st, True)[1] if w else None)
        elif a == "save":
          saved[j] = cur[j]
        elif a == "back":
          cur[j] = saved[j]
        elif a == "warm":
          from jaxopt import OptStep
          p, st, pos, _ = cur[j]
          st2 = sol.init_state(OptStep(p, st), *ej.args, **ej.kwargs)
          cur[j] = (p, st2, pos, True)
          check(p, st2, pos, obs(p, st, True)[1])
        elif a == "run":
          p, st = sol.run(ej.init, *ej.args, **ej.kwargs)
          check(p, st, stop_at(ref, 0, K * u, tol))
        elif a == "runfrom":
          from jaxopt import OptStep
          p, st, pos, _ = cur[j]
          sol2 = e.make(maxiter=K * u - pos, tol=tol)
          p, st = sol2.run(OptStep(p, st), *ej.args, **ej.kwargs)
          check(p, st, min(pos + int(st.iter_num), K * u), obs(p, st, True)[1])
      _, s["exc"] = guarded(go)
      if s["exc"] or "obs" in s:
        tr["steps"].append(s)
      if s["exc"]:
        break
    if tr["steps"]:
      out.append(tr)
  # the reference again, after everything: the recorded inputs are untouched
  s = dict(exc="", action="inputs", rtol="0", atol="0", structure="", ref_structure="")
  es = zoo.build(seed, only=lambda n: name.startswith(n) or n == name)
  e0 = [x for x in es if x.name == name][0]
  s["obs"] = dict(params=flat((e.init, e.args, e.kwargs)))
  s["ref"] = dict(params=flat((e0.init, e0.args, e0.kwargs)))
  out.append(dict(id=f"resume:{name}:inputs#{seed}", steps=[s]))
  return out


def stop_at(ref, pos, last, tol):
  """Where an uninterrupted run stops: the first position whose error is not above tol."""
  while pos < last and not float(onp.asarray(ref[pos][1].error)) <= tol:
    pos += 1
  return pos


def reference(sol, e, K, jitted):
  """The uninterrupted execution, and one whose start is moved by a few ulps."""
  import jax
  upd = jax.jit(sol.update) if jitted else sol.update
  both = []
  for eps in (0.0, 1e-14):
    p = e.init if not eps else jax.tree_util.tree_map(lambda l: l * (1 + eps) + (eps if e.has("fun") else 0.0), e.init)
    st = sol.init_state(p, *e.args, **e.kwargs)
    ref = [(p, st)]
    for _ in range(K):
      p, st = upd(p, st, *e.args, **e.kwargs)
      ref.append((p, st))
    both.append(ref)
  return both


def scipy_reuse(seed):
  """SciPy wrappers: A, B, A on one object equals fresh objects; options dictionaries are untouched."""
  import jax.numpy as jnp, jaxopt, copy
  r = onp.random.RandomState(seed)
  out = []
  f = lambda x, c: jnp.sum((x - c) ** 2) + jnp.sum(x ** 4)
  g = lambda x, c: x + 0.2 * jnp.sin(x) - c
  b = (-jnp.ones(3) * 0.4, jnp.ones(3) * 0.5)
  opts = {}
  mk = {
      "ScipyMinimize": (lambda o: jaxopt.ScipyMinimize(fun=f, method="L-BFGS-B", tol=1e-7, maxiter=50, options=o), ()),
      "ScipyBoundedMinimize": (lambda o: jaxopt.ScipyBoundedMinimize(fun=f, method="l-bfgs-b", tol=1e-7, maxiter=50, options=o), (b,)),
      "ScipyRootFinding": (lambda o: jaxopt.ScipyRootFinding(optimality_fun=g, method="hybr", tol=1e-9, options=o), ()),
      "ScipyLeastSquares": (lambda o: jaxopt.ScipyLeastSquares(fun=g, method="trf", options=o), ()),
      "ScipyBoundedLeastSquares": (lambda o: jaxopt.ScipyBoundedLeastSquares(fun=g, method="trf", options=o), (b,)),
  }
  for name, (make, pre) in mk.items():
    for given in (True, False):
      opts = (dict(ftol=1e-10) if "Minimize" in name else dict(xtol=1e-10) if "Root" in name else dict(ftol=1e-10)) if given else None
      keep = copy.deepcopy(opts)
      cs = [jnp.asarray(r.randn(3)) for _ in range(2)]
      x0 = onp.array([0.1, -0.2, 0.3])
      x0c = x0.copy()
      tr = dict(id=f"resume:{name}:{'opts' if given else 'default'}#{seed}", steps=[])
      shared, exc = guarded(make, opts)
      for k in (0, 1, 0, 1, 0):
        s = dict(exc=exc, action="run", rtol="1E-9", atol="1E-10", structure="", ref_structure="")
        if not exc:
          res, s["exc"] = guarded(shared.run, x0, *pre, cs[k])
          ref, e2 = guarded(make(copy.deepcopy(keep)).run, x0c.copy(), *pre, cs[k])
          if not s["exc"] and not e2:
            s["obs"] = dict(params=flat((res.params, x0)))
            s["ref"] = dict(params=flat((ref.params, x0c)))
            s["structure"], s["ref_structure"] = repr(opts), repr(keep)
          elif not s["exc"]:
            s["exc"] = e2
        tr["steps"].append(s)
        if s["exc"]:
          break
      out.append(tr)
  return out
