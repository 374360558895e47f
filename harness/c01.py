"""C01: run == init_state + repeated update, stopped by the documented rule."""
import numpy as onp
from common import *

DESIGN = [("MCRunLoop", "MCRunLoop.cfg")]
GENERATE = ("MCRunLoop", "GenRunLoop.cfg")
TRACE = "TraceRun"
ASSUMPTIONS = ["float64; runs are compared with the hand-made update chain to 1e-7 relative",
               "line-search-failure stopping is exercised on the solvers that offer it"]


def jobs(ctx):
  import random
  rng = random.Random(ctx.seed)
  scripts = [c for c in ctx.cases if not c["stopls"]]
  rng.shuffle(scripts)
  n = 12
  J = []
  seeds = [ctx.seed] if ctx.quick else [ctx.seed + k for k in range(4)]
  for e in entry_names():
    if ctx.quick and e in ("NonlinearCG-hager-zhang", "BFGS-hager-zhang", "NonlinearCG-fletcher-reeves", "NonlinearCG-hestenes-stiefel",
                           "LM-op-geo", "LBFGS-rosen", "BFGS-rosen"):
      continue
    for sd in seeds:
      if e.startswith(("LBFGS", "Broyden")):
        J += [("chain", (e, sd, ctx.quick, "")), ("chain", (e, sd, ctx.quick, "-stopls"))]
      else:
        J.append(("chain", (e, sd, ctx.quick)))
  for k in range(n):
    J.append(("script_runs", (scripts[k::n],)))
  # slow ones first
  J.sort(key=lambda j: (0 if "hager" in str(j[1][0]) else 1 if "zoom" in str(j[1][0]) else 2))
  return J


def entry_names():
  """Names only, without importing jax in the parent."""
  import subprocess, sys, os, json
  code = ("import sys; sys.path.insert(0, %r); import common; common.setup_jax(); import zoo, json; "
          "print(json.dumps([[e.name, sorted(e.tags)] for e in zoo.build(1)]))" % os.path.dirname(os.path.abspath(__file__)))
  out = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True)
  if out.returncode:
    raise RuntimeError(out.stderr[-2000:])
  return [n for n, _ in json.loads(out.stdout.strip().splitlines()[-1])]


def state_map(state):
  import jax
  d = {}
  for path, leaf in jax.tree_util.tree_flatten_with_path(state)[0]:
    a = onp.asarray(leaf)
    if a.dtype.kind in "US" or a.dtype == object:
      continue
    d[jax.tree_util.keystr(path)] = vec(a.astype(float))
  return d


def structure(params):
  import jax
  return str(jax.tree_util.tree_structure(params)) + str([(onp.shape(l), str(onp.asarray(l).dtype)) for l in leaves(params)])


def chain(name, seed, quick, which=None):
  import jax, zoo
  from common import guarded
  e = zoo.build(seed, only=lambda n: name.startswith(n) or n == name)
  e = [x for x in e if x.name == name][0]
  K = e.maxiter if e.name != "BoxOSQP" else 40
  variants = [("", {}, {})]
  if e.has("stopls") and e.has("ls") and not e.name.endswith("rosen"):
    variants.append(("-stopls", dict(maxls=1), dict(stop_if_linesearch_fails=True)))
  if e.has("madsen"):
    # documented rule with a tolerance that matters
    variants = [("", dict(gtol=1e-12, xtol=0.05), {}), ("-gtol", dict(gtol=3e-3, xtol=1e-12), {}),
                ("-small", dict(gtol=1e-12, xtol=0.7), {})]
  out = []
  for vname, over, runover in variants:
    if which is not None and vname != which:
      continue
    tr, ok = record_chain(e, K, over, vname, seed)
    if not ok:
      out.append(tr)
      continue
    errs = [float(x) for x in tr["errs"]]
    mids = []
    fin = sorted({x for x in errs if onp.isfinite(x) and x > 1e-9})
    for a, b in zip(fin[:-1], fin[1:]):
      if b > 1.01 * a:
        mids.append(float(onp.sqrt(a * b)))
    tiny, huge = 1e-300, 1e300
    mid = [mids[len(mids) // 2]] if mids else []
    mid2 = [mids[0]] if len(mids) > 2 else []
    slow = e.has("ls")
    plan = [(True, tiny, 0), (True, tiny, 2), (True, tiny, K), (True, huge, K), (False, tiny, 1), (False, tiny, 3 if slow else K)]
    plan += [(True, t, K) for t in mid] + [(False, t, 3 if slow else K) for t in mid2 or mid]
    plan += [(True, t, K) for t in mid2] + [(False, tiny, 0)]
    if not quick:
      plan += [(True, tiny, m) for m in range(K)] + [(False, tiny, m) for m in range(K)]
      plan += [(j, t, K) for j in (True, False) for t in mids]
    if quick and ("hager" in name or vname):
      plan = [(True, t, K) for t in mid or [tiny]] + [(False, tiny, 2)]
    elif quick and e.has("ls") and not name.endswith("zoom"):
      plan = [(True, tiny, 0), (True, tiny, K), (False, tiny, 2)] + [(True, t, K) for t in mid]
    elif quick and e.has("ls"):
      plan = plan[:4] + plan[5:7]
    if e.has("madsen"):
      plan = [(True, tiny, K), (False, tiny, K), (True, tiny, 2)]
    if e.has("bis"):
      plan = [p for p in plan if p[2] > 0]
    if e.has("osqp"):
      plan = [(True, 1e-3, 40), (True, 1e-3, 7), (True, 1e-3, 0), (False, 1e-3, 11)]
    for jit, tol, m in plan:
      s = dict(mode=f"jit={jit}", tol=num(tol), maxiter=m, stopls=bool(runover), exc="", iter_num=-1, params=[], state=[], structure="")
      def go():
        sol = e.make(maxiter=m, tol=tol, jit=jit, **over, **runover)
        return sol.run(e.init, *e.args, **e.kwargs)
      r, s["exc"] = guarded(go)
      if not s["exc"]:
        sm = state_map(r.state)
        s["iter_num"] = int(r.state.iter_num)
        s["params"] = flat(r.params)
        s["state"] = [v for k in tr["_keys"] for v in sm.get(k, [])]
        s["structure"] = structure(r.params)
      tr["steps"].append(s)
    del tr["_keys"]
    out.append(tr)
  if e.name == "Broyden-backtracking" and which == "":
    # the history size defaults to maxiter
    tr = dict(id=f"chain:Broyden-maxiter0#{seed}", kind="chain", crit="error", errs=["1"], fails=[False], rtol="0", atol="0",
              params=[flat(e.init)], states=[[]], structure=structure(e.init), iter0=0, steps=[])
    s = dict(mode="history_size=None", tol="0", maxiter=0, stopls=False, exc="", iter_num=-1, params=[], state=[], structure="")
    r, s["exc"] = guarded(lambda: e.make(maxiter=0, history_size=None).run(e.init, *e.args, **e.kwargs))
    if not s["exc"]:
      s.update(iter_num=int(r.state.iter_num), params=flat(r.params), structure=structure(r.params))
    tr["steps"].append(s)
    out.append(tr)
  return out


def record_chain(e, K, over, vname, seed):
  import jax
  tr = dict(id=f"chain:{e.name}{vname}#{seed}", kind="chain", crit="error", errs=[], fails=[], params=[], states=[],
            rtol="1E-7", atol="1E-9", structure="", iter0=0, steps=[])
  tol = 1e-3 if e.has("osqp") else 1e-300
  def go():
    sol = e.make(maxiter=K, tol=tol, **over)
    st = sol.init_state(e.init, *e.args, **e.kwargs)
    p = e.init
    ps, ss = [p], [st]
    for _ in range(K):
      p, st = sol.update(p, st, *e.args, **e.kwargs)
      ps.append(p)
      ss.append(st)
    return ps, ss
  r, exc = guarded(go)
  if exc:
    tr["steps"].append(dict(exc=exc, iter_num=0, maxiter=0, tol="0", stopls=False, params=[], state=[], structure=""))
    return tr, False
  ps, ss = r
  maps = [state_map(s) for s in ss]
  keys = [k for k in maps[0] if k in maps[1]]
  tr["_keys"] = keys
  tr["params"] = [flat(p) if p is not None else [] for p in ps]
  tr["states"] = [[v for k in keys for v in m[k]] for m in maps]
  tr["errs"] = [num(s.error) for s in ss[1:]]
  tr["fails"] = [bool(getattr(s, "failed_linesearch", False)) for s in ss[1:]]
  tr["structure"] = structure(ps[1])
  tr["iter0"] = int(ss[0].iter_num)
  if e.has("madsen"):
    tr["crit"] = "madsen"
    tr["gtol"], tr["xtol"] = num(over["gtol"]), num(over["xtol"])
    tr["ginf"] = [num(onp.max(onp.abs(fvec(s.gradient)))) for s in ss[1:]]
    tr["dnorm"] = [num(onp.linalg.norm(fvec(s.delta))) for s in ss[1:]]
    tr["pnorm"] = [num(onp.linalg.norm(fvec(p))) for p in ps[1:]]
    tr["tol_"] = "madsen"
  return tr, True


_calls = [0]


def toy():
  import dataclasses
  from typing import Any, NamedTuple
  import jax.numpy as jnp
  from jaxopt import base, OptStep

  class S(NamedTuple):
    iter_num: Any
    error: Any

  @dataclasses.dataclass(eq=False)
  class Scripted(base.IterativeSolver):
    maxiter: int = 10
    tol: float = 0.0
    jit: bool = True
    unroll: Any = "auto"
    implicit_diff: bool = True
    implicit_diff_solve: Any = None
    verbose: bool = False

    def init_state(self, init_params, script):
      return S(jnp.asarray(0), jnp.asarray(jnp.inf, script.dtype))

    def update(self, params, state, script):
      _calls[0] += 1
      return OptStep(params + 1.0, S(state.iter_num + 1, script[state.iter_num]))

    def optimality_fun(self, params, script):
      return params

  return Scripted


def script_runs(scripts):
  import jax, jax.numpy as jnp
  T = toy()
  out = []
  for c in scripts:
    tr = dict(id="script:%d:%s" % (c["maxiter"], ",".join(c["errs"])), site="script", kind="script", errs=c["errs"],
              fails=c["fails"], tol=c["tol"], stopls=False, maxiter=c["maxiter"], steps=[])
    errs = [float(x) for x in c["errs"]]
    # after the behaviour's end the script would go on with a low error
    arr = jnp.asarray((errs + [0.0] * 6)[:6])
    for mode in ((True, False, True, False), (True, True, True, False), (False, True, True, False),
                 (False, "auto", False, False), (True, "auto", False, True), (True, "auto", True, True)):
      jit, unroll, imp, outer = mode
      s = dict(mode=str(mode), exc="", iter_num=-1, calls=-1, param="nan", error="nan")
      def go():
        sol = T(maxiter=c["maxiter"], tol=float(c["tol"]), jit=jit, unroll=unroll, implicit_diff=imp)
        _calls[0] = 0
        run = jax.jit(sol.run) if outer else sol.run
        return run(jnp.asarray(0.0), arr)
      r, s["exc"] = guarded(go)
      if not s["exc"]:
        s["iter_num"] = int(r.state.iter_num)
        s["param"] = num(r.params)
        s["error"] = num(r.state.error)
        s["calls"] = _calls[0] if not jit else -1
      tr["steps"].append(s)
    out.append(tr)
  return out
