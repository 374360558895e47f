"""C02: the execution modes of Modes.tla give what the reference mode gives."""
import contextlib
import os
import random
import numpy as onp
from common import *
import c01
import c10

DESIGN = [("Modes", "Modes1.cfg")]
DESIGN_THOROUGH = [("Modes", "Modes1.cfg"), ("Modes", "Modes4.cfg")]
GENERATE = ("Modes", "Modes.cfg")
TRACE = "TraceSame"
ASSUMPTIONS = ["float64; the quick tier draws modes per solver (always one batched, one uncompiled and one unrolled), the thorough tier takes them all",
               "tolerances are placed between consecutive errors, so that rounding does not decide an iteration",
               "state entries that rounding-sized changes of the start already move are left out"]
SKIP = ("LBFGS-nogamma", "BFGS-rosen", "LBFGS-rosen", "NonlinearCG-hestenes-stiefel", "NonlinearCG-fletcher-reeves", "LM-madsen", "LM-op-geo", "LM-mat")
SLOW = ("hager", "zoom", "LBFGSB")


def jobs(ctx):
  rng = random.Random(ctx.seed)
  modes = list(ctx.cases)
  rng.shuffle(modes)
  kinds = [[m for m in modes if m["outer"].startswith("vmap") and m["unroll"] != "yes"], [m for m in modes if not m["jit"] and not m["verbose"]],
           [m for m in modes if m["jit"] and m["unroll"] == "yes" and m["outer"] != "vmap"],
           [m for m in modes if not m["imp"] and m["unroll"] != "yes" and m["jit"] and m["outer"] in ("none", "jit")],
           [m for m in modes if m["verbose"]], [m for m in modes if m["outer"].startswith("vmap") and m["unroll"] == "yes"]]
  J, k = [], 0
  for nm in c01.entry_names():
    if nm in SKIP and ctx.quick:
      continue
    if ctx.quick:
      hz = "hager" in nm
      if hz and not nm.startswith("LBFGS-"):
        continue
      pick = [kinds[0][k % len(kinds[0])], kinds[2 + (k % 4)][(k // 4) % len(kinds[2 + (k % 4)])]]
      if not hz:
        pick.append(kinds[1][k % len(kinds[1])])
      if nm.startswith("LBFGSB-"):
        pick = pick[k % 2:][:2]
      if not any(s in nm for s in SLOW):
        pick += [kinds[2 + ((k + 1) % 4)][k % len(kinds[2 + ((k + 1) % 4)])]]
      J.append(("solver", (nm, [m for j, m in enumerate(pick) if m not in pick[:j]], ctx.seed)))
    else:
      for part in range(3):
        J.append(("solver", (nm, modes[part::3], ctx.seed)))
    k += 1
  for ls in ("backtracking", "zoom", "hager"):
    for v in range(3) if not ctx.quick else ((ctx.seed % 3,) if ls == "hager" else (ctx.seed % 3, (ctx.seed + 1) % 3)):
      J.append(("search", (ls, v, ctx.seed)))
  J.append(("loops", (ctx.seed,)))
  names = [n for n in c01.entry_names() if not (ctx.quick and (n in SKIP and "LM" not in n or "hager" in n or "LBFGSB" in n))]
  J += [("carried", (names[j::6], ctx.seed)) for j in range(6)]
  J.sort(key=lambda j: 0 if "hager" in str(j[1][0]) else 1 if "zoom" in str(j[1][0]) else 2)
  return J


@contextlib.contextmanager
def quiet():
  """Verbose output is part of the mode, not of what is compared."""
  import sys
  sys.stdout.flush()
  keep = os.dup(1)
  nul = os.open(os.devnull, os.O_WRONLY)
  os.dup2(nul, 1)
  try:
    yield
  finally:
    import jax
    jax.effects_barrier()
    sys.stdout.flush()
    os.dup2(keep, 1)
    os.close(keep)
    os.close(nul)


def label(m):
  return ("jit" if m["jit"] else "nojit") + "-" + m["unroll"] + ("" if m["imp"] else "-noimp") + ("-verbose" if m["verbose"] else "") + "-" + m["outer"]


def overrides(m, e):
  d = dict(jit=m["jit"], unroll=dict(auto="auto", yes=True, no=False)[m["unroll"]])
  if "implicit_diff" in e.fields:
    d["implicit_diff"] = m["imp"]
  if m["verbose"]:
    d["verbose"] = 1
  if e.has("bis"):
    d["check_bracket"] = False
  return {k: v for k, v in d.items() if k in e.fields}


def pick_tol(refs, K, floor):
  """A tolerance between consecutive errors of every lane, reached at different times."""
  es = [[float(onp.asarray(st.error)) for _, st in ref[0][1:K + 1]] for ref in refs]
  best, bt = -1.0, 1e-300
  cand = sorted({e for l in es for e in l if onp.isfinite(e) and e > floor})
  for a, b in zip(cand, cand[1:]):
    if b > a * (1 + 1e-4):
      t = float(onp.sqrt(a * b))
      stops = [next((i for i, v in enumerate(l) if not v > t), K) for l in es]
      score = len(set(stops)) + 0.1 * sum(0 < s < K for s in stops) + 0.05 * min(1.0, onp.log10(b / a))
      if score > best:
        best, bt = score, t
  return bt


def solver(name, modes, seed):
  import jax, jax.numpy as jnp, zoo
  lanes = [[x for x in zoo.build(seed + 100 * j, only=lambda n: name.startswith(n) or n == name) if x.name == name][0] for j in range(3)]
  e = lanes[0]
  K = 6 if not e.has("osqp") else 40
  refs, exc = guarded(lambda: [c10.reference(e.make(maxiter=K, tol=1e-300 if not e.has("osqp") else 1e-12, **({"check_bracket": False} if e.has("bis") else {})), l, K, True) for l in lanes])
  if exc:
    return [dict(id=f"modes:{name}:reference#{seed}", steps=[dict(exc=exc)])]
  tol = pick_tol(refs, K, 1e-7)
  out = []
  for m in modes:
    tr = dict(id=f"modes:{name}:{label(m)}#{seed}", steps=[])
    try:
      with quiet():
        sol = e.make(maxiter=K, tol=tol, **overrides(m, e))
        run = lambda i, a, k: sol.run(i, *a, **k)
        if m["outer"].startswith("vmap"):
          st_ = lambda *ls: jnp.stack([jnp.asarray(l) for l in ls])
          I, A, Kw = (jax.tree_util.tree_map(st_, *[x for x in q]) for q in ([l.init for l in lanes], [l.args for l in lanes], [l.kwargs for l in lanes]))
          f = jax.vmap(run)
          res = (jax.jit(f) if m["outer"] == "vmapjit" else f)(I, A, Kw)
          got = [jax.tree_util.tree_map(lambda v: v[j], res) for j in range(3)]
        else:
          f = jax.jit(run) if m["outer"] == "jit" else run
          got = [f(lanes[0].init, lanes[0].args, lanes[0].kwargs)]
          if m["jit"]:
            got.append(f(lanes[1].init, lanes[1].args, lanes[1].kwargs))
      exc = ""
    except Exception as ex:
      exc = exc_name(ex)
    if exc:
      tr["steps"].append(dict(exc=exc))
      out.append(tr)
      continue
    for j, (p, st) in enumerate(got):
      ref, pert = refs[j]
      pos = first_stop(ref, K, tol)
      rp, rs = ref[pos]
      o, r, q = (c01.state_map(x) for x in (st, rs, pert[pos][1]))
      keys = sorted(k for k in r if not (e.has("osqp") and k == ".status"))     # OSQP's status says whether tol was met; the reference has another tol
      ov, rv, qv = ([v for k in keys for v in d.get(k, ["nan"])] for d in (o, r, q))
      if len(ov) == len(rv) == len(qv):
        ok = [i for i in range(len(rv)) if c10.steady(rv[i], qv[i])]
        ov, rv = [ov[i] for i in ok], [rv[i] for i in ok]
      tr["steps"].append(dict(exc="", lane=j, rtol="1E-6", atol="1E-8", obs=dict(params=flat(p), state=ov), ref=dict(params=flat(rp), state=rv),
                              structure=str(jax.tree_util.tree_structure((p, st.iter_num))), ref_structure=str(jax.tree_util.tree_structure((rp, rs.iter_num)))))
    out.append(tr)
  return out


def carried(names, seed):
  """The state is a loop carry: init_state, then lax.scan over update."""
  import jax, jax.numpy as jnp, zoo
  out = []
  for name in names:
    e = [x for x in zoo.build(seed, only=lambda n: name.startswith(n) or n == name) if x.name == name][0]
    K = 4
    over = dict(maxiter=K, tol=1e-300 if not e.has("osqp") else 1e-12)
    if e.has("bis"):
      over["check_bracket"] = False
    ref, exc = guarded(lambda: c10.reference(e.make(**over), e, K, True))
    sol = e.make(**over)

    def go():
      st = sol.init_state(e.init, *e.args, **e.kwargs)
      return jax.jit(lambda c: jax.lax.scan(lambda c, _: (tuple(sol.update(c[0], c[1], *e.args, **e.kwargs)), None), c, None, length=K)[0])((jnp.zeros(()) if e.init is None else e.init, st))
    got, ex = guarded(go)
    ex = exc or ex
    tr = dict(id=f"modes:{name}:scan#{seed}", steps=[])
    if ex:
      tr["steps"].append(dict(exc=ex))
    else:
      (p, st), (rp, rs), (_, qs) = got, ref[0][K], ref[1][K]
      o, r, q = (c01.state_map(x) for x in (st, rs, qs))
      keys = sorted(r)
      ov, rv, qv = ([v for k in keys for v in d.get(k, ["nan"])] for d in (o, r, q))
      if len(ov) == len(rv) == len(qv):
        ok = [i for i in range(len(rv)) if c10.steady(rv[i], qv[i])]
        ov, rv = [ov[i] for i in ok], [rv[i] for i in ok]
      tr["steps"].append(dict(exc="", rtol="1E-6", atol="1E-8", obs=dict(params=flat(p), state=ov), ref=dict(params=flat(rp), state=rv),
                              structure=c01.structure((p, st.iter_num)), ref_structure=c01.structure((rp, rs.iter_num))))
    out.append(tr)
  return out


def first_stop(ref, K, tol):
  pos = 1
  while pos < K and float(onp.asarray(ref[pos][1].error)) > tol:
    pos += 1
  return pos


def search(kind, variant, seed):
  """Line searches: compiled or not, unrolled or not, batched over problems that fail and succeed."""
  import jax, jax.numpy as jnp
  from jaxopt import BacktrackingLineSearch, HagerZhangLineSearch
  from jaxopt._src.zoom_linesearch import ZoomLineSearch
  r = onp.random.RandomState(seed + variant)
  cls = dict(backtracking=BacktrackingLineSearch, zoom=ZoomLineSearch, hager=HagerZhangLineSearch)[kind]
  f = lambda x, c: jnp.sum((x - c) ** 2) + jnp.sum(jnp.cos(3 * x)) + 0.1 * jnp.sum(x ** 4)
  base = dict(fun=f, maxiter=8)
  if kind == "backtracking":
    base.update(condition=["armijo", "goldstein", "wolfe"][variant], max_stepsize=2.0)
  if kind == "zoom":
    base.update(max_stepsize=[1.0, 4.0, 30.0][variant])
  xs, cs = r.randn(6, 3) * 2, r.randn(6, 3)
  ds = -onp.asarray(jax.vmap(jax.grad(f))(xs, cs)) * onp.array([1.0, 0.02, 10.0, 1.0, -1.0, 100.0])[:, None]

  def go(sol):
    return lambda x, c, d: sol.run(init_stepsize=1.0, params=x, descent_direction=d, fun_args=(c,))
  ref, exc = guarded(lambda: [jax.jit(go(cls(jit=True, unroll=False, **base)))(x, c, d) for x, c, d in zip(xs, cs, ds)])
  out = []
  for mode in (dict(jit=True, unroll=True), dict(jit=True, unroll=False, vmap=True), dict(jit=True, unroll=True, vmap=True), dict(jit=False, unroll=True)):
    if kind == "hager" and mode == dict(jit=True, unroll=True):
      continue
    tr = dict(id=f"modes:ls-{kind}:{mode}#{seed}.{variant}".replace(" ", ""), steps=[])
    vm = mode.pop("vmap", False)

    def execute():
      sol = cls(**mode, **base)
      if vm:
        res = jax.jit(jax.vmap(go(sol)))(xs, cs, ds)
        return [jax.tree_util.tree_map(lambda v: v[j], res) for j in range(6)]
      g = jax.jit(go(sol)) if mode["jit"] else go(sol)
      return [g(x, c, d) for x, c, d in list(zip(xs, cs, ds))[:6 if mode["jit"] or kind == "backtracking" else 3]]
    got, ex = guarded(execute)
    ex = ex or exc
    if ex:
      tr["steps"].append(dict(exc=ex))
    else:
      for j, (s, st) in enumerate(got):
        rs, rst = ref[j]
        failed = bool(rst.failed)
        o, q = c01.state_map(st), c01.state_map(rst)
        keys = sorted(q)
        tr["steps"].append(dict(exc="", lane=j, rtol="1E-6", atol="1E-8", obs=dict(params=flat((s, st.params)), state=[v for k in keys for v in o.get(k, ["nan"])]),
                                ref=dict(params=flat((rs, rst.params)), state=[v for k in keys for v in q[k]]), structure="", ref_structure=""))
    out.append(tr)
  return out


def loops(seed):
  """loop.while_loop itself, all implementations, batched trip counts."""
  import jax, jax.numpy as jnp
  from jaxopt import loop
  r = onp.random.RandomState(seed)
  out = []
  for maxiter in (0, 1, 4, 9):
    lim = jnp.asarray([0.0, 1.0, 3.0, 7.0, 20.0])

    def want(l):
      v, n = 1.0, 0
      while v < float(l) and n < maxiter:
        v, n = v * 1.5 + 0.1, n + 1
      return [v, n]
    ref = [want(l) for l in lim]
    # the body would overflow to nan if evaluated after the end
    body = lambda t: (jnp.where(t[0] > 1e3, jnp.nan, t[0] * 1.5 + 0.1), t[1] + 1, t[2])
    cond = lambda t: t[0] < t[2]
    for unroll, jit in ((True, True), (True, False), (False, True)):
      for how in ("single", "vmap", "jitvmap", "grad"):
        if not jit and how != "single" and how != "grad" or (how == "grad" and not unroll):
          continue
        f = lambda l: loop.while_loop(cond, body, (jnp.asarray(1.0), jnp.asarray(0), l), maxiter, unroll=unroll, jit=jit)[:2]
        if how == "grad":
          # d/da of iterating x -> a x from 1 : n a^(n-1)
          g = lambda a: loop.while_loop(lambda t: t[0] < 4.0, lambda t: (t[0] * t[1], t[1]), (a * 0 + 1.0, a), maxiter, unroll=unroll, jit=jit)[0]
          n = len([k for k in range(maxiter) if 1.5 ** k < 4.0])
          got, exc = guarded(jax.grad(g), 1.5)
          res, rf = [got], [n * 1.5 ** (n - 1) if n else 0.0]
        else:
          got, exc = guarded(lambda: [f(l) for l in lim] if how == "single" else (jax.jit(jax.vmap(f)) if how == "jitvmap" else jax.vmap(f))(lim))
          if not exc:
            res = [[float(a), float(b)] for a, b in (got if how == "single" else zip(*got))]
          rf = ref
        out.append(dict(id=f"modes:loop:{unroll}{jit}{how}{maxiter}#{seed}", steps=[dict(exc=exc) if exc else dict(
            exc="", rtol="1E-12", atol="1E-12", obs=dict(params=vec(res)), ref=dict(params=vec(rf)), structure="", ref_structure="")]))
  return out
