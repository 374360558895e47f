"""C04: evaluation counters against Counters.tla."""
import functools
import numpy as onp
from common import *
import lines

DESIGN = [("MCCounters", "MCCounters.cfg")]
DESIGN_THOROUGH = [("MCCounters", "MCCountersLarge.cfg")]
TRACE = "TraceCounters"
ASSUMPTIONS = ["evaluations are counted by call-backs in the user's function (its value) and in its derivative rule (its gradient), so they are executions, under jit as well; a gradient that a value-and-gradient function computes on the side cannot be told apart and is bounded only"]


class Tally:
  """Counts executions of user functions, compiled or not."""

  def __init__(self):
    self.n = {}

  def hit(self, k):
    self.n[k] = self.n.get(k, 0) + 1

  def tick(self, k):
    import jax
    jax.debug.callback(functools.partial(self.hit, k))

  def calls(self, fun, k):
    @functools.wraps(fun)
    def g(*a, **kw):
      self.tick(k)
      return fun(*a, **kw)
    return g

  def differentiable(self, fun, f="f", g="g"):
    """fun with executions of its value counted as f and of its gradient as g."""
    import jax

    @jax.custom_vjp
    def h(x, *a):
      self.tick(f)
      return fun(x, *a)

    def fwd(x, *a):
      self.tick(f)
      return jax.vjp(fun, x, *a)

    def bwd(back, u):
      self.tick(g)
      return back(u)
    h.defvjp(fwd, bwd)
    return h

  def take(self):
    import jax
    jax.effects_barrier()
    n, self.n = self.n, {}
    return n


def wait(x):
  import jax
  return jax.block_until_ready(x)


def user(tally, f, pair, mode, aux):
  """(fun, value_and_grad argument) in one of three forms, counted."""
  import jax, jax.numpy as jnp
  tu = jax.tree_util
  auxf = lambda x: dict(k=jnp.asarray(3.0), m=tu.tree_map(lambda l: 2 * l, x))
  if mode == "both" or mode == "pair":
    vg0 = f if pair else jax.value_and_grad(f)

    def vg(x, *d):
      v, g = vg0(x, *d)
      return ((v, auxf(x)), g) if aux else (v, g)
    if mode == "pair":
      return tally.calls(vg, "v"), True
    g0 = (lambda x, *d: (f(x, *d), auxf(x))) if aux else f
    return tally.calls(g0, "f"), tally.calls(vg, "v")
  return tally.differentiable((lambda x, *d: (f(x, *d), auxf(x))) if aux else f), False


def evals(seen, mode):
  """(function evaluations, gradient evaluations or -1)."""
  if mode == "pair":
    return seen.get("v", 0), -1
  if mode == "both":
    return seen.get("f", 0) + seen.get("v", 0), seen.get("v", 0)
  return seen.get("f", 0), seen.get("g", 0)


def get(state, name):
  v = getattr(state, name, None)
  return -1 if v is None else int(v)


def record(op, solver, kind, before, after, sf, sg, *, given=True, extra=False, box=False, maxls=0, updates=1, n=0, others=(), seen=None, same=True):
  delta = lambda k: -1 if get(after, k) == -1 else get(after, k) - (get(before, k) if before is not None else 0)
  failed = getattr(after, "failed_linesearch", getattr(after, "failed", None))      # not every solver tells
  failed = [False, True] if failed is None else [bool(failed)]
  seen = seen or {}
  return dict(exc="", op=op, solver=solver, kind=kind, f=delta("num_fun_eval"), g=delta("num_grad_eval"), sf=int(sf), sg=int(sg),
              ls=delta("num_linesearch_iter") if op != "search" else int(after.iter_num), failed=failed, given=given, extra=extra, box=box,
              maxls=int(maxls), updates=int(updates), n=int(n), other=[delta(a) for a, _ in others], seen_other=[seen.get(b, 0) for _, b in others], same=bool(same))


def follow(sol, tally, mode, init_args, problems, solver, kind, updates, *, jit=True, n=0, others=(), run=True, args=lambda d: d, **opt):
  """init_state, updates and a whole run of one solver on several problems."""
  import jax, jax.numpy as jnp
  J = jax.jit if jit else (lambda f: f)
  init = J(lambda x, d: sol.init_state(x, *init_args(d)))
  upd = J(lambda x, s, d: sol.update(x, s, *init_args(d)))
  steps = []
  for x, d in problems:
    x = jax.tree_util.tree_map(jnp.asarray, x) if x is not None else None
    tally.take()
    state = wait(init(x, d))
    seen = tally.take()
    sf, sg = evals(seen, mode)
    steps.append(record("init", solver, kind, None, state, sf, sg, n=opt.get("init_n", n), others=others, seen=seen, maxls=opt.get("maxls", 0)))
    for j in range(updates):
      x2, new = wait(upd(x, state, d))
      seen = tally.take()
      sf, sg = evals(seen, mode)
      steps.append(record("step", solver, kind, state, new, sf, sg, n=n, others=others, seen=seen, extra=opt.get("extra", False), box=opt.get("box", False), maxls=opt.get("maxls", 0)))
      x, state = x2, new
      if not onp.isfinite(float(state.error)):
        break
  if run:
    x, d = problems[-1]
    whole = J(lambda x, d: sol.run(x, *init_args(d)))
    x0 = jax.tree_util.tree_map(jnp.asarray, x) if x is not None else None
    _, end = wait(whole(x0, d))
    seen = tally.take()
    sf, sg = evals(seen, mode)
    # the same by hand
    x1, s = x0, init(x0, d)
    for _ in range(int(end.iter_num)):
      x1, s = upd(x1, s, d)
    wait(s)
    again = evals(tally.take(), mode)
    same = again == (sf, sg) and all(get(s, k) == get(end, k) for k in ("num_fun_eval", "num_grad_eval", "num_linesearch_iter"))
    steps.append(record("run", solver, kind, None, end, sf, sg, others=others, seen=seen, same=same, maxls=opt.get("maxls", 0), updates=max(1, int(end.iter_num))))
  return steps


def newton(name, kind, obj, mode, aux, jit, seed, count, updates):
  """BFGS, LBFGS, LBFGSB, NonlinearCG."""
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed + sum(map(ord, name + kind + obj)))
  if obj == "slope":    # long steps, which a box cuts short
    f, sample, pair = (lambda x, d: jnp.vdot(d, x) + 1e-3 * jnp.sum(x ** 2)), (lambda: (r.uniform(-1, 1, 3), r.uniform(0.05, 0.4, 3))), False
  else:
    f, sample, pair = lines.objective(obj, r)
  mode = "pair" if pair else mode
  t = Tally()
  fun, vg = user(t, f, pair, mode, aux)
  maxls = int(r.choice([1, 3, 8, 15]))
  kw = dict(fun=fun, value_and_grad=vg, has_aux=aux, implicit_diff=False, jit=jit, maxiter=updates + 2, tol=1e-6)
  if kind == "none":
    kw.update(stepsize=[1e-2, lambda k: 1e-2 / (1 + k)][r.randint(2)])
  else:
    kw.update(linesearch="backtracking" if kind in lines.KINDS[:4] else kind, maxls=maxls, max_stepsize=float(r.choice([0.1, 1.0, 8.0])),
              linesearch_init=str(r.choice(["increase", "max", "current"])))
    if kind in lines.KINDS[:4]:
      kw["linesearch"] = jaxopt.BacktrackingLineSearch(fun=fun, value_and_grad=vg, has_aux=aux, condition=kind, maxiter=maxls, decrease_factor=0.8, jit=jit)
  if obj == "slope":
    maxls = 15
    kw.update(maxls=maxls, max_stepsize=64.0, linesearch_init="max", increase_factor=4.0)
  if name == "NonlinearCG":
    kw["method"] = str(r.choice(["fletcher-reeves", "polak-ribiere", "hestenes-stiefel"]))
    kw.pop("stepsize", 0)
  problems = []
  for _ in range(count):
    x, d = sample()
    problems.append((x, d))
  if name == "LBFGSB":
    def init_args(d):
      return (bounds,) + ((d,))
    x = problems[0][0]
    bounds = jax.tree_util.tree_map(lambda l: jnp.asarray(l) * 0 - 1.5, x), jax.tree_util.tree_map(lambda l: jnp.asarray(l) * 0 + 1.2, x)
    problems = [(jax.tree_util.tree_map(lambda l: onp.clip(l, -1.5, 1.2), x), d) for x, d in problems]
  else:
    init_args = lambda d: (d,)
  sol = getattr(jaxopt, name)(**kw)
  # the line search is not told the auxiliary output of the start
  return follow(sol, t, mode, init_args, problems, "quasi", kind, updates, jit=jit, maxls=maxls, extra=kind == "zoom", box=name == "LBFGSB" and kind != "none")


def search(kind, obj, mode, aux, given, seed, count, jit):
  """A line search on its own, step by step and whole."""
  import jax, jax.numpy as jnp
  r = onp.random.RandomState(seed + sum(map(ord, kind + obj)))
  f, sample, pair = lines.objective(obj, r)
  mode = "pair" if pair else mode
  t = Tally()
  fun, vg = user(t, f, pair, mode, aux)
  cfg = lines.config(kind, r)
  cfg["maxiter"] = int(r.choice([2, 4, 12]))
  ls = lines.make(kind, fun, cfg, value_and_grad=vg, has_aux=aux, jit=jit)
  J = jax.jit if jit else (lambda g: g)
  tu = jax.tree_util
  vg0 = jax.jit(f if pair else jax.value_and_grad(f))
  opt = lambda v, g: (v, g) if given else (None, None)
  init = J(lambda t0, x, v, g, D, d: ls.init_state(t0, x, *opt(v, g), D, (d,)))
  upd = J(lambda t0, s, x, v, g, D, d: ls.update(t0, s, x, *opt(v, g), D, (d,)))
  run = J(lambda t0, x, v, g, D, d: ls.run(t0, x, *opt(v, g), D, (d,)))
  steps = []
  for j in range(count):
    x, d = sample()
    x = tu.tree_map(jnp.asarray, x)
    v, g = vg0(x, d)
    D = tu.tree_map(lambda q: -jnp.conj(q) * [1.0, 1e-3, 30.0, -1.0][j % 4], g)
    t0 = float(r.choice([1.0, 0.05, 4.0]))
    t.take()
    _, end = wait(run(t0, x, v, g, D, d))
    seen = t.take()
    sf, sg = evals(seen, mode)
    s = wait(init(t0, x, v, g, D, d))
    total = onp.array(evals(t.take(), mode))
    same = (get(s, "num_fun_eval"), get(s, "num_grad_eval")) == tuple(total) or mode == "pair" and get(s, "num_fun_eval") == total[0]
    step = min(t0, getattr(ls, "max_stepsize", t0))
    for _ in range(int(end.iter_num)):
      step, s = wait(upd(step, s, x, v, g, D, d))
      now = onp.array(evals(t.take(), mode))
      total = total + now
      same = same and get(s, "num_fun_eval") == total[0] and (mode == "pair" or get(s, "num_grad_eval") == total[1])
    same = same and (get(s, "num_fun_eval"), get(s, "num_grad_eval")) == (get(end, "num_fun_eval"), get(end, "num_grad_eval"))
    steps.append(record("search", "search", kind, None, end, sf, sg, given=given, extra=kind == "zoom" and aux and given, maxls=cfg["maxiter"], same=same))
  return steps


def simple(name, seed, count, updates, jit):
  """Solvers with one or two evaluations an update."""
  import jax, jax.numpy as jnp, jaxopt
  from jaxopt import prox, projection, objective
  r = onp.random.RandomState(seed + sum(map(ord, name)))
  t = Tally()
  base, _, opt = name.partition(":")
  kw = dict(implicit_diff=False, maxiter=updates + 1, jit=jit, tol=1e-9)
  A = lambda: r.randn(4, 3)
  f = lambda x, d: jnp.sum(jnp.log(1 + jnp.exp(d[0] @ x))) + 0.5 * jnp.sum((x - d[1]) ** 2)
  data = lambda: (r.randn(3), (A(), r.randn(3)))
  args = lambda d: (d,)
  others, extra = (), {}
  aux = opt == "aux"
  mode = opt if opt in ("pair", "both") else "fun"
  if base in ("PolyakSGD", "MirrorDescent"):
    fun, vg = user(t, f, False, mode, aux)
    if base == "PolyakSGD":
      sol = jaxopt.PolyakSGD(fun, value_and_grad=vg, has_aux=aux, momentum=0.5 if opt == "momentum" else 0.0, **kw)
      kind = "polyak"
    else:
      pg = t.calls(lambda x, g, s, h: projection.projection_simplex(x - s * g), "p")
      sol = jaxopt.MirrorDescent(fun, pg, has_aux=aux, stepsize=0.1, **kw)
      kind, args = "mirror", lambda d: (None, d)
      others, extra = (("num_proj_eval", "p"),), dict(init_n=int(aux))
  elif base in ("FixedPointIteration", "AndersonAcceleration"):
    T = lambda x, d: 0.3 * jnp.tanh(d[0] @ x) + d[1]
    data = lambda: (r.randn(3), (r.randn(3, 3), r.randn(3)))
    fun = t.calls((lambda x, d: (T(x, d), x[0])) if aux else T, "f")
    kind = "fixed-point" if base[0] == "F" else "anderson"
    sol = getattr(jaxopt, base)(fun, has_aux=aux, **kw)
  elif base == "Broyden":
    T = lambda x, d: x - 0.3 * jnp.tanh(d[0] @ x) - d[1]
    data = lambda: (r.randn(3), (r.randn(3, 3), r.randn(3)))
    if opt == "hard":
      T = lambda x, d: jnp.sin(3 * d[0] @ x) * (1 + x ** 2) - d[1]
    fun = t.differentiable((lambda x, d: (T(x, d), x[0])) if aux else T)
    kind = "broyden"
    sol = jaxopt.Broyden(fun, has_aux=aux, **(dict(maxls=6) if opt == "search" else dict(maxls=1) if opt == "hard" else dict(stepsize=1.0)), **kw)
    if opt in ("search", "hard"):
      return follow(sol, t, mode, args, [data() for _ in range(count)], kind, "any", updates, jit=jit, maxls=6 if opt == "search" else 1)
  elif base == "Bisection":
    fun = t.calls((lambda x, d: (d[0] * (x ** 3 - d[1]), x)) if aux else (lambda x, d: d[0] * (x ** 3 - d[1])), "f")
    sol = jaxopt.Bisection(fun, -2.0, 2.0, check_bracket=False, has_aux=aux, maxiter=updates + 1, jit=jit) if not aux else jaxopt.Bisection(fun, -2.0, 2.0, check_bracket=False, maxiter=updates + 1, jit=jit)
    data = lambda: (None, (float(r.choice([-1.0, 1.0])), float(r.uniform(-3, 3))))
    kind = "bisection"
  else:
    base_obj = dict(lsq=objective.least_squares, logreg=objective.binary_logreg)[opt]

    class Counted(type(base_obj)):
      def subfun(self, predictions, *a):
        return t.differentiable(lambda p: super(Counted, self).subfun(p, *a))(predictions)
    sol = jaxopt.BlockCoordinateDescent(Counted(), t.calls(prox.prox_lasso, "p"), **kw)
    n = 3
    data = lambda: (r.randn(3), (r.randn(5, 3), (r.rand(5) > 0.5).astype(float)))
    kind, args, others = "block", (lambda d: (0.1, d)), (("num_prox_eval", "p"),)
    return follow(sol, t, mode, args, [data() for _ in range(count)], kind, "none", updates, jit=jit, n=n, others=others, init_n=n)
  return follow(sol, t, mode, args, [data() for _ in range(count)], kind, "none", updates, jit=jit, others=others, **extra)


def many(group):
  out = []
  for fn, a in group:
    sid = ":".join(str(v) for v in a if isinstance(v, (str, bool)))
    steps, exc = guarded(globals()[fn], *a)
    out.append(dict(id=f"{fn}:{sid}", site=f"{fn}:{a[0]}:{a[1] if isinstance(a[1], str) else ''}", steps=steps or [dict(exc=exc)]))
  return out


SIMPLE = ("PolyakSGD", "PolyakSGD:aux", "PolyakSGD:pair", "PolyakSGD:momentum", "MirrorDescent", "MirrorDescent:aux", "FixedPointIteration", "FixedPointIteration:aux",
          "AndersonAcceleration", "AndersonAcceleration:aux", "Broyden", "Broyden:aux", "Broyden:search", "Broyden:hard", "Bisection", "Block:lsq", "Block:logreg")
SMOOTH = ("rosen", "osc", "barrier", "steep", "flat", "tree", "lse", "big", "adv", "advnan")


def jobs(ctx):
  r = onp.random.RandomState(ctx.seed)
  q = ctx.quick
  tasks = []
  modes = ("fun", "pair", "both")
  k = 0
  for name in ("BFGS", "LBFGS", "LBFGSB", "NonlinearCG"):
    kinds = [K for K in lines.KINDS + ["none"] if not (name == "NonlinearCG" and K == "none")]
    for kind in kinds:
      for rep in range(1 if q else 4):
        k += 1
        obj = SMOOTH[r.randint(len(SMOOTH))]
        if name in ("BFGS",) and obj == "tree":
          obj = "rosen"
        tasks.append(("newton", (name, kind, obj, modes[k % 3] if r.randint(2) else "fun", bool(r.randint(2)), True, ctx.seed + rep, 3 if q else 6, 6)))
  for kind in lines.KINDS:
    for given in (True, False):
      for rep in range(1 if q else 4):
        k += 1
        obj = (SMOOTH + ("complex",))[r.randint(len(SMOOTH) + 1)]
        tasks.append(("search", (kind, obj, modes[k % 3] if r.randint(2) else "fun", bool(r.randint(2)), given, ctx.seed + rep, 8 if q else 24, True)))
  for name in SIMPLE:
    tasks.append(("simple", (name, ctx.seed, 2, 4, True)))
  for name in ("PolyakSGD", "AndersonAcceleration", "Broyden", "MirrorDescent:aux"):
    tasks.append(("simple", (name, ctx.seed + 1, 1, 3, False)))
  tasks.append(("newton", ("LBFGSB", "zoom", "slope", "fun", bool(r.randint(2)), True, ctx.seed, 6, 6)))
  tasks.append(("newton", ("LBFGS", "zoom", "rosen", "fun", True, False, ctx.seed, 1, 2)))
  tasks.append(("newton", ("BFGS", "armijo", "rosen", "both", False, False, ctx.seed, 1, 2)))
  tasks.sort(key=lambda t: "hager-zhang" not in t[1])
  return [("many", ([t],)) for t in tasks]
