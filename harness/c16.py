"""C16: every solver on every packing of its parameters (Shapes.tla) against the flat vector."""
import collections
import functools
import random
import numpy as onp
from common import *
import c01
import c10

DESIGN = [("Shapes", "Shapes4.cfg")]
GENERATE = ("Shapes", "Shapes.cfg")
TRACE = "TraceSame"
ASSUMPTIONS = ["float64, and float32 for structure and dtype; three parameters; packings of up to four leaves are drawn by the seed from all of them",
               "Levenberg-Marquardt documents arrays only and is left out", "state entries that rounding-sized changes of the start already move are left out"]
SKIP = ("LBFGS-nogamma", "BFGS-rosen", "NonlinearCG-hestenes-stiefel", "NonlinearCG-fletcher-reeves", "LM-madsen", "Broyden-fixed", "Bisection")
Point = collections.namedtuple("Point", ["u", "v", "w", "z"])


def jobs(ctx):
  cases = list(ctx.cases)
  random.Random(ctx.seed).shuffle(cases)
  multi = [c for c in cases if sum(1 for d in c["lv"] if d != [0]) >= 2]
  J, k = [], 0
  for nm in c01.entry_names():
    if nm in SKIP or nm.startswith(("BlockCD", "BoxOSQP", "BoxCDQP", "LBFGSB-", "LM-")):
      continue
    if ctx.quick and "hager" in nm and not nm.startswith("NonlinearCG"):
      continue
    n = 2 if ctx.quick else 8
    pick = [multi[(k * n + i) % len(multi)] if i % 2 == 0 else cases[(k * n + i) % len(cases)] for i in range(n)]
    J.append(("solver", (nm, pick, ctx.seed)))
    k += 1
  for i in range(2 if ctx.quick else 8):
    J.append(("boxed", (multi[i::11][:2], ctx.seed + i)))
  J += [("scipy", (multi[:3 if ctx.quick else 12], ctx.seed)), ] + [("linear", (cases[i::60][:2 if ctx.quick else 20], ctx.seed + i)) for i in range(3)]
  J.sort(key=lambda j: 0 if "hager" in str(j[1][0]) else 1 if "zoom" in str(j[1][0]) else 2)
  return J


class Shape:
  """One packing: vector -> tree, tree -> vector (jax), and back for recorded values."""

  def __init__(self, case):
    import jax
    self.dims = [tuple(d) for d in case["lv"]]
    self.sizes = [int(onp.prod(d)) if d else 1 for d in self.dims]
    self.nest = case["nest"]
    z = onp.zeros(sum(self.sizes))
    self.treedef = jax.tree_util.tree_structure(self.tree(z))

  def name(self):
    return self.nest + "/" + ",".join("x".join(map(str, d)) or "s" for d in self.dims)

  def tree(self, v):
    import jax.numpy as jnp
    v = jnp.asarray(v)
    ls, k = [], 0
    for d, s in zip(self.dims, self.sizes):
      ls.append(jnp.reshape(v[k:k + s], d))
      k += s
    n = self.nest
    if n == "tuple":
      return tuple(ls)
    if n == "list":
      return ls
    if n == "dict":
      return {"k%d" % i: l for i, l in enumerate(ls)}
    if n == "named":
      return Point(*(ls + [()] * (4 - len(ls))))
    if n == "none":
      return (None, ls, {"x": None})
    return {"a": {"b": (ls[0],), "c": ()}, "d": [[l] for l in ls[1:]]}

  def vec(self, t):
    import jax, jax.numpy as jnp
    return jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(t)])

  def canon(self, state):
    """State leaves that are packed like the parameters become flat vectors (with leading axes)."""
    import jax
    td = self.treedef

    def packed(t):
      if jax.tree_util.tree_structure(t) != td:
        return False
      ls = jax.tree_util.tree_leaves(t)
      return all(onp.shape(l)[onp.ndim(l) - len(d):] == d and onp.ndim(l) >= len(d) for l, d in zip(ls, self.dims))

    def conv(t):
      if not packed(t):
        return t
      ls = [onp.asarray(l) for l in jax.tree_util.tree_leaves(t)]
      lead = [onp.shape(l)[:onp.ndim(l) - len(d)] for l, d in zip(ls, self.dims)]
      if len(set(lead)) != 1:
        return t
      return onp.concatenate([l.reshape(lead[0] + (-1,)) for l in ls], -1)
    return jax.tree_util.tree_map(conv, state, is_leaf=packed)


def wrap(e, S, base):
  """(overrides, init, args) of zoo entry e with parameters packed by S."""
  import jax
  nm = e.name
  field = "fun" if e.has("fun") or nm.startswith(("Broyden", "AndersonWrapper")) else "fixed_point_fun" if e.has("fpfun") else "residual_fun" if e.has("resfun") else None
  f = base.solver.fun if nm == "AndersonWrapper" else getattr(base, field) if field else None
  over, args = {}, list(e.args)
  if field:
    if e.has("rootfun") or e.has("fpfun"):
      over[field] = lambda t, *a, **k: S.tree(f(S.vec(t), *a, **k))
    else:
      over[field] = lambda t, *a, **k: f(S.vec(t), *a, **k)
  if nm.startswith("ProjectedGradient"):
    args[0] = tuple(S.tree(b) for b in args[0])
  if e.has("md"):
    pg = base.projection_grad
    over["projection_grad"] = lambda x, g, s, h: S.tree(pg(S.vec(x), S.vec(g), s, h))
  if nm == "IterativeRefinement":
    over["matvec_A"] = lambda A, t: S.tree(A @ S.vec(t))
    args[1] = S.tree(args[1])
  return over, S.tree(e.init), tuple(args)


def execute(sol, init, args, kwargs, K):
  import jax
  upd = jax.jit(sol.update)
  p, st = init, sol.init_state(init, *args, **kwargs)
  ch = [(p, st)]
  for _ in range(K):
    p, st = upd(p, st, *args, **kwargs)
    ch.append((p, st))
  return ch


def entries(m):
  return [v for k in sorted(m) for v in m[k]]


def compare(tr, ch, ref, pert, S, init):
  for k, (p, st) in enumerate(ch):
    rp, rs = ref[k]
    o, r, q = (entries(c01.state_map(x)) for x in (S.canon(st), rs, pert[k][1]))
    if len(r) == len(o):
      ok = [i for i in range(len(r)) if c10.steady(r[i], q[i])]
      o, r = [o[i] for i in ok], [r[i] for i in ok]
    tr["steps"].append(dict(exc="", rtol="1E-7", atol="1E-8", obs=dict(params=vec(S.vec(p)), state=o), ref=dict(params=vec(rp), state=r),
                            structure=c01.structure(p), ref_structure=c01.structure(init)))


def solver(name, cases, seed):
  import jax, jax.numpy as jnp, zoo
  e = [x for x in zoo.build(seed, only=lambda n: name.startswith(n) or n == name) if x.name == name][0]
  K = 6
  base = e.make(maxiter=K, tol=1e-300)
  both, exc = guarded(c10.reference, base, e, K, True)
  if exc:
    return [dict(id=f"shapes:{name}:flat#{seed}", steps=[dict(exc=exc)])]
  out = []
  for ci, case in enumerate(cases):
    S = Shape(case)
    over, init, args = wrap(e, S, base)
    tr = dict(id=f"shapes:{name}#{seed}.{ci}:{S.name()}", steps=[])
    ch, exc = guarded(lambda: execute(e.make(maxiter=K, tol=1e-300, **over), init, args, e.kwargs, K))
    if exc:
      tr["steps"].append(dict(exc=exc))
    else:
      compare(tr, ch, both[0], both[1], S, init)
    out.append(tr)
    if ci == 0:
      # a whole run, in float32: structure, shapes and dtypes stay
      f32 = lambda t: jax.tree_util.tree_map(lambda l: jnp.asarray(l, jnp.float32) if jnp.asarray(l).dtype == jnp.float64 else l, t)
      e32 = [x for x in zoo.build(seed, only=lambda n: name.startswith(n) or n == name, dtype=jnp.float32) if x.name == name][0]
      over, init, args = wrap(e32, S, e32.make(maxiter=3))
      tr = dict(id=f"shapes32:{name}#{seed}:{S.name()}", steps=[])
      res, exc = guarded(lambda: e32.make(maxiter=3, tol=1e-30, **over).run(init, *args, **e32.kwargs))
      pos = 0 if exc else int(onp.asarray(inner(res.state).iter_num))
      tr["steps"].append(dict(exc=exc) if exc else dict(
          exc="", rtol="2E-3", atol="2E-3", obs=dict(params=vec(S.vec(res.params))), ref=dict(params=vec(both[0][pos][0])),
          structure=c01.structure(res.params), ref_structure=c01.structure(init)))
      if not exc and "hager" in name:
        tr["steps"][0]["obs"] = tr["steps"][0]["ref"] = dict()       # chaotic in single precision
      out.append(tr)
  return out


def inner(st):
  return st.solver_state if hasattr(st, "solver_state") else st


def boxed(cases, seed):
  """Bounded quasi-Newton and projected methods with bounds packed like the parameters."""
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed)
  M = r.randn(3, 3)
  Q = jnp.asarray(M @ M.T + 0.4 * onp.eye(3))
  c = jnp.asarray(r.randn(3) * 2)
  f = lambda x, c: 0.5 * x @ Q @ x - c @ x + 0.1 * jnp.sum(x ** 4)
  lo, hi = -0.2 - r.rand(3), 0.2 + r.rand(3)
  x0 = onp.clip(r.randn(3), lo, hi)
  K = 6
  out = []
  for ls in ("zoom", "fixed"):
    cfg = dict(history_size=3, maxiter=K, tol=1e-300, **(dict(stepsize=0.2) if ls == "fixed" else dict(linesearch=ls)))
    def go(scale):
      sol = jaxopt.LBFGSB(fun=f, **cfg)
      return execute(sol, jnp.asarray(x0 * scale), ((jnp.asarray(lo), jnp.asarray(hi)), c), {}, K)
    ref, exc = guarded(lambda: (go(1.0), go(1 + 1e-14)))
    for ci, case in enumerate(cases):
      S = Shape(case)
      tr = dict(id=f"shapes:LBFGSB-{ls}#{seed}.{ci}:{S.name()}", steps=[])
      init = S.tree(x0)
      ch, ex = guarded(lambda: execute(jaxopt.LBFGSB(fun=lambda t, c: f(S.vec(t), c), **cfg), init, ((S.tree(lo), S.tree(hi)), c), {}, K))
      ex = ex or exc
      if ex:
        tr["steps"].append(dict(exc=ex))
      else:
        compare(tr, ch, ref[0], ref[1], S, init)
      out.append(tr)
  return out


def scipy(cases, seed):
  import jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed)
  M = r.randn(3, 3)
  Q = jnp.asarray(M @ M.T + 0.4 * onp.eye(3))
  c = jnp.asarray(r.randn(3))
  f = lambda x, c: 0.5 * x @ Q @ x - c @ x + 0.1 * jnp.sum(x ** 4)
  g = lambda x, c: Q @ x + 0.2 * jnp.sin(x) - c
  lo, hi = -0.2 - r.rand(3), 0.2 + r.rand(3)
  x0 = onp.clip(r.randn(3), lo, hi)
  out = []
  mk = dict(
      ScipyMinimize=(lambda h: jaxopt.ScipyMinimize(fun=h, method="L-BFGS-B", tol=1e-10, maxiter=200), f, False, False),
      ScipyBoundedMinimize=(lambda h: jaxopt.ScipyBoundedMinimize(fun=h, method="l-bfgs-b", tol=1e-10, maxiter=200), f, False, True),
      ScipyRootFinding=(lambda h: jaxopt.ScipyRootFinding(optimality_fun=h, method="hybr", tol=1e-10), g, True, False),
      ScipyLeastSquares=(lambda h: jaxopt.ScipyLeastSquares(fun=h, method="trf", options=dict(gtol=1e-12, ftol=1e-14, xtol=1e-14)), g, True, False),
      ScipyBoundedLeastSquares=(lambda h: jaxopt.ScipyBoundedLeastSquares(fun=h, method="trf", options=dict(gtol=1e-12, ftol=1e-14, xtol=1e-14)), g, True, True))
  for name, (make, h, packs, bounded) in mk.items():
    pre = ((jnp.asarray(lo), jnp.asarray(hi)),) if bounded else ()
    ref, exc = guarded(lambda: make(h).run(jnp.asarray(x0), *pre, c))
    for ci, case in enumerate(cases):
      S = Shape(case)
      pre = ((S.tree(lo), S.tree(hi)),) if bounded else ()
      hh = (lambda t, c: S.tree(h(S.vec(t), c))) if packs else (lambda t, c: h(S.vec(t), c))
      init = S.tree(x0)
      res, ex = guarded(lambda: make(hh).run(init, *pre, c))
      ex = ex or exc
      out.append(dict(id=f"shapes:{name}#{seed}.{ci}:{S.name()}", steps=[dict(exc=ex) if ex else dict(
          exc="", rtol="1E-5", atol="2E-6", obs=dict(params=vec(S.vec(res.params))), ref=dict(params=vec(ref.params)),
          structure=c01.structure(res.params), ref_structure=c01.structure(init))]))
  return out


def linear(cases, seed):
  """Linear solvers on packed right-hand sides."""
  import jax.numpy as jnp
  from jaxopt import linear_solve as L
  r = onp.random.RandomState(seed)
  out = []
  for ci, case in enumerate(cases):
    S = Shape(case)
    n = sum(S.sizes)
    M = r.randn(n, n)
    A = jnp.asarray(M @ M.T + onp.eye(n))
    b = jnp.asarray(r.randn(n))
    for name in ("solve_cg", "solve_normal_cg", "solve_gmres", "solve_bicgstab"):
      fn = getattr(L, name)
      for ridge in (None, 0.3):
        for init in (False, True):
          kw = dict(ridge=ridge, tol=1e-12)
          x0 = r.randn(n)
          want, e1 = guarded(lambda: onp.linalg.solve(onp.asarray(A) + (ridge or 0) * onp.eye(n), onp.asarray(b)) if name != "solve_normal_cg" else
                             onp.linalg.solve(onp.asarray(A.T @ A) + (ridge or 0) * onp.eye(n), onp.asarray(A.T @ b)))
          got, ex = guarded(lambda: fn(lambda t: S.tree(A @ S.vec(t)), S.tree(b), **kw, **(dict(init=S.tree(x0)) if init else {})))
          ex = ex or e1
          out.append(dict(id=f"shapes:{name}#{seed}.{ci}.{ridge}.{init}:{S.name()}", steps=[dict(exc=ex) if ex else dict(
              exc="", rtol="1E-6", atol="1E-7", obs=dict(params=vec(S.vec(got))), ref=dict(params=vec(want)),
              structure=c01.structure(got), ref_structure=c01.structure(S.tree(b)))]))
  return out
