"""C14: implicit differentiation wrappers against Implicit.tla and Binding.tla."""
import numpy as onp
from common import *

DESIGN = [("MCImplicit", "MCImplicit.cfg")]
GENERATE = ("Binding", "Binding.cfg")
TRACE = "TraceImplicit"
ASSUMPTIONS = ["float64; one family of optimality functions (cubic, with matrix, vector and scalar arguments) in 2-4 variables and the linear solvers of jaxopt.linear_solve at their default tolerances; real parameters"]
SOLVES = ("default", "solve_cg", "solve_normal_cg", "solve_gmres", "solve_bicgstab", "solve_lu", "solve_inv", "custom", "solve_cholesky")


def jobs(ctx):
  cases = {json_key(c): c for c in ctx.cases}
  cases = [cases[k] for k in sorted(cases)]
  J = []
  for j in range(1 if ctx.quick else 6):
    sd = ctx.seed + 47 * j
    J += [("calls", (cases[k::8], sd, ctx.quick)) for k in range(8)]
    J += [("solves", (sv, sd)) for sv in SOLVES]
    J += [("forms", (kind, sd)) for kind in ("jacobian", "jit", "vmap", "auxtree", "none-int", "products", "gradfun")]
  return J


def json_key(c):
  return f"{c['sig']}:{','.join(c['order'])}:{','.join(c['kw'])}"


# ----------------------------------------------------------------- the family
def shapes(n, tree):
  """(pack, unpack) of a vector of n numbers."""
  import jax.numpy as jnp
  if tree == "vector":
    return (lambda w: w), (lambda t: t)
  if tree == "matrix":
    return (lambda w: w.reshape(1, n)), (lambda t: t.reshape(n))
  return (lambda w: dict(u=w[:1], v=(w[1:],))), (lambda t: jnp.concatenate([t["u"], t["v"][0]]))


def F(un, pk, x, Q, a, b, c):
  import jax.numpy as jnp
  x, a, c = un(x), un(a), un(c)
  return pk(Q @ x + x ** 3 + a * x + b * x ** 2 - c)


def problem(r, n, sym=False):
  import jax.numpy as jnp
  M = 0.6 * r.randn(n, n)
  Q = (M + M.T) / 2 if sym else M
  Q = Q + (1.0 + onp.abs(Q).sum(1).max()) * onp.eye(n)
  a, b, x = r.rand(n), float(r.rand() - 0.5), r.randn(n)
  p = dict(Q=Q, a=a, b=b, x=x)
  p["c"] = onp.asarray(Q @ x + x ** 3 + a * x + b * x ** 2)
  return {k: jnp.asarray(v) for k, v in p.items()}


def newton(un, pk, args, n):
  """A root of F(., *args), not differentiable by itself."""
  import jax, jax.numpy as jnp
  f = lambda w: un(F(un, pk, pk(w), *args))
  jac = jax.jacobian(f)
  return pk(jax.lax.fori_loop(0, 40, lambda _, w: w - jnp.linalg.solve(jac(w), f(w)), jnp.zeros(n)))


def new_step(p, v=None, got=None):
  return dict(exc="", refused=False, gap=False, Q=mat(p["Q"]), a=vec(p["a"]), b=num(p["b"]), c=vec(p["c"]), x=vec(p["x"]),
              v=vec(v) if v is not None else ["0"] * len(p["x"]), got=vec(got if got is not None else p["x"]),
              g={}, ginit=[], aux_kept=True, structure=True, jvp=[], d={}, rtol="1E-8")


def tree_eq(a, b):
  import jax
  return jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b) and all(
      onp.shape(x) == onp.shape(y) for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)))


# --------------------------------------------------------------- call forms
def decorated(sig, kind, has_aux, pk, un, p, Q, sol):
  """The decorated solver with the signature `sig`; Q is closed over."""
  import jax, jax.numpy as jnp
  from jaxopt import implicit_diff, linear_solve
  DB, DC = p["b"], pk(p["c"])
  val = (lambda *_: (sol, dict(n=jnp.asarray(3), w=[2 * un(sol)]))) if has_aux else (lambda *_: sol)
  opt = lambda x, a, b, c: F(un, pk, x, Q, a, b, c)
  if kind == "fixed":
    base_fun = lambda x, a, b, c: pk(un(x) - un(opt(x, a, b, c)))
  else:
    base_fun = opt
  if sig in ("defaults", "opendefaults"):
    ref = lambda x, a, b=DB, c=DC: base_fun(x, a, b, c)
  else:
    ref = lambda x, a, b, c: base_fun(x, a, b, c)
  kw = {}
  fun = ref
  if sig == "refsig":
    fun = lambda x, *args: ref(x, *args)
    kw["reference_signature"] = ref
  solver = {"plain": lambda init, a, b, c: val(a, b, c), "kwonly": lambda init, a, *, c, b: val(a, b, c),
            "allkw": lambda init, *, b, c, a: val(a, b, c), "defaults": lambda init, a, b=DB, c=DC: val(a, b, c),
            "open": lambda init, *args, **kwargs: val(*args), "refsig": lambda init, *args, **kwargs: val(*args),
            "opendefaults": lambda init, *args, **kwargs: val(*args)}[sig]
  deco = implicit_diff.custom_fixed_point if kind == "fixed" else implicit_diff.custom_root
  return deco(fun, has_aux=has_aux, solve=linear_solve.solve_lu if pk(p["x"]) is p["x"] else linear_solve.solve_normal_cg, **kw)(solver)


def calls(cases, seed, quick):
  import jax, jax.numpy as jnp
  out = []
  for q, case in enumerate(cases):
    key = json_key(case)
    for variant in range(1 if quick else 4):
      r = onp.random.RandomState((sum(map(ord, key)) * 31 + seed * 7 + variant) % 2 ** 31)
      n = int(r.randint(2, 4))
      tree = str(r.choice(["vector", "vector", "vector", "dict"]))
      kind = ("root", "fixed")[(q + seed + variant) % 2]
      has_aux = bool((q // 2 + seed + variant // 2) % 2)
      pk, un = shapes(n, tree)
      p = problem(r, n)
      sol = pk(p["x"])
      f = decorated(case["sig"], kind, has_aux, pk, un, p, p["Q"], sol)
      values = dict(init=pk(jnp.asarray(r.randn(n))), a=pk(p["a"]), b=p["b"], c=pk(p["c"]))
      names = list(case["order"]) + list(case["kw"])
      given = [values[k] for k in names]
      npos = len(case["order"])
      call = lambda *vals: f(*vals[:npos], **dict(zip(case["kw"], vals[npos:])))
      v = r.randn(n)
      s = new_step(p, v)
      s["gap"] = bool(case["refused"])
      s["rtol"] = "1E-8" if tree == "vector" else "1E-4"
      aux0 = dict(n=jnp.asarray(3), w=[2 * un(sol)])

      def go():
        primal, vjp = jax.vjp(call, *given)
        cot = pk(jnp.asarray(v))
        if has_aux:
          z = jax.tree_util.tree_map(lambda l: onp.zeros(l.shape, jax.dtypes.float0) if jnp.issubdtype(l.dtype, jnp.integer) else jnp.ones_like(l), primal[1])
          return primal, vjp((cot, z))
        return primal, vjp(cot)
      res, exc = guarded(go)
      if exc:
        s.update(exc=exc, refused=exc.startswith("TypeError"))
      else:
        primal, g = res
        got = primal[0] if has_aux else primal
        s.update(got=flat(got), structure=all(tree_eq(x, y) for x, y in zip(g, given)) and tree_eq(got, sol),
                 aux_kept=not has_aux or (tree_eq(primal[1], aux0) and all(onp.array_equal(x, y) for x, y in zip(leaves(primal[1]), leaves(aux0)))),
                 g={k: flat(un(w) if k != "b" else w) for k, w in zip(names, g) if k != "init"},
                 ginit=[q for k, w in zip(names, g) if k == "init" for q in flat(w)])
      out.append(dict(id=f"call:{key}#{seed}.{variant}.{kind}{'-aux' if has_aux else ''}", steps=[s]))
  return out


# ------------------------------------------------------------ linear solvers
def solver_of(name):
  import jax.numpy as jnp, jax
  from jaxopt import linear_solve
  if name == "default":
    return None
  if name == "custom":
    def custom(matvec, b):
      w, unr = jax.flatten_util.ravel_pytree(b)
      A = jax.vmap(lambda e: jax.flatten_util.ravel_pytree(matvec(unr(e)))[0], out_axes=1)(jnp.eye(len(w)))
      return unr(jnp.linalg.solve(A, w))
    return custom
  return getattr(linear_solve, name)


def solves(name, seed):
  """Every linear solver, root and fixed point, all arguments, through grad."""
  import jax, jax.numpy as jnp, jax.flatten_util
  from jaxopt import implicit_diff
  out = []
  sv = solver_of(name)
  for kind in ("root", "fixed"):
    for tree in (("vector", "dict", "matrix") if name in ("default", "solve_cg", "solve_normal_cg", "solve_gmres", "solve_bicgstab", "custom") else ("vector",)):
      r = onp.random.RandomState(seed * 3 + sum(map(ord, name + kind + tree)))
      n = int(r.randint(2, 5))
      pk, un = shapes(n, tree)
      # the optimality of a fixed point has the opposite sign
      p = problem(r, n, sym=name in ("solve_cg", "solve_cholesky"))
      if name == "solve_cholesky" and kind == "fixed":
        continue
      sol = pk(p["x"])
      opt = lambda x, Q, a, b, c: F(un, pk, x, Q, a, b, c)
      fp = lambda x, Q, a, b, c: pk(un(x) - un(opt(x, Q, a, b, c)))
      kw = {} if sv is None else dict(solve=sv)
      deco = implicit_diff.custom_root(opt, **kw) if kind == "root" else implicit_diff.custom_fixed_point(fp, **kw)
      f = deco(lambda init, Q, a, b, c: newton(un, pk, (Q, a, b, c), n))
      v = jnp.asarray(r.randn(n))
      obj = lambda *args: jnp.vdot(un(f(*args)), v)
      args = (pk(jnp.asarray(r.randn(n))), p["Q"], pk(p["a"]), p["b"], pk(p["c"]))
      res, exc = guarded(lambda: jax.value_and_grad(obj, argnums=(0, 1, 2, 3, 4))(*args))
      root = newton(un, pk, args[1:], n)
      s = new_step(dict(p, x=un(root)), v, un(root))
      s["rtol"] = "1E-8" if name in ("solve_lu", "solve_inv", "custom", "solve_cholesky") else "1E-4"
      if exc:
        s["exc"] = exc
      else:
        _, g = res
        s.update(g=dict(Q=flat(g[1]), a=flat(un(g[2])), b=flat(g[3]), c=flat(un(g[4]))), ginit=flat(g[0]), structure=all(tree_eq(x, y) for x, y in zip(g, args)))
      out.append(dict(id=f"solve:{name}:{kind}:{tree}#{seed}", steps=[s]))
  return out


# --------------------------------------------------------------------- forms
def forms(form, seed):
  import jax, jax.numpy as jnp, jax.flatten_util
  from jaxopt import implicit_diff, linear_solve
  out = []
  for rep in range(3):
    r = onp.random.RandomState(seed * 3 + sum(map(ord, form)) + rep)
    n = int(r.randint(2, 5))
    tree = ("vector", "dict", "matrix")[rep]
    pk, un = shapes(n, tree)
    p = problem(r, n)
    root = newton(un, pk, (p["Q"], pk(p["a"]), p["b"], pk(p["c"])), n)
    p = dict(p, x=un(root))
    opt = lambda x, Q, a, b, c: F(un, pk, x, Q, a, b, c)
    args = (p["Q"], pk(p["a"]), p["b"], pk(p["c"]))
    init = pk(jnp.asarray(r.randn(n)))
    inner = lambda init, Q, a, b, c: newton(un, pk, (Q, a, b, c), n)
    sv = solver_of("custom")
    f = implicit_diff.custom_root(opt, solve=sv)(inner)
    tid = f"{form}:{tree}#{seed}"
    steps = []

    def add(fn, rtol="1E-8"):
      res, exc = guarded(fn)
      if exc:
        steps.append(dict(new_step(p), exc=exc))
      else:
        for v, g, gi, extra in res:
          s = new_step(p, v, un(root))
          s.update(g=g, ginit=gi, rtol=rtol)
          s.update(extra)
          steps.append(s)
    grads = lambda g: dict(Q=flat(g[0]), a=flat(un(g[1])), b=flat(g[2]), c=flat(un(g[3])))
    if form in ("jacobian", "jit"):
      def go():
        fn = lambda init, *a: un(f(init, *a))
        jac = jax.jacrev(fn, argnums=(0, 1, 2, 3, 4))
        J = (jax.jit(jac) if form == "jit" else jac)(init, *args)
        for i in range(n):
          g = jax.tree_util.tree_map(lambda l: l[i], J)
          yield onp.eye(n)[i], grads(g[1:]), flat(g[0]), {}
      add(lambda: list(go()))
    elif form == "vmap":
      ps = [problem(r, n) for _ in range(3)]
      stack = lambda *ls: jnp.stack(ls)
      Q, a, b, c = (jax.tree_util.tree_map(stack, *[w(q) for q in ps]) for w in (lambda q: q["Q"], lambda q: pk(q["a"]), lambda q: q["b"], lambda q: pk(q["c"])))
      v = jnp.asarray(r.randn(n))
      g = jax.vmap(jax.grad(lambda *z: jnp.vdot(un(f(*z)), v), argnums=(0, 1, 2, 3, 4)), in_axes=(None, 0, 0, 0, 0))
      res, exc = guarded(g, init, Q, a, b, c)
      for i, q in enumerate(ps):
        w = newton(un, pk, (q["Q"], pk(q["a"]), q["b"], pk(q["c"])), n)
        s = new_step(dict(q, x=un(w)), v, un(w))
        if exc:
          s["exc"] = exc
        else:
          gi = jax.tree_util.tree_map(lambda l: l[i], res)
          s.update(g=grads(gi[1:]), ginit=flat(gi[0]))
        steps.append(s)
    elif form == "auxtree":
      h = implicit_diff.custom_root(opt, has_aux=True, solve=sv)(lambda *z: (inner(*z), dict(count=jnp.asarray(7), more=(jnp.ones(2), None))))
      v = jnp.asarray(r.randn(n))

      def go():
        (val, aux), g = jax.value_and_grad(lambda *z: (lambda o: (jnp.vdot(un(o[0]), v), o[1]))(h(*z)), argnums=(0, 1, 2, 3, 4), has_aux=True)(init, *args)
        kept = int(aux["count"]) == 7 and aux["more"][1] is None and onp.array_equal(aux["more"][0], onp.ones(2))
        return [(v, grads(g[1:]), flat(g[0]), dict(aux_kept=bool(kept)))]
      add(go)
    elif form == "none-int":
      # arguments that are None, integers, or trees with both
      opt2 = lambda x, Q, nothing, a, k, rest: F(un, pk, x, Q, a, rest["b"], rest["c"][0])
      h = implicit_diff.custom_root(opt2, solve=sv)(lambda init, Q, nothing, a, k, rest: inner(init, Q, a, rest["b"], rest["c"][0]))
      v = jnp.asarray(r.randn(n))

      def go():
        fn = lambda init, Q, a, rest, k: un(h(init, Q, None, a, k=k, rest=rest))
        val, vjp = jax.vjp(fn, init, args[0], args[1], dict(b=args[2], c=[args[3]], none=None), jnp.asarray(4))
        gi, gQ, ga, gr, gk = vjp(v)
        return [(v, grads((gQ, ga, gr["b"], gr["c"][0])), flat(gi), {})]
      add(go)
    elif form == "products":
      for name in ("default", "custom", "solve_gmres"):
        svn = solver_of(name)
        kw = {} if svn is None else dict(solve=svn)
        v = r.randn(n)
        d = dict(Q=r.randn(n, n), a=r.randn(n), b=r.randn(), c=r.randn(n))
        tang = (jnp.asarray(d["Q"]), pk(jnp.asarray(d["a"])), jnp.asarray(d["b"]), pk(jnp.asarray(d["c"])))

        def go():
          g = implicit_diff.root_vjp(opt, root, args, pk(jnp.asarray(v)), **kw)
          j = implicit_diff.root_jvp(opt, root, args, tang, **kw)
          return [(v, grads(g), [], dict(jvp=flat(un(j)), d=dict(Q=vec(d["Q"]), a=vec(d["a"]), b=vec(d["b"]), c=vec(d["c"])),
                                        structure=tree_eq(j, root) and all(tree_eq(x, y) for x, y in zip(g, args))))]
        add(go, "1E-4" if name != "custom" else "1E-8")
    elif form == "gradfun":
      # the optimality function is the gradient of an objective with auxiliary output
      def obj(x, Q, a, b, c):
        w = un(x)
        return 0.5 * w @ (Q + Q.T) @ w / 2 + jnp.sum(w ** 4) / 4 + jnp.sum(un(a) * w ** 2) / 2 + b * jnp.sum(w ** 3) / 3 - jnp.vdot(un(c), w), w
      p = dict(problem(r, n, sym=True))
      root = newton(un, pk, (p["Q"], pk(p["a"]), p["b"], pk(p["c"])), n)
      p["x"] = un(root)
      g1 = jax.grad(obj, has_aux=True)
      h = implicit_diff.custom_root(lambda x, a, b, c: g1(x, p["Q"], a, b, c)[0], solve=linear_solve.solve_cg)(lambda init, a, b, c: inner(init, p["Q"], a, b, c))
      v = jnp.asarray(r.randn(n))

      def go():
        g = jax.grad(lambda init, a, b, c: jnp.vdot(un(h(init, a=a, c=c, b=b)), v), argnums=(0, 1, 2, 3))(init, pk(p["a"]), p["b"], pk(p["c"]))
        return [(v, dict(a=flat(un(g[1])), b=flat(g[2]), c=flat(un(g[3]))), flat(g[0]), {})]
      add(go, "1E-4")
    out.append(dict(id=tid, steps=steps))
  return out
