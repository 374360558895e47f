"""C21: linear solvers, linear operators, iterative refinement."""
from functools import partial
import numpy as onp
from common import *

DESIGN = [("MCRefine", "MCRefine.cfg")]
TRACE = "TraceLinear"
ASSUMPTIONS = ["float64; sizes up to 9, condition numbers up to 1e3 (direct) and 50 (iterative)"]
DIRECT = ["lu", "cholesky", "inv", "qr"]
ITER = ["cg", "normal_cg", "gmres", "bicgstab"]


def jobs(ctx):
  m = 1 if ctx.quick else 8
  J = []
  for j in range(m):
    sd = ctx.seed + 40 * j
    J += [("solvers", (k, sd)) for k in DIRECT + ITER]
    J += [("refine", (sd, v)) for v in range(4)] + [("operators", (sd,))]
  return J


def matrix(r, n, kind, cond):
  q, _ = onp.linalg.qr(r.randn(n, n))
  d = onp.exp(onp.linspace(0, onp.log(cond), n)) * r.choice([0.1, 1.0, 7.0])
  if kind in ("cholesky", "cg"):
    return (q * d) @ q.T
  if kind == "bicgstab":
    return (q * d) @ q.T + 0.1 * d.min() * r.randn(n, n) / n
  q2, _ = onp.linalg.qr(r.randn(n, n))
  return (q * d) @ q2.T


def layouts(kind, r):
  """(structure maker, size): scalar, vector, matrix, tree right-hand sides."""
  L = [("vec", (n,)) for n in (1, 2, 5)]
  if kind in ("lu", "cholesky"):
    L += [("mat", (2, 3)), ("mat", (3, 1)), ("mat", (2, 2))]
  if kind in DIRECT:
    L += [("scalar", ())]
  else:
    L += [("mat", (2, 3)), ("tree", None), ("tree", None)]
  return L


def pack(lay, shape, v):
  import jax.numpy as jnp
  v = jnp.asarray(v)
  if lay == "tree":
    return dict(a=v[:2], b=(v[2:6].reshape(2, 2), v[6]))
  return v.reshape(shape)


def unpack(t):
  import jax.numpy as jnp, jax
  return jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(t)])


def solvers(kind, seed):
  import jax, jax.numpy as jnp
  from jaxopt import linear_solve as ls
  solve = getattr(ls, "solve_" + kind)
  r = onp.random.RandomState(seed + sum(map(ord, kind)))
  steps = []
  for lay, shape in layouts(kind, r):
    n = 7 if lay == "tree" else int(onp.prod(shape))
    for ridge in (None, 0.37):
      for v in range(2):
        A = matrix(r, n, kind, (200.0 if v else 5.0) if kind in DIRECT else 8.0)
        if lay == "scalar":
          A = onp.abs(A) + 0.5
        b = r.randn(n) * r.choice([1.0, 100.0])
        if v == 1 and n > 2:
          b[:2] = 0.0
        kw = {} if ridge is None else dict(ridge=ridge if v else jnp.asarray(ridge))
        tol, cond = 1e-12, ""
        if kind in DIRECT:
          M = A + (ridge or 0) * onp.eye(n)
          cond = num(onp.linalg.cond(M))
        elif v == 0:
          kw["tol"] = 1e-13
          tol = 1e-9
        else:
          tol = 2e-5
          if r.rand() < 0.7:
            kw["init"] = pack(lay, shape, r.randn(n) * 10)
        mv = lambda x: pack(lay, shape, jnp.asarray(A) @ unpack(x))
        bb = pack(lay, shape, b)
        f = lambda q: solve(mv, q, **kw)
        x, exc = guarded(jax.jit(f) if (v and lay != "scalar") else f, bb)
        d = dict(op="solve", kind=kind, A=mat(A), b=vec(b), ridge=num(ridge or 0), exc=exc, x=[], struct=False, tol=num(tol),
                 cond=cond, scale="1" if kind in DIRECT else "0", layout=lay)
        if kind in DIRECT:
          d["scale"] = num(onp.abs(A).max() * n)
        if not exc:
          d["struct"] = (jax.tree_util.tree_structure(x) == jax.tree_util.tree_structure(bb)
                         and [l.shape for l in leaves(x)] == [l.shape for l in leaves(bb)])
          d["x"] = flat(x)
        steps.append(d)
        if v == 0 and lay in ("vec", "tree") and n > 1:
          w = r.randn(n)
          g, exc = guarded(lambda: jax.vjp(f, bb)[1](pack(lay, shape, w))[0])
          steps.append(dict(op="grad", kind=kind, A=mat(A), w=vec(w), ridge=num(ridge or 0), exc=exc, g=[] if exc else flat(g)))
  # batches
  n = 4
  As = onp.stack([matrix(r, n, kind, 4.0) for _ in range(3)])
  bs = r.randn(3, n)
  kw = {} if kind in DIRECT else dict(tol=1e-13)
  X, exc = guarded(jax.vmap(lambda A, b: solve(lambda x: A @ x, b, ridge=0.2, **kw)), As, bs)
  for i in range(3):
    steps.append(dict(op="solve", kind=kind, A=mat(As[i]), b=vec(bs[i]), ridge="0.2", exc=exc, x=[] if exc else vec(X[i]),
                      struct=True, tol="1E-9", cond="", scale="1", layout="vmap"))
  if kind == "normal_cg":     # rectangular systems need init
    for (m, n) in ((6, 3), (5, 4), (8, 1)):
      for ridge in (None, 0.3):
        A = r.randn(m, n)
        b = r.randn(m)
        kw = {} if ridge is None else dict(ridge=ridge)
        x, exc = guarded(solve, lambda x: jnp.asarray(A) @ x, jnp.asarray(b), init=jnp.asarray(r.randn(n)), tol=1e-13, **kw)
        steps.append(dict(op="solve", kind=kind, A=mat(A), b=vec(b), ridge=num(ridge or 0), exc=exc, x=[] if exc else vec(x),
                          struct=not exc and x.shape == (n,), tol="1E-9", cond="", scale="1", layout="rect"))
  return [dict(id=f"{kind}#{seed}", steps=steps)]


def refine(seed, v):
  """Steps and runs of IterativeRefinement; v: how A and Abar are given."""
  import jax, jax.numpy as jnp, jaxopt
  from jaxopt import linear_solve as ls
  r = onp.random.RandomState(seed + 1000 * v)
  out = []
  for j in range(3):
    steps = []
    n = 7 if v == 2 else [2, 4, 6][j]
    A = matrix(r, n, "lu", 4.0)
    dA = 0.15 * A.std() * r.randn(n, n) / onp.sqrt(n)
    x_true = r.randn(n)
    b = A @ x_true
    ridge = [0.0, 1e-3, 0.0][j]
    lay, shape = ("tree", None) if v == 2 else ("vec", (n,))
    P = lambda q: pack(lay, shape, q)
    kw = dict(maxiter=40, tol=1e-10)
    exact = True
    if v == 0:          # defaults: A a matrix, Abar = A, direct or gmres solve
      Abar, args = A, (jnp.asarray(A), P(b))
      if j != 2:
        kw["solve"] = lambda mv, q, init=None: ls.solve_lu(mv, q, ridge=ridge)
      else:
        exact = False    # gmres with ridge 1e-6
    elif v == 1:        # accurate and inaccurate matrices given as two operators
      Abar, args = A + dA, (jnp.asarray(A), P(b), jnp.asarray(A + dA))
      kw.update(matvec_A=None if j else jnp.dot, matvec_A_bar=jnp.dot, solve=lambda mv, q, init=None: ls.solve_lu(mv, q, ridge=ridge))
    elif v == 2:        # trees and functions with parameters
      Abar, args = 1.1 * A, (jnp.asarray(A), P(b), jnp.asarray(1.1))
      def solve(mv, q, init=None):
        M = jax.jacfwd(lambda z: unpack(mv(P(z))))(jnp.zeros(n))
        return P(jnp.linalg.solve(M + ridge * jnp.eye(n), unpack(q)))
      kw.update(matvec_A=lambda M, x: P(M @ unpack(x)), matvec_A_bar=lambda c, x: P(c * (jnp.asarray(A) @ unpack(x))), solve=solve)
    else:               # only a function for A; Abar copies A
      Abar, args = A, (jnp.asarray(A / 2), P(b))
      kw.update(matvec_A=lambda M, x: 2 * (M @ x), solve=lambda mv, q, init=None: ls.solve_lu(mv, q, ridge=ridge))
    ir = jaxopt.IterativeRefinement(**kw)
    x0 = P(r.randn(n)) if j else P(onp.zeros(n))
    st, exc = guarded(ir.init_state, x0, *args)
    p = x0
    upd = jax.jit(ir.update)
    sc = num(onp.abs(A).max() * n)
    base = dict(A=mat(A), Abar=mat(Abar), b=vec(b), ridge=num(ridge), scale=sc)
    for k in range(4):
      d = dict(base, op="refine", k=k, exact=exact, x0=flat(p), r0=[], x=[], r=[], error="0", init=[], iter_num="0", counts=[], exc=exc, struct=False)
      if not exc:
        res, d["exc"] = guarded(upd, p, st, *args)
      if d["exc"]:
        steps.append(d)
        break
      p1, s1 = res
      d.update(r0=flat(st.target_residuals), x=flat(p1), r=flat(s1.target_residuals), error=num(s1.error), init=flat(s1.init),
               iter_num=num(s1.iter_num), counts=[num(s1.num_matvec_eval), num(s1.num_matvec_bar_eval), num(s1.num_solve_eval)],
               struct=jax.tree_util.tree_structure(p1) == jax.tree_util.tree_structure(x0))
      steps.append(d)
      p, st = p1, s1
    for maxiter, tol, init in ((40, 1e-9, x0), (40, 1e-4, None), (3, 1e-11, x0)):
      s2 = jaxopt.IterativeRefinement(**dict(kw, maxiter=maxiter, tol=tol))
      o, exc = guarded(s2.run, init, *args)
      d = dict(base, op="run", exc=exc, x=[], error="", tol=num(tol), maxiter=maxiter, iter_num="0", must=maxiter == 40, struct=False)
      if not exc:
        d.update(x=flat(o.params), error=num(o.state.error), iter_num=num(o.state.iter_num),
                 struct=jax.tree_util.tree_structure(o.params) == jax.tree_util.tree_structure(x0))
      steps.append(d)
    xr = P(r.randn(n))
    for kind, f in (("optimality", ir.optimality_fun), ("optnorm", ir.l2_optimality_error)):
      y, exc = guarded(f, xr, *args)
      steps.append(dict(op="operator", kind=kind, A=mat(A), b=vec(b), x=flat(xr), y=[] if exc else flat(y), exc=exc))
    # an inaccurate solver (large ridge), accurate refinement; function interface
    xx, exc = guarded(ls.solve_iterative_refinement, lambda x: P(jnp.asarray(A) @ unpack(x)), P(b), x0 if j else None, 60, 1e-8,
                      solve=partial(ls.solve_gmres, ridge=1e-3, tol=1e-3))
    steps.append(dict(base, op="run", exc=exc, x=[] if exc else flat(xx), error="", tol="1E-8", maxiter=60, iter_num="0", must=True,
                      struct=not exc and jax.tree_util.tree_structure(xx) == jax.tree_util.tree_structure(x0)))
    out.append(dict(id=f"refine{v}-{j}#{seed}", site=f"refine{v}", steps=steps))
  return out


def operators(seed):
  import jax, jax.numpy as jnp
  from jaxopt._src.linear_operator import DenseLinearOperator, FunctionalLinearOperator, _make_linear_operator
  r = onp.random.RandomState(seed)
  steps = []

  def add(kind, A, x, f, *a):
    y, exc = guarded(f, *a)
    steps.append(dict(op="operator", kind=kind, A=mat(A), b=[], x=vec(x), y=[] if exc else flat(y), exc=exc))
  for (m, n) in ((3, 3), (4, 2), (2, 5), (1, 1)):
    A, x, y = r.randn(m, n), r.randn(n), r.randn(m)
    for op in (DenseLinearOperator(jnp.asarray(A)), FunctionalLinearOperator(jnp.dot, jnp.asarray(A)), _make_linear_operator(None)(jnp.asarray(A)),
               _make_linear_operator(lambda p, z: p[0] @ z * p[1])((jnp.asarray(A / 2), 2.0))):
      add("matvec", A, x, op.matvec, x)
      add("matvec", A, x, op, x)
      add("rmatvec", A, y, op.rmatvec, x, y)
      add("matvec", A, x, lambda: op.matvec_and_rmatvec(x, y)[0])
      add("rmatvec", A, y, lambda: op.matvec_and_rmatvec(x, y)[1])
      add("normal", A, x, op.normal_matvec, x)
      if isinstance(op, DenseLinearOperator):
        add("colsq", A, x, lambda: op.columns_l2_norms(squared=True))
        add("col", A, x, op.columns_l2_norms)
        if m == n:
          add("diag", A, x, op.diag)
  # a tree of matrices is block diagonal
  B, C = r.randn(2, 2), r.randn(3, 3)
  A = onp.zeros((5, 5))
  A[:2, :2], A[2:, 2:] = B, C
  x, y = r.randn(5), r.randn(5)
  T = lambda v: dict(p=jnp.asarray(v[:2]), q=jnp.asarray(v[2:]))
  op = DenseLinearOperator(dict(p=jnp.asarray(B), q=jnp.asarray(C)))
  add("matvec", A, x, op, T(x))
  add("rmatvec", A, y, op.rmatvec, T(x), T(y))
  add("normal", A, x, op.normal_matvec, T(x))
  add("diag", A, x, op.diag)
  add("colsq", A, x, lambda: op.columns_l2_norms(squared=True))
  add("col", A, x, op.columns_l2_norms)
  return [dict(id=f"operators#{seed}", steps=steps)]
