"""C22: losses and objectives equal their mathematical definitions."""
import numpy as onp
from common import *

DESIGN = [("MCLoss", "MCLoss.cfg")]
TRACE = "TraceLoss"
ASSUMPTIONS = ["float64; up to 5 classes, 4 samples, 3 features; scores up to 1e6 in size",
               "gradients are checked away from kinks"]
BIN = ["binary_logistic", "binary_sparsemax", "binary_hinge", "binary_perceptron"]
MUL = ["multiclass_logistic", "multiclass_sparsemax", "multiclass_hinge", "multiclass_perceptron"]


def jobs(ctx):
  n = 1 if ctx.quick else 6
  J = []
  for j in range(n):
    sd = ctx.seed + 20 * j
    J += [("scalar", (k, sd)) for k in BIN + ["huber", "sparse"]] + [("multi", (k, sd)) for k in MUL + ["fy"]]
    J += [("objectives", (sd, h)) for h in range(3)] + [("operator", (sd,))]
  return J


def rec(steps, kind, x, p, fn, xin, grad=True, r=None, op="point"):
  """One evaluation, and its derivative along a random direction."""
  import jax, jax.numpy as jnp
  s = dict(op="point", kind=kind, x=vec(x), p=p, exc="", struct=True, y=[])
  y, s["exc"] = guarded(fn, xin)
  if not s["exc"]:
    s["struct"] = onp.shape(y) == ()
    s["y"] = flat(y)
  steps.append(s)
  if grad:
    dx = r.randn(len(x))
    s = dict(op="deriv", kind=kind, x=vec(x), p=p, dx=vec(dx), dp=[], dpf=[], w=["1"],
             dy=[], gx=[], gp=[], exc="", struct=True)
    g, s["exc"] = guarded(jax.grad(fn), xin)
    if not s["exc"]:
      s["gx"] = flat(g)
    steps.append(s)


def scores(r, n):
  c = r.randint(7)
  if c == 0:
    return onp.zeros(n)
  if c == 1:
    return r.randint(-2, 3, n).astype(float)
  if c == 2:
    return r.randn(n) * 1e6
  if c == 3:
    return onp.full(n, float(r.choice([-1.0, 1.0, 0.5, 800.0])))
  if c == 4:
    return r.randn(n) * 100
  return r.randn(n) * 2


def scalar(kind, seed):
  import jax, jax.numpy as jnp
  from jaxopt import loss
  r = onp.random.RandomState(seed + sum(map(ord, kind)))
  steps = []
  special = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 40.0, -40.0, 750.0, -750.0, 1e6, -1e6, 1e-8, -1e-8, 36.5, -36.5, 1.5, -1.25]
  if kind == "sparse":
    for z in special + list(r.randn(6)):
      for nm in ("sparse_plus", "sparse_sigmoid"):
        rec(steps, nm, [z], [], getattr(loss, nm), jnp.asarray(z), abs(abs(z) - 1) > 1e-6, r)
  elif kind == "huber":
    for z in special + list(r.randn(12) * 2):
      d = float(r.choice([1.0, 0.5, 2.0, 3.0]))
      t = float(r.choice([0.0, 0.7, -1.5]))
      for pr in (z, t + d, t - d, t):
        rec(steps, kind, [pr], [[num(t)], [num(d)]], lambda q: loss.huber_loss(t, q, d), jnp.asarray(pr), True, r)
    rec(steps, kind, [3.0], [["0.5"], ["1"]], lambda q: loss.huber_loss(0.5, q), jnp.asarray(3.0), True, r)
    rec(steps, kind, [3.0], [["0.5"], ["2"]], lambda q: loss.huber_loss(target=0.5, pred=q, delta=2.0), jnp.asarray(3.0), True, r)
  else:
    f = getattr(loss, kind + "_loss")
    for z in special + list(r.randn(6) * 3):
      for lab in (0, 1):
        if r.rand() < 0.3:
          lab_in = jnp.asarray(lab)
        else:
          lab_in = lab
        rec(steps, kind, [z], [[str(lab)]], lambda q: f(lab_in, q), jnp.asarray(z), True, r)
    zs, ls = r.randn(5), r.randint(0, 2, 5)
    v, exc = guarded(jax.vmap(f), jnp.asarray(ls), jnp.asarray(zs))
    for b in range(5):
      rec(steps, kind, [zs[b]], [[str(ls[b])]], lambda q: v[b] if not exc else jax.vmap(f)(ls, zs), jnp.asarray(zs[b]), False)
  return [dict(id=f"{kind}#{seed}", steps=steps)]


def multi(kind, seed):
  import jax, jax.numpy as jnp
  from jax.scipy.special import logsumexp
  from jaxopt import loss
  r = onp.random.RandomState(seed + sum(map(ord, kind)))
  steps = []
  for j in range(26):
    n = [2, 3, 5, 1][j % 4]
    x = scores(r, n)
    if kind == "fy":
      y = onp.zeros(n)
      y[r.randint(n)] = 1
      if j % 2:
        y = r.dirichlet(onp.ones(n))
      which = ["fy_lse", "fy_max", "fy_gini"][j % 3]
      if which == "fy_lse":
        rec(steps, which, x, [vec(y)], lambda q: loss.make_fenchel_young_loss(logsumexp)(jnp.asarray(y), q), jnp.asarray(x), True, r)
      elif which == "fy_max":
        rec(steps, which, x, [vec(y)], lambda q: loss.make_fenchel_young_loss(max_fun=jnp.max)(jnp.asarray(y), q), jnp.asarray(x), True, r)
      else:        # extra positional / keyword arguments go to the max function
        from jaxopt import projection
        def mx(s, c=0.0):
          q = projection.projection_simplex(s)
          return jnp.dot(q, s) + 0.5 * (1 - jnp.dot(q, q)) + c
        f = loss.make_fenchel_young_loss(mx)
        x = onp.clip(x, -50, 50)
        if j % 2:
          rec(steps, which, x, [vec(y), ["0.75"]], lambda q: f(jnp.asarray(y), q, 0.75), jnp.asarray(x), True, r)
        else:
          rec(steps, which, x, [vec(y), ["0.75"]], lambda q: f(jnp.asarray(y), q, c=0.75), jnp.asarray(x), True, r)
      continue
    f = getattr(loss, kind + "_loss")
    lab = int(r.randint(n))
    if j % 5 == 4:
      lab = int(onp.argmax(x))
    fn = jax.jit(f) if j % 6 == 5 else f
    if kind == "multiclass_sparsemax":
      x = onp.clip(x, -1e4, 1e4)
    rec(steps, kind, x, [[str(lab)]], lambda q: fn(lab, q), jnp.asarray(x), True, r)
  return [dict(id=f"{kind}#{seed}", steps=steps)]


def objectives(seed, part):
  import jax, jax.numpy as jnp
  from jaxopt import objective
  r = onp.random.RandomState(seed * 3 + part)
  steps = []
  for j in range(4 if part < 2 else 3):
    n, d, k = [(1, 2, 2), (4, 3, 3), (3, 2, 4), (2, 1, 2)][j]
    X = r.randn(n, d) * [1, 3, 0.5, 40][j]
    l2 = [0.1, 1.0, 0.0, 25.0][j]
    yr = r.randn(n)
    yb = r.randint(0, 2, n)
    ym = r.randint(0, k, n)
    P = lambda y, kk: [vec(y), [num(l2)], [kk]] + mat(X)
    Xj = jnp.asarray(X)
    w = r.randn(d)
    W = r.randn(d, k) * 2
    b = r.randn(k)
    if part == 0:
      rec(steps, "least_squares", w, P(yr, 1), lambda q: objective.least_squares(q, (Xj, jnp.asarray(yr))), jnp.asarray(w), True, r)
      rec(steps, "least_squares", w, P(yr, 1), lambda q: objective.least_squares(q, data=(Xj, jnp.asarray(yr))), jnp.asarray(w), False, r)
      rec(steps, "ridge_regression", w, P(yr, 1), lambda q: objective.ridge_regression(q, l2, (Xj, jnp.asarray(yr))), jnp.asarray(w), True, r)
      rec(steps, "binary_logreg", w, P(yb, 1), lambda q: objective.binary_logreg(q, (Xj, jnp.asarray(yb))), jnp.asarray(w), True, r)
      lip(steps, "least_squares", w, P(yr, 1), lambda: objective.least_squares.columnwise_lipschitz_const((Xj, jnp.asarray(yr))), d, 1, r)
      lip(steps, "binary_logreg", 0 * w, P(yb, 1), lambda: objective.binary_logreg.columnwise_lipschitz_const((Xj, jnp.asarray(yb))), d, 1, r)
      sub(steps, "least_squares", w, P(yr, 1), objective.least_squares, dict(data=(Xj, jnp.asarray(yr))))
      sub(steps, "binary_logreg", w, P(yb, 1), objective.binary_logreg, dict(data=(Xj, jnp.asarray(yb))))
    elif part == 1:
      dat = (Xj, jnp.asarray(ym))
      rec(steps, "multiclass_logreg", W.reshape(-1), P(ym, k), lambda q: objective.multiclass_logreg(q, dat), jnp.asarray(W), True, r)
      rec(steps, "l2_multiclass_logreg", W.reshape(-1), P(ym, k), lambda q: objective.l2_multiclass_logreg(q, l2, dat), jnp.asarray(W), True, r)
      Wb = (jnp.asarray(W), jnp.asarray(b))
      x = onp.concatenate([W.reshape(-1), b])
      rec(steps, "multiclass_logreg_with_intercept", x, P(ym, k), lambda q: objective.multiclass_logreg_with_intercept(q, dat), Wb, True, r)
      rec(steps, "l2_multiclass_logreg_with_intercept", x, P(ym, k), lambda q: objective.l2_multiclass_logreg_with_intercept(q, l2, dat), Wb, True, r)
      lip(steps, "multiclass_logreg", 0 * W.reshape(-1), P(ym, k), lambda: objective.multiclass_logreg.columnwise_lipschitz_const(dat), d, k, r)
      sub(steps, "multiclass_logreg", W, P(ym, k), objective.multiclass_logreg, dict(data=dat))
    else:
      l2 = [0.1, 1.0, 25.0][j]
      Y = onp.eye(k)[ym]
      B = r.dirichlet(onp.ones(k), n)
      p = [vec(Y), [num(l2)], [k]] + mat(X)
      f = objective.multiclass_linear_svm_dual
      rec(steps, "multiclass_linear_svm_dual", B.reshape(-1), p, lambda q: f(q, l2, (Xj, jnp.asarray(Y))), jnp.asarray(B), True, r)
      rec(steps, "multiclass_linear_svm_dual", B.reshape(-1), p, lambda q: f(q, l2reg=l2, data=(Xj, jnp.asarray(Y))), jnp.asarray(B), False, r)
      lip(steps, "multiclass_linear_svm_dual", B.reshape(-1), p, lambda: f.columnwise_lipschitz_const(l2, (Xj, jnp.asarray(Y))), n, k, r)
      sub(steps, "multiclass_linear_svm_dual", B, p, f, dict(l2reg=l2, data=(Xj, jnp.asarray(Y))))
  return [dict(id=f"objective:{part}#{seed}", site=f"objective{part}", steps=steps)]


def sub(steps, kind, W, p, f, kw):
  """The composite form subfun(linop(W)) + <W, b> used by coordinate descent."""
  import jax.numpy as jnp
  def go(W):
    v = f.subfun(f.make_linop(**kw).matvec(W), **kw)
    b = f.b(**kw)
    return v if b is None else v + jnp.vdot(W, b)
  rec(steps, kind, onp.asarray(W).reshape(-1), p, go, jnp.asarray(W), False)


def lip(steps, kind, x, p, fn, d, k, r):
  s = dict(op="lipschitz", kind=kind, x=vec(x), p=p, exc="", struct=True, y=[], dirs=[], coord=[])
  y, s["exc"] = guarded(fn)
  if not s["exc"]:
    s["y"] = vec(y)
  for j in range(d):
    for t in range(2):
      v = onp.zeros((d, k))
      v[j] = r.randn(k)
      if k > 1 and t == 0:
        v[j] = 0
        v[j, 0], v[j, 1] = 1, -1
      s["dirs"].append(vec(v))
      s["coord"].append(j + 1)
  steps.append(s)


def operator(seed):
  import jax, jax.numpy as jnp
  from jaxopt._src import base
  r = onp.random.RandomState(seed + 77)
  steps = []
  def add(kind, x, p, fn):
    s = dict(op="point", kind=kind, x=vec(x), p=p, exc="", struct=True, y=[])
    y, s["exc"] = guarded(fn)
    if not s["exc"]:
      s["y"] = flat(y)
    steps.append(s)
  for n, d in ((3, 2), (2, 4), (1, 3)):
    A = r.randn(n, d)
    L = base.LinearOperator(A)
    x, z = r.randn(d), r.randn(n)
    add("matvec", x, mat(A), lambda: L.matvec(jnp.asarray(x)))
    add("rmatvec", z, mat(A), lambda: L.rmatvec(jnp.asarray(z)))
    for i in range(n):
      add("matvec", x, [vec(A[i])], lambda: [L.matvec_element(jnp.asarray(x), i)])
    for j in range(d):
      add("rmatvec", z, [[num(a)] for a in A[:, j]], lambda: [L.rmatvec_element(jnp.asarray(z), j)])
      delta = float(r.randn())
      x2 = x.copy()
      x2[j] += delta
      add("matvec", x2, mat(A), lambda: L.update_matvec(jnp.asarray(A @ x), delta, j))
      M = r.randn(d, 3)
      dl = r.randn(3)
      M2 = M.copy()
      M2[j] += dl
      upd, exc = guarded(lambda: L.update_matvec(jnp.asarray(A @ M), jnp.asarray(dl), j))
      for c in range(3):
        add("matvec", M2[:, c], mat(A), lambda: upd[:, c] if not exc else L.update_matvec(A @ M, dl, j))
    for i in range(n):
      delta = float(r.randn())
      z2 = z.copy()
      z2[i] += delta
      add("rmatvec", z2, mat(A), lambda: L.update_rmatvec(jnp.asarray(A.T @ z), delta, i))
    # column norms: |A_j|^2 = <A_j, A_j>
    for j in range(d):
      add("matvec", A[:, j], [vec(A[:, j])], lambda: [L.column_l2_norms(squared=True)[j]])
      add("matvec", A[:, j], [vec(A[:, j])], lambda: [L.column_l2_norms()[j] ** 2])
  return [dict(id=f"LinearOperator#{seed}", steps=steps)]
