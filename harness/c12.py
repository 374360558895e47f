"""C12: projections return the nearest point of their set."""
import numpy as onp
from common import *

DESIGN = [("MCProj", "MCProj.cfg")]
TRACE = "TraceProj"
ASSUMPTIONS = ["float64; projections computed by an iterative solver (polyhedron, transport, box section) are "
               "compared within that solver's tolerance", "vectors of length <= 6, transport plans up to 3x3",
               "derivatives are checked where the projection is differentiable"]

VEC = ["non_negative", "box", "hypercube", "simplex", "l1_sphere", "l1_ball", "l2_sphere", "l2_ball", "linf_ball",
       "hyperplane", "halfspace", "affine_set", "box_section"]


def jobs(ctx):
  J = []
  reps = 1 if ctx.quick else 6
  for r in range(reps):
    sd = ctx.seed + 100 * r
    J += [("transport", (sd, k)) for k in range(4 if ctx.quick else 8)]
    J += [("poly", (sd, k)) for k in range(2)]
    J += [("vectors", (k, sd, 14 if ctx.quick else 40)) for k in VEC]
    J += [("sparse", (sd,)), ("trees", (sd,))]
  return J


def inputs(kind, r, n):
  """Inputs with ties, zeros, boundary points, large and small scales."""
  c = r.randint(9)
  if c == 0:
    x = onp.zeros(n)
  elif c == 1:
    x = r.randint(-2, 3, n).astype(float)
  elif c == 2:
    x = onp.full(n, float(r.choice([-1.5, 0.25, 2.0])))
  elif c == 3:
    x = r.randn(n) * 1e4
  elif c == 4:
    x = r.randn(n) * 1e-3
  elif c == 5:
    x = r.randn(n) * (r.rand(n) < 0.5)
  elif c == 6:
    x = -onp.abs(r.randn(n)) * 3
  else:
    x = r.randn(n) * r.choice([0.5, 1, 3])
  if kind == "l2_sphere" and not onp.any(x):
    x = onp.ones(n)
  return x


def params(kind, r, x):
  """(p for the specification, hyperparams for the code)."""
  n = len(x)
  s = float(r.choice([1.0, 0.3, 2.5, 7.0]))
  if kind == "non_negative":
    return [], None, None
  if kind == "box":
    a, b = r.randn(n), r.randn(n)
    lo, hi = onp.minimum(a, b), onp.maximum(a, b)
    if r.rand() < 0.3:
      k = r.randint(n)
      lo[k] = hi[k]
    inf = r.rand() < 0.25
    if inf:
      lo[r.randint(n)], hi[r.randint(n)] = -onp.inf, onp.inf
    return [lo, hi], (lambda p: (p[0], p[1])), not inf
  if kind in ("hypercube", "simplex", "l1_sphere", "l1_ball", "l2_sphere", "l2_ball", "linf_ball"):
    if r.rand() < 0.2 and kind.endswith("ball") and onp.any(x):    # exactly on the boundary
      q = dict(l1=onp.sum(onp.abs(x)), l2=onp.linalg.norm(x), li=onp.max(onp.abs(x)))[kind[:2]]
      s = float(q)
    return [onp.array([s])], (lambda p: p[0][0]), True
  if kind in ("hyperplane", "halfspace"):
    a = r.randn(n) * r.choice([1, 3])
    b = float(r.randn())
    if r.rand() < 0.2:
      b = float(a @ x)
    return [a, onp.array([b])], (lambda p: (p[0], p[1][0])), True
  if kind == "affine_set":
    m = 1 if n < 3 else r.randint(1, n)
    A = r.randn(m, n)
    b = r.randn(m)
    return [b] + [A[i] for i in range(m)], (lambda p: (p[1:], p[0])), True
  if kind == "box_section":
    w = 0.5 + 1.5 * r.rand(n)
    a, b = r.randn(n), r.randn(n)
    lo, hi = onp.minimum(a, b) - 0.1, onp.maximum(a, b) + 0.1
    t = float(r.choice([0.0, 0.1, 0.5, 0.9, 1.0]))
    c = (1 - t) * float(w @ lo) + t * float(w @ hi)
    if t in (0.0, 1.0):
      c = float(w @ (lo if t == 0.0 else hi))
    return [lo, hi, w, onp.array([c])], (lambda p: (p[0], p[1], p[2], p[3][0])), True
  raise KeyError(kind)


def caller(kind):
  import jax.numpy as jnp
  from jaxopt import projection
  f = getattr(projection, "projection_" + kind)
  if kind == "non_negative":
    return lambda x, p: f(x)
  if kind in ("simplex", "l1_sphere", "l1_ball", "l2_sphere", "l2_ball", "linf_ball", "hypercube"):
    return lambda x, p: f(x, p[0][0])
  if kind == "box":
    return lambda x, p: f(x, (p[0], p[1]))
  if kind in ("hyperplane", "halfspace"):
    return lambda x, p: f(x, (p[0], p[1][0]))
  if kind == "affine_set":
    return lambda x, p: f(x, (jnp.stack(p[1:]), p[0]))
  return lambda x, p: f(x, (p[0], p[1], p[2], p[3][0]))


def default_params(kind):
  """Functions with documented default parameters."""
  return kind in ("simplex", "l1_sphere", "l1_ball", "l2_sphere", "l2_ball", "linf_ball", "hypercube")


def vectors(kind, seed, N):
  import jax, jax.numpy as jnp
  from jaxopt import projection
  r = onp.random.RandomState(seed * 7919 + sum(map(ord, kind)))
  call = caller(kind)
  steps = []
  jitted = jax.jit(call)
  if kind == "box_section":
    N = max(8, N // 2)

  def point(mode, x, p, fn):
    s = dict(op="point", kind=kind, mode=mode, x=vec(x), p=[vec(q) for q in p], exc="", struct=True, y=[])
    y, s["exc"] = guarded(fn)
    if not s["exc"]:
      y = onp.asarray(y)
      s["struct"] = y.shape == x.shape and y.dtype == x.dtype
      s["y"] = vec(y)
    steps.append(s)

  sizes = [1, 2, 3, 5] if kind not in ("affine_set",) else [2, 3, 5]
  for k in range(N):
    n = sizes[k % len(sizes)]
    x = inputs(kind, r, n)
    if kind == "box_section":
      x = onp.clip(x, -5, 5)
    p, _, smooth = params(kind, r, x)
    if default_params(kind) and k % 4 == 3:
      p = [onp.array([1.0])]
      point("default", x, p, lambda: getattr(projection, "projection_" + kind)(jnp.asarray(x)))
    else:
      fn = jitted if k % 2 else call
      point("jit" if k % 2 else "eager", x, p, lambda: fn(jnp.asarray(x), [jnp.asarray(q) for q in p]))
    # derivatives with respect to input and parameters
    if k % 3 == 0 or not smooth:
      xs = r.randn(n) * 1.5
      p, _, smooth = params(kind, r, xs)
      if smooth is False:
        continue
      dx = r.randn(n)
      dp = [r.randn(*q.shape) for q in p]
      w = r.randn(n)
      s = dict(op="deriv", kind=kind, x=vec(xs), p=[vec(q) for q in p], dx=vec(dx), dp=[vec(q) for q in dp],
               dpf=flat(dp), w=vec(w), dy=[], gx=[], gp=[], exc="", struct=True)
      def go():
        a = (jnp.asarray(xs), [jnp.asarray(q) for q in p])
        # solver-based projections are differentiable in reverse mode only
        dy = [] if kind in ("affine_set", "box_section") else jax.jvp(call, a, (jnp.asarray(dx), [jnp.asarray(q) for q in dp]))[1]
        _, f = jax.vjp(call, *a)
        gx, gp = f(jnp.asarray(w))
        return dy, gx, gp
      res, s["exc"] = guarded(go)
      if not s["exc"]:
        s["dy"], s["gx"], s["gp"] = vec(res[0]), vec(res[1]), flat(res[2])
      steps.append(s)
  # batched
  n = 3
  X = onp.stack([inputs(kind, r, n) if kind != "box_section" else r.randn(n) for _ in range(5)])
  p, _, _ = params(kind, r, X[0])
  Y, exc = guarded(lambda: jax.vmap(call, in_axes=(0, None))(jnp.asarray(X), [jnp.asarray(q) for q in p]))
  for b in range(5):
    point("vmap", X[b], p, lambda: Y[b] if not exc else call(None, p))
  # scalar bounds broadcast
  if kind == "box":
    for lo, hi in ((-0.5, 0.25), (0.0, 0.0), (-onp.inf, 1.0)):
      x = r.randn(4)
      point("scalar", x, [onp.full(4, lo), onp.full(4, hi)], lambda: projection.projection_box(jnp.asarray(x), (lo, hi)))
      point("scalar-lo", x, [onp.full(4, lo), onp.full(4, hi)],
            lambda: projection.projection_box(jnp.asarray(x), (lo, jnp.full(4, hi))))
  if kind == "simplex":
    x = r.randn(3)
    point("value=None", x, [onp.array([1.0])], lambda: projection.projection_simplex(jnp.asarray(x), None))
  if kind == "l1_sphere":
    # a point whose coordinates are all zero after thresholding but one
    x = onp.array([-5.0, 0.1, 0.0])
    point("eager", x, [onp.array([1.0])], lambda: call(jnp.asarray(x), [jnp.array([1.0])]))
  if kind == "box_section":
    for k in range(8):
      w = 0.5 + r.rand(3)
      lo, hi = -r.rand(3), r.rand(3)
      c = [float(w @ lo) - 1e-3, float(w @ lo) - 2.0, float(w @ hi) + 1e-3, float(w @ hi) + 2.0,
           0.0, 0.5 * float(w @ hi), 0.5 * float(w @ lo), 0.9 * float(w @ hi)][k]
      x = r.randn(3)
      s = dict(op="check", kind=kind, x=vec(x), p=[vec(lo), vec(hi), vec(w), [num(c)]], exc="", struct=True, raised=False)
      try:
        projection.projection_box_section(jnp.asarray(x), (jnp.asarray(lo), jnp.asarray(hi), jnp.asarray(w), c), check_feasible=True)
      except ValueError:
        s["raised"] = True
      except Exception as e:
        s["exc"] = exc_name(e)
      steps.append(s)
  return [dict(id=f"projection_{kind}#{seed}", steps=steps)]


def sparse(seed):
  import jax, jax.numpy as jnp
  from jaxopt import projection
  r = onp.random.RandomState(seed + 5)
  steps = []
  for k in range(18):
    n = int(r.choice([2, 3, 5]))
    nz = int(r.randint(1, n + 1))
    v = float(r.choice([1.0, 0.4, 3.0]))
    x = inputs("sparse", r, n)
    s = dict(op="sparse", kind="sparse", x=vec(x), p=[[num(v)]], k=nz, exc="", struct=True, y=[])
    kw = dict(max_nz=nz)
    if v != 1.0 or k % 2:
      kw["value"] = v
    if k % 5 == 4:
      kw["use_approx_max_nz"] = True      # exact on CPU
    f = lambda z: projection.projection_sparse_simplex(z, **kw)
    y, s["exc"] = guarded((jax.jit(f) if k % 4 == 3 else f), jnp.asarray(x))
    if not s["exc"]:
      s["struct"] = y.shape == x.shape
      s["y"] = vec(y)
    steps.append(s)
  # derivative: on a fixed support it is that of the simplex projection
  for k in range(6):
    n, nz = 4, int(r.randint(1, 4))
    x = r.randn(n) * (0.3 if k % 2 else 1.5)
    top = onp.argsort(-x)[:nz]
    dx, w = r.randn(n), r.randn(n)
    v = 1.0 if k % 2 else 2.0
    f = lambda z, u: projection.projection_sparse_simplex(z, max_nz=nz, value=u)
    s = dict(op="deriv", kind="simplex", x=vec(x[top]), p=[[num(v)]], dx=vec(dx[top]), dp=[[num(0.7)]], dpf=[num(0.7)],
             w=vec(w[top]), dy=[], gx=[], gp=[], exc="", struct=True)
    def go():
      a = (jnp.asarray(x), jnp.asarray(v))
      _, dy = jax.jvp(f, a, (jnp.asarray(dx), jnp.asarray(0.7)))
      _, g = jax.vjp(f, *a)
      return (dy,) + g(jnp.asarray(w))
    res, s["exc"] = guarded(go)
    if not s["exc"]:
      off = [i for i in range(n) if i not in top]
      s["struct"] = not onp.any(onp.asarray(res[0])[off]) and not onp.any(onp.asarray(res[1])[off])
      s["dy"], s["gx"], s["gp"] = vec(onp.asarray(res[0])[top]), vec(onp.asarray(res[1])[top]), [num(res[2])]
    steps.append(s)
  return [dict(id=f"projection_sparse_simplex#{seed}", steps=steps)]


def trees(seed):
  """Projections documented for pytrees, on trees."""
  import jax, jax.numpy as jnp
  from jaxopt import projection
  r = onp.random.RandomState(seed + 17)
  steps = []

  def tree(v):
    v = jnp.asarray(v)
    return {"b": v[:2], "a": (v[2:6].reshape(2, 2), [v[6]])}

  def add(kind, xv, pv, fn):
    x = tree(xv)
    order = onp.asarray(fvec(x))
    s = dict(op="point", kind=kind, mode="tree", x=flat(x), p=pv, exc="", struct=True, y=[])
    y, s["exc"] = guarded(fn, x)
    if not s["exc"]:
      s["struct"] = (jax.tree_util.tree_structure(y) == jax.tree_util.tree_structure(x)
                     and all(onp.shape(a) == onp.shape(b) for a, b in zip(leaves(x), leaves(y))))
      s["y"] = flat(y)
    steps.append(s)

  for k in range(4):
    xv = r.randn(7) * (1 + k)
    add("non_negative", xv, [], projection.projection_non_negative)
    lo, hi = tree(-r.rand(7)), tree(r.rand(7))
    add("box", xv, [flat(lo), flat(hi)], lambda x: projection.projection_box(x, (lo, hi)))
    sl, sh = -0.3 - k, 0.5
    ful = lambda c: jax.tree_util.tree_map(lambda l: jnp.full_like(l, c), tree(xv))
    add("box", xv, [flat(ful(sl)), flat(ful(sh))], lambda x: projection.projection_box(x, (ful(sl), ful(sh))))
    for kind in ("l2_sphere", "l2_ball"):
      rad = [0.5, 2.0, 50.0, 1.0][k]
      add(kind, xv, [[num(rad)]], lambda x: getattr(projection, "projection_" + kind)(x, rad))
    a = tree(r.randn(7))
    b = float(r.randn())
    for kind in ("hyperplane", "halfspace"):
      add(kind, xv, [flat(a), [num(b)]], lambda x: getattr(projection, "projection_" + kind)(x, (a, b)))
    # large trees with entries that would overflow when squared leaf-wise are not used
  return [dict(id=f"trees#{seed}", steps=steps)]


def poly(seed, which):
  import jax, jax.numpy as jnp
  from jaxopt import projection
  r = onp.random.RandomState(seed + 31 + which)
  steps = []
  n = 3
  for k in range(6):
    A = r.randn(1, n)
    G = r.randn(3, n)
    z = r.randn(n)
    b = A @ z
    h = G @ z + (0.3 * r.rand(3) if k % 2 else r.rand(3) * (r.rand(3) < 0.5))
    x = r.randn(n) * 2
    s = dict(op="poly", kind="polyhedron", x=vec(x), A=mat(A), b=vec(b), G=mat(G), h=vec(h), exc="", struct=True, y=[],
             raised=False, tol="3E-2")
    if which == 0:
      f = lambda: projection.projection_polyhedron(jnp.asarray(x), tuple(map(jnp.asarray, (A, b, G, h))))
    else:
      f = lambda: projection.projection_polyhedron(jnp.asarray(x), tuple(map(jnp.asarray, (A, b, G, h))), check_feasible=False)
    if which == 0 and k == 5:     # an empty polyhedron
      G2 = onp.stack([G[0], -G[0], G[1]])
      h2 = onp.array([-3.0, -3.0, 1.0])
      s.update(G=mat(G2), h=vec(h2))
      f = lambda: projection.projection_polyhedron(jnp.asarray(x), tuple(map(jnp.asarray, (A, b, G2, h2))))
    try:
      y = f()
      s["struct"] = y.shape == x.shape
      s["y"] = vec(y)
    except ValueError as e:
      s["raised"] = True
    except Exception as e:
      s["exc"] = exc_name(e)
    steps.append(s)
  return [dict(id=f"projection_polyhedron:{which}#{seed}", steps=steps)]


def transport(seed, which):
  import jax, jax.numpy as jnp, jaxopt
  from jaxopt import projection
  r = onp.random.RandomState(seed * 13 + which)
  steps = []
  tight = lambda fun: jaxopt.LBFGS(fun=fun, tol=1e-11, maxiter=2000, linesearch="zoom")
  loose = None
  kl = which % 2 == 1
  semi = which < 2 or which in (4, 5)
  shapes = [(2, 3), (3, 2)]
  name = ("kl_" if kl else "") + "projection_"
  for k, (m, n) in enumerate(shapes):
    for ms, tol, vtol in ((tight, "1E-7", "1E-6"), (loose, "8E-3", "5E-2")):
      if ms is None and (kl != (k == 0)):
        continue
      S = r.randn(m, n)
      a = 0.2 + r.rand(m)
      a /= a.sum()
      b = 0.2 + r.rand(n)
      b /= b.sum()
      if k == 1 and ms is tight:     # total mass other than one
        a, b = 2.5 * a, 2.5 * b
      steps.append(rec_transport(S, a, b, kl, False, tol, vtol,
                   lambda: getattr(projection, name + "transport")(jnp.asarray(S), (jnp.asarray(a), jnp.asarray(b)), make_solver=ms, use_semi_dual=semi)))
  S = r.randn(3, 3)
  one = onp.ones(3)
  steps.append(rec_transport(S, one, one, kl, True, "1E-7", "1E-6",
               lambda: getattr(projection, name + "birkhoff")(jnp.asarray(S), make_solver=tight, use_semi_dual=semi)))
  return [dict(id=f"{name}transport:{'semi' if semi else 'dual'}{which}#{seed}", site=name + "transport", steps=steps)]


def rec_transport(S, a, b, kl, perm, tol, vtol, fn):
  s = dict(op="transport", kind="transport", x=mat(S), a=vec(a), b=vec(b), kl=kl, perm=perm, tol=tol, vtol=vtol, exc="", struct=True, y=[])
  y, s["exc"] = guarded(fn)
  if not s["exc"]:
    s["struct"] = onp.shape(y) == S.shape
    s["y"] = mat(y)
  return s
