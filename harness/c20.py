"""C20: isotonic regression against the min-max oracle."""
import numpy as onp
from common import *

DESIGN = [("MCIsotonic", "MCIsotonic.cfg")]
DESIGN_THOROUGH = [("MCIsotonic", "MCIsotonic5.cfg")]
TRACE = "TraceIso"
ASSUMPTIONS = ["float64 and float32; length <= 14 (30 thorough); derivatives away from kinks"]


def jobs(ctx):
  m = 2 if ctx.quick else 10
  return [("values", (ctx.seed + 31 * j, 30 if not ctx.quick else 14)) for j in range(m)] + [
      ("derivs", (ctx.seed + 31 * j,)) for j in range(m)] + [("batched", (ctx.seed + 31 * j,)) for j in range(m)]


def data(r, n):
  c = r.randint(8)
  if c == 0:
    return r.randint(-2, 3, n).astype(float)           # many ties
  if c == 1:
    return onp.sort(r.randn(n))                        # already monotone
  if c == 2:
    return onp.sort(r.randn(n))[::-1].copy()           # one block
  if c == 3:
    return onp.repeat(r.randn((n + 1) // 2), 2)[:n]
  if c == 4:
    return r.randn(n) * 1e6
  if c == 5:
    return onp.zeros(n) + r.randint(-1, 2)
  if c == 6:                                           # nested blocks: backtracking over many
    return onp.concatenate([onp.arange(n - 1.0) + 0.1 * r.rand(n - 1), [-3.0 * n]])[:n]
  return r.randn(n)


def near(r, n):
  """Blocks whose values differ, by 1e-6 to 1."""
  y = onp.cumsum(10.0 ** r.uniform(-6, 0, n)) * r.choice([1.0, -1.0]) - 0.3
  for i in range(0, n - 1, 3):
    if r.randint(2):
      y[i], y[i + 1] = y[i + 1], y[i]
  return y


def bounds(r):
  c = r.randint(4)
  return [(-onp.inf, onp.inf), (-0.5, onp.inf), (-onp.inf, 0.3), (-0.4, 0.6)][c]


def P(lo, hi, inc):
  return [[num(lo)], [num(hi)], ["1" if inc else "0"]]


def call(lo, hi, inc, how):
  from jaxopt.isotonic import isotonic_l2_pav as f
  if how == 0:
    kw = {} if inc else dict(increasing=False)
    if lo > -onp.inf:
      kw["y_min"] = lo
    if hi < onp.inf:
      kw["y_max"] = hi
    return lambda y: f(y, **kw)
  return lambda y: f(y, lo, hi, inc)


def point(steps, y, lo, hi, inc, fn, arr=None):
  s = dict(op="point", kind="iso", x=vec(y), p=P(lo, hi, inc), y=[], exc="", struct=True)
  import jax.numpy as jnp
  a = jnp.asarray(y) if arr is None else arr
  o, s["exc"] = guarded(fn, a)
  if not s["exc"]:
    s["struct"] = o.shape == a.shape and o.dtype == a.dtype
    s["y"] = flat(o)
  steps.append(s)


def values(seed, nmax):
  import jax, jax.numpy as jnp
  r = onp.random.RandomState(seed)
  s64, s32 = [], []
  for j in range(70):
    n = int(r.randint(1, nmax + 1))
    y = data(r, n)
    lo, hi = bounds(r)
    inc = bool(r.randint(2))
    fn = call(lo, hi, inc, r.randint(2))
    point(s64, y, lo, hi, inc, jax.jit(fn) if j % 7 == 0 else fn)
    if j % 3 == 0:
      y32 = y.astype(onp.float32)
      point(s32, y32.astype(float), onp.float32(lo), onp.float32(hi), inc, fn, jnp.asarray(y32))
  return [dict(id=f"values#{seed}", tol="1E-12", steps=s64), dict(id=f"values32#{seed}", tol="3E-6", steps=s32)]


def derivs(seed):
  import jax, jax.numpy as jnp
  r = onp.random.RandomState(seed + 7)
  steps = []
  for j in range(30):
    n = [8, 5, 2, 1][j % 4]
    y = near(r, n) if j % 3 == 0 else data(r, n) if j % 2 else r.randn(n)
    y = onp.clip(y, -50, 50)
    lo, hi = bounds(r)
    inc = bool(r.randint(2))
    fn = call(lo, hi, inc, r.randint(2))
    dx, w = r.randn(n), r.randn(n)
    s = dict(op="deriv", kind="iso", x=vec(y), p=P(lo, hi, inc), dx=vec(dx), dp=[], dpf=[], w=vec(w), dy=[], gx=[], gp=[],
             exc="", struct=True)

    def both():
      dy = jax.jvp(fn, (jnp.asarray(y),), (jnp.asarray(dx),))[1]
      gx = jax.vjp(fn, jnp.asarray(y))[1](jnp.asarray(w))[0]
      return dy, gx
    o, s["exc"] = guarded(both)
    if not s["exc"]:
      s["dy"], s["gx"] = flat(o[0]), flat(o[1])
    steps.append(s)
  return [dict(id=f"derivs#{seed}", tol="1E-12", steps=steps)]


def batched(seed):
  """vmap of values and of derivatives: one row at a time in the trace."""
  import jax, jax.numpy as jnp
  r = onp.random.RandomState(seed + 9)
  steps = []
  for inc in (True, False):
    lo, hi = bounds(r)
    fn = call(lo, hi, inc, 1)
    Y = onp.stack([onp.clip(data(r, 7), -50, 50) for _ in range(6)])
    DX, W = r.randn(6, 7), r.randn(6, 7)
    v, exc = guarded(lambda: jax.jit(jax.vmap(fn))(jnp.asarray(Y)))
    d, exc2 = guarded(lambda: (jax.vmap(lambda y, t: jax.jvp(fn, (y,), (t,))[1])(jnp.asarray(Y), jnp.asarray(DX)),
                               jax.vmap(lambda y, w: jax.vjp(fn, y)[1](w)[0])(jnp.asarray(Y), jnp.asarray(W))))
    for b in range(6):
      steps.append(dict(op="point", kind="iso", x=vec(Y[b]), p=P(lo, hi, inc), exc=exc, struct=True, y=[] if exc else vec(v[b])))
      steps.append(dict(op="deriv", kind="iso", x=vec(Y[b]), p=P(lo, hi, inc), dx=vec(DX[b]), dp=[], dpf=[], w=vec(W[b]),
                        gp=[], exc=exc2, struct=True, dy=[] if exc2 else vec(d[0][b]), gx=[] if exc2 else vec(d[1][b])))
  return [dict(id=f"batched#{seed}", tol="1E-12", steps=steps)]
