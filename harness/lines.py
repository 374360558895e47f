"""Line-search scenarios shared by C05 and C06 (traces of TraceLine)."""
import numpy as onp
from common import *

KINDS = ["armijo", "goldstein", "wolfe", "strong-wolfe", "zoom", "hager-zhang"]
OBJ = ["quad", "rosen", "osc", "barrier", "steep", "flat", "big", "complex", "tree", "adv", "advnan", "lse"]


def objective(name, r):
  """fun(params, data) -> value (jnp), sampler() -> (params, data)."""
  import jax, jax.numpy as jnp
  n = 3
  if name in ("quad", "flat", "big"):
    sc = dict(quad=1.0, flat=1e-9, big=1e7)[name]
    f = lambda x, d: sc * (0.5 * jnp.vdot(x, d[0] @ x) - jnp.vdot(d[1], x))

    def sample():
      M = r.randn(n, n)
      return r.randn(n), (M @ M.T + 0.1 * onp.eye(n), r.randn(n))
  elif name == "rosen":
    f = lambda x, d: d[0] * (x[1] - x[0] ** 2) ** 2 + (1 - x[0]) ** 2
    sample = lambda: (r.randn(2) * 1.5, (float(r.choice([1.0, 10.0, 100.0])),))
  elif name == "osc":
    f = lambda x, d: jnp.sum(jnp.sin(d[0] * x)) + 0.05 * jnp.sum(x ** 2) + d[1]
    sample = lambda: (r.randn(2) * 3, (float(r.choice([1.0, 5.0, 20.0])), float(r.choice([0.0, 100.0, -2.0]))))
  elif name == "barrier":
    f = lambda x, d: -jnp.sum(jnp.log(x)) + jnp.vdot(d[0], x)
    sample = lambda: (r.rand(2) * 2 + 0.02, (r.randn(2) + 1.5,))
  elif name == "steep":
    f = lambda x, d: jnp.sum(jnp.exp(d[0] * x)) + jnp.sum(x ** 2)
    sample = lambda: (r.rand(2) * 1.5, (float(r.choice([1.0, 10.0, 40.0])),))
  elif name == "lse":
    f = lambda x, d: jax.nn.logsumexp(d[0] @ x) + 0.01 * jnp.vdot(x, x)
    sample = lambda: (r.randn(n), (r.randn(4, n) * 2,))
  elif name == "complex":
    f = lambda z, d: jnp.sum(d[0] * jnp.abs(z - d[1]) ** 2) + 0.1 * jnp.sum(jnp.real(z) ** 4)
    sample = lambda: (r.randn(2) + 1j * r.randn(2), (r.rand(2) + 0.2, r.randn(2) + 1j * r.randn(2)))
  elif name == "tree":
    f = lambda p, d: jnp.sum((p["a"] - d[0]) ** 2) * 2 + jnp.cosh(p["b"][0]) + 0.3 * jnp.sum(p["b"][1] ** 4)
    sample = lambda: (dict(a=r.randn(2), b=(r.randn(), r.randn(1, 2))), (r.randn(2),))
  else:       # value and slope unrelated: every branch of a search gets visited
    nan = name == "advnan"

    def f(x, d):
      t = x[0] / d[3]
      v = d[0] * jnp.sin(d[1] * t + d[2]) * (0.2 + t) - d[4] * t
      s = jnp.cos(3.7 * d[1] * t + 1.3 * d[2]) * d[5] + d[6]
      if nan:
        v = jnp.where(jnp.sin(11.0 * t + d[2]) > 0.55, jnp.where(d[2] > 0, jnp.nan, jnp.inf), v)
      s = jnp.where(t == 0, d[8], s)         # the pair agrees with itself at the start
      return v + d[7], jnp.array([s / d[3]])
    sample = lambda: (onp.zeros(1), (float(r.choice([0.1, 1.0])), float(r.choice([0.7, 3.0, 9.0])), r.randn() * 3,
                                     float(r.choice([0.5, 1.0])), float(r.choice([0.0, 0.05, 0.5])),
                                     float(r.choice([0.2, 1.0])), float(r.choice([0.0, -0.3])), float(r.choice([0.0, 1.0, -3.0])), -float(r.choice([0.5, 1.0, 2.0]))))
    return f, sample, True
  return f, sample, False


def rflat(t):
  """Real coordinates of a tree of parameters (re, im interleaved by leaf)."""
  out = []
  for l in leaves(t):
    a = onp.asarray(l)
    out += list(a.real.ravel())
    if onp.iscomplexobj(a):
      out += list(a.imag.ravel())
  return onp.array(out, dtype=float)


def gflat(t):
  """Gradient in those coordinates (jax returns the conjugate)."""
  return rflat([onp.conj(onp.asarray(l)) for l in leaves(t)])


def make(kind, fun, cfg, **kw):
  import jaxopt
  c = {k: cfg[k] for k in ("maxiter", "c1", "c2")}
  if "tol" in cfg:
    c["tol"] = cfg["tol"]
  if kind == "zoom":
    return jaxopt._src.zoom_linesearch.ZoomLineSearch(fun, max_stepsize=cfg["max"], increase_factor=cfg["factor"], **c, **kw)
  if kind == "hager-zhang":
    return jaxopt.HagerZhangLineSearch(fun, **c, **kw)
  return jaxopt.BacktrackingLineSearch(fun, condition=kind, max_stepsize=cfg["max"], decrease_factor=cfg["factor"], **c, **kw)


def config(kind, r):
  c1, c2 = [(1e-4, 0.9), (0.1, 0.9), (0.3, 0.4), (0.05, 0.1)][r.randint(4)]
  if kind == "goldstein":
    c1 = [0.1, 0.3][r.randint(2)]
  if kind == "hager-zhang":
    c1, c2 = [(0.1, 0.9), (0.1, 0.5), (0.3, 0.4)][r.randint(3)]
  cfg = dict(c1=c1, c2=c2, maxiter=int(r.choice([4, 12, 30])), max=float(r.choice([1.0, 5.0, 64.0])),
             factor=float(r.choice([1.5, 2.0, 4.0])) if kind == "zoom" else float(r.choice([0.5, 0.8, 0.3])))
  if r.rand() < 0.2:
    cfg["tol"] = 1e-3
  return cfg


def consts(cfg, kind, f0, s0):
  return dict(c1=num(cfg["c1"]), c2=num(cfg["c2"]), c3="1E-6", tol=num(cfg.get("tol", 0)), factor=num(cfg["factor"]), max=num(cfg["max"]),
              maxiter=cfg["maxiter"], f0=num(f0), s0=num(s0))


def run_kind(kind, obj, seed, count):
  """One compiled line search, `count` problems."""
  import jax, jax.numpy as jnp
  tu = jax.tree_util
  r = onp.random.RandomState(seed + sum(map(ord, kind + obj)))
  f, sample, pair = objective(obj, r)
  cfg = config(kind, r)
  mode = r.randint(3)         # plain fun, (value, grad) fun, separate callable
  aux = bool(r.randint(2))
  auxf = lambda x: dict(m=tu.tree_map(lambda l: 2 * l, x), k=jnp.asarray(3.0))
  vg = f if pair else jax.value_and_grad(f)
  if pair:
    mode = 1
  if mode == 1:
    fun = (lambda x, d: (((lambda v, g: ((v, auxf(x)), g))(*vg(x, d))))) if aux else vg
    ls = make(kind, fun, cfg, value_and_grad=True, has_aux=aux)
  else:
    fun = (lambda x, d: (f(x, d), auxf(x))) if aux else f
    if mode == 0:
      ls = make(kind, fun, cfg, has_aux=aux)
    else:
      ls = make(kind, fun, cfg, value_and_grad=(lambda x, d: ((vg(x, d)[0], auxf(x)), vg(x, d)[1])) if aux else vg, has_aux=aux)
  given = bool(r.randint(3))        # start value and gradient given, or not
  steep = r.rand() < 0.25           # no direction: steepest descent
  vgj = jax.jit(vg)
  run = jax.jit(lambda t0, x, v, g, D, d: ls.run(t0, x, v if given else None, g if given else None, None if steep else D, (d,)))
  steps = []
  for j in range(count):
    x, d = sample()
    x = tu.tree_map(jnp.asarray, x)
    f0, g0 = vgj(x, d)
    if not onp.all(onp.isfinite(rflat(g0))) or not onp.isfinite(float(f0)):
      continue
    c = j % 4
    D = tu.tree_map(lambda g: -jnp.conj(g), g0)
    if c == 1:
      D = tu.tree_map(lambda g: g * float(10 ** r.uniform(-3, 2)), D)
    elif c >= 2:
      D = tu.tree_map(lambda g: g * jnp.asarray(0.1 + r.rand(*g.shape)), D)
    if steep:
      D = tu.tree_map(lambda g: -jnp.conj(g), g0)
    if obj.startswith("adv"):
      D = -g0 if steep else jnp.ones(1) * d[3]
    s0 = float(gflat(g0) @ rflat(D))
    if not s0 < 0:
      continue
    t0 = float(r.choice([1e-3, 0.3, 1.0, 7.0, 1.0]))
    out, exc = guarded(run, t0, x, f0, g0, D, d)
    steps.append(record(kind, cfg, t0, x, D, f0, g0, s0, out, exc, lambda p: vgj(p, d), auxf if aux else None, obj))
  return [dict(id=f"{kind}-{obj}#{seed}", site=kind, steps=steps)] if steps else []


def record(kind, cfg, t0, x, D, f0, g0, s0, out, exc, vg, auxf, obj, trials=None):
  from jax.tree_util import tree_structure
  st = dict(op="run", kind=kind, obj=obj, c=consts(cfg, kind, f0, s0), t0=num(t0), x=vec(rflat(x)), d=vec(rflat(D)), exc=exc,
            t="0", params=[], value="0", grad=[], done=False, failed=False, iter_num=0, fref="0", gref=[], sref="0", aux=[], auxref=[],
            trials=trials or [], smooth=obj not in ("barrier", "advnan", "steep"), struct=False)
  if exc:
    return st
  s = out.state
  fr, gr = vg(s.params)
  st.update(t=num(out.stepsize), params=vec(rflat(s.params)), value=num(s.value), grad=vec(gflat(s.grad)), done=bool(s.done),
            failed=bool(s.failed), iter_num=int(s.iter_num), fref=num(fr), gref=vec(gflat(gr)), sref=num(gflat(gr) @ rflat(D)),
            struct=tree_structure(s.params) == tree_structure(x))
  if auxf is not None:
    st.update(aux=vec(rflat(s.aux)) if s.aux is not None else [], auxref=vec(rflat(auxf(s.params))))
  return st


def eager_zoom(obj, seed, count):
  """The zoom search run uncompiled, with every trial point recorded."""
  import jax, jax.numpy as jnp
  tu = jax.tree_util
  r = onp.random.RandomState(seed + 17 + sum(map(ord, obj)))
  f, sample, pair = objective(obj, r)
  vgj = jax.jit(f if pair else jax.value_and_grad(f))
  log = []

  def vg(x, d):
    v, g = vgj(x, d)
    log.append((x, v, g))
    return v, g
  steps = []
  for j in range(count):
    cfg = config("zoom", r)
    ls = make("zoom", vg, cfg, value_and_grad=True, jit=False, unroll=True)
    x, d = sample()
    x = tu.tree_map(jnp.asarray, x)
    f0, g0 = vgj(x, d)
    D = tu.tree_map(lambda g: -jnp.conj(g) * (1.0 if j % 2 else 0.1 + r.rand()), g0)
    if obj.startswith("adv"):
      D = jnp.ones(1) * d[3]
    s0 = float(gflat(g0) @ rflat(D))
    if not s0 < 0 or not onp.isfinite(float(f0)):
      continue
    t0 = float(r.choice([1e-3, 0.3, 1.0, 7.0]))
    log.clear()
    out, exc = guarded(ls.run, t0, x, f0, g0, D, (d,))
    fx, fD = rflat(x), rflat(D)
    tr = [[num((rflat(p) - fx) @ fD / (fD @ fD)), num(v), num(gflat(g) @ fD)] for p, v, g in log]
    steps.append(dict(record("zoom", cfg, t0, x, D, f0, g0, s0, out, exc, lambda p: vgj(p, d), None, obj, tr), op="zoom"))
  return [dict(id=f"eager-zoom-{obj}#{seed}", site="zoom", steps=steps)] if steps else []


def replay(cases, seed, part):
  """The behaviours of MCBacktrack."""
  import jax, jax.numpy as jnp
  r = onp.random.RandomState(seed + part)

  def fun(x, ts, fs, ss):
    k = jnp.argmin(jnp.abs(jnp.log(ts / x[0])))
    return fs[k], jnp.array([ss[k]])
  cache, steps = {}, []
  c1, c2 = 0.1, 0.9
  for ci, c in enumerate(cases):
    cd, mi = c["cond"], c["maxiter"]
    cfg = dict(c1=c1, c2=c2, maxiter=mi, max=[1.0, 2.0][part % 2], factor=[0.5, 0.8][part % 2])
    if (cd, mi) not in cache:
      ls = make(cd, fun, cfg, value_and_grad=True)
      cache[cd, mi] = jax.jit(lambda t0, fs, ss, ts, ls=ls: ls.run(t0, jnp.zeros(1), jnp.asarray(0.0), jnp.array([-1.0]), jnp.ones(1), (ts, fs, ss)))
    t0 = float(r.choice([0.7, 5.0, 1.0]))
    first = min(t0, cfg["max"])
    ts = first * cfg["factor"] ** onp.arange(3)
    fs, ss = onp.full(3, onp.nan), onp.full(3, onp.nan)
    for i, o in enumerate(c["hist"]):
      t = ts[i]
      if o == "nan":
        fs[i], ss[i] = [(onp.nan, 1.0), (0.0, onp.nan), (onp.inf, onp.nan)][r.randint(3)] if cd not in ("armijo", "goldstein") else (onp.nan, 1.0)
        continue
      dec, sec = o in ("ok", "decrease-only"), o in ("ok", "second-only")
      if cd == "goldstein":
        fs[i] = -0.5 * t if o == "ok" else -2 * t if dec else 1.0
        ss[i] = r.randn()
      else:
        fs[i] = -(0.101 + r.rand()) * t if dec else -(0.099 * r.randint(2)) * t
        ss[i] = r.uniform(-0.89, 0.89) if sec else -0.95
        if not sec and cd == "strong-wolfe" and r.randint(2):
          ss[i] = 0.95
        if sec and cd == "wolfe" and r.randint(2):
          ss[i] = 5.0
    out, exc = guarded(cache[cd, mi], t0, fs, ss, ts)
    vg = lambda p: fun(p, jnp.asarray(ts), jnp.asarray(fs), jnp.asarray(ss))
    st = record(cd, cfg, t0, onp.zeros(1), onp.ones(1), 0.0, jnp.array([-1.0]), -1.0, out, exc, vg, None, "script")
    st["op"] = "script"
    st["hist"] = c["hist"]
    st["trials"] = [[num(a), num(b), num(e)] for a, b, e in zip(ts, fs, ss)][:len(c["hist"])]
    st["smooth"] = False
    steps.append(st)
  return [dict(id=f"script{part}#{seed}", site="backtracking-script", steps=steps)]
