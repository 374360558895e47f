"""C24: stochastic solvers, batch by batch, against Stoch.tla."""
import numpy as onp
from common import *
from c08 import shape

DESIGN = [("MCStoch", "MCStoch.cfg")]
GENERATE = ("MCStoch", "MCStoch.cfg")
TRACE = "TraceStoch"
ASSUMPTIONS = ["float64 (float32 for some gradient transformations); batches are quadratic-plus-quartic objectives in 3 variables, some with a logarithmic barrier",
               "decisions of the step-size search within 1e-12 of their bound are accepted either way"]
N = 3


def jobs(ctx):
  cases = sorted({(c["L"], c["maxiter"], c["drawn"], c["updates"]) for c in ctx.cases})
  J = []
  for j in range(1 if ctx.quick else 8):
    sd = ctx.seed + 53 * j
    J += [("polyak", (v, k, sd)) for v in ("SPS_max", "SPS+") for k in range(2)]
    J += [("armijo", (rs, k, sd)) for rs in ("increase", "conservative", "goldstein") for k in range(2)]
    J += [("optax_", (op, sd)) for op in ("sgd", "momentum", "schedule", "decay", "clip", "adam")]
    J += [("iterator", (cases, s, sd)) for s in ("polyak", "armijo", "optax")]
  return J


def batch(r, kind="plain"):
  M = r.randn(N, N)
  o = dict(Q=M @ M.T / N, c=r.randn(N), q=r.rand(N) * float(r.choice([0.0, 1.0])), l=onp.asarray(0.0))
  if kind == "log":
    o.update(l=onp.asarray(r.rand() + 0.2), c=-5 * r.rand(N))
  if kind == "steep":
    o.update(Q=40 * o["Q"], c=10 * o["c"])
  if kind == "interp":
    # zero value and gradient at the origin, exactly
    o.update(c=onp.zeros(N))
  return {k: onp.asarray(v) for k, v in o.items()}


def loss(un):
  import jax.numpy as jnp

  def f(w, data):
    x = un(w)
    v = 0.5 * jnp.vdot(x, data["Q"] @ x) - jnp.vdot(data["c"], x) + 0.25 * jnp.sum(data["q"] * x ** 4)
    return v - jnp.where(data["l"] > 0, data["l"] * jnp.sum(jnp.log(jnp.where(data["l"] > 0, x, 1.0))), 0.0)
  return f


def aux_of(un):
  return lambda w, data: [un(w) + data["c"], (un(w) ** 2).sum() + 1]


def form(un, aux, vg):
  import jax
  f, a = loss(un), aux_of(un)
  g = (lambda w, data: (f(w, data), a(w, data))) if aux else f
  return jax.value_and_grad(g, has_aux=aux) if vg else g


def hook(params, state, *args, **kwargs):
  import jax
  params = jax.tree_util.tree_map(lambda l: 0.9 * l, params)
  kw = {}
  if getattr(state, "velocity", None) is not None:
    kw["velocity"] = jax.tree_util.tree_map(lambda l: 0.5 * l, state.velocity)
  if type(state).__name__ == "ArmijoState":
    kw["stepsize"] = 0.5 * state.stepsize
  return params, state._replace(**kw)


def so(o):
  return dict(Q=mat(o["Q"]), c=vec(o["c"]), q=vec(o["q"]), l=num(o["l"]), prox="none", p=[])


def follow(sol, un, x, batches, jit=True):
  import jax
  upd = jax.jit(sol.update) if jit else sol.update
  steps, st = [], None
  for k, o in enumerate(batches):
    s = dict(exc="", o=so(o))
    if k == 0:
      st, s["exc"] = guarded(sol.init_state, x, data=o)
    else:
      res, s["exc"] = guarded(upd, x, st, data=o)
      if not s["exc"]:
        x, st = res
    if s["exc"]:
      steps.append(s)
      break
    ok = all(onp.all(onp.isfinite(l)) for l in leaves(x))
    s.update(x=flat(un(x)), iter_num=int(st.iter_num), aux=flat(st.aux) if st.aux is not None else [], value=num(st.value), error=num(st.error),
             stepsize=num(getattr(st, "stepsize", 0.0)), vel=flat(un(st.velocity)) if getattr(st, "velocity", None) is not None else ["0"] * N,
             nf=int(getattr(st, "num_fun_eval", 0)), ng=int(getattr(st, "num_grad_eval", 0)), dtype=str(leaves(x)[0].dtype))
    steps.append(s)
    if not ok or max(float(onp.abs(l).max()) for l in leaves(x)) > 1e4:
      break
  return steps


def trees(r):
  kind = str(r.choice(["vector", "dict", "nested"]))
  _, un = shape(kind, onp.zeros(N))
  return (lambda v: shape(kind, v)[0]), un


def polyak(variant, part, seed):
  import jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed * 7 + part + len(variant))
  out = []
  for rep in range(5):
    pk, un = trees(r)
    mom = float(r.choice([0.0, 0.5, 0.9]))
    delta = float(r.choice([0.0, 0.1])) if variant == "SPS_max" else 0.0
    cap, fmin = float(r.choice([0.05, 1.0, 10.0])), float(r.choice([0.0, -1.0, 0.4]))
    aux, vg, pre = bool(r.randint(2)), bool(r.randint(2)), bool(rep == 2)
    kind = ("interp", "plain", "plain", "interp", "steep")[rep]
    if kind == "interp":
      fmin = 0.0
    sol = jaxopt.PolyakSGD(fun=form(un, aux, vg), value_and_grad=vg, has_aux=aux, variant=variant, max_stepsize=cap, delta=delta, fun_min=fmin, momentum=mom,
                           pre_update=hook if pre else None, jit=bool(rep % 2), unroll=not rep % 2)
    x = jnp.zeros(N) if rep == 0 else jnp.asarray(r.randn(N))
    bs = [batch(r, kind) for _ in range(7 if rep else 3)]
    out.append(dict(id=f"polyak:{variant}{'-aux' if aux else ''}{'-vg' if vg else ''}:{kind}#{seed}.{part}.{rep}", kind="polyak", variant=variant, pre=pre, mom=num(mom), delta=num(delta),
                    cap=num(cap), fmin=num(fmin), dtype="float64", atol="1E-9", steps=follow(sol, un, pk(x), bs, jit=rep != 3)))
  return out


def armijo(reset, part, seed):
  import jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed * 7 + part + len(reset))
  out = []
  for rep in range(4):
    pk, un = trees(r)
    mom = float(r.choice([0.0, 0.6]))
    aggr, dec, inc = float(r.choice([0.9, 0.6, 0.3])), float(r.choice([0.8, 0.5])), float(r.choice([1.5, 2.5]))
    cap, maxls = float(r.choice([0.3, 1.0, 6.0])), int(r.choice([2, 15]))
    aux, vg, pre = bool(r.randint(2)), bool(r.randint(2)), rep == 1
    kind = ("log", "plain", "steep", "interp")[rep]
    if kind == "log":
      cap, maxls, mom = 6.0, 25, 0.0
    sol = jaxopt.ArmijoSGD(fun=form(un, aux, vg), value_and_grad=vg, has_aux=aux, aggressiveness=aggr, decrease_factor=dec, increase_factor=inc, reset_option=reset,
                           momentum=mom, max_stepsize=cap, maxls=maxls, pre_update=hook if pre else None)
    x = jnp.asarray(r.rand(N) + 0.3) if kind == "log" else jnp.asarray(r.randn(N))
    bs = [batch(r, kind) for _ in range(6)]
    out.append(dict(id=f"armijo:{reset}{'-aux' if aux else ''}{'-vg' if vg else ''}:{kind}#{seed}.{part}.{rep}", kind="armijo", reset=reset, pre=pre, mom=num(mom), c=num(1 - aggr), dec=num(dec), inc=num(inc),
                    cap=num(cap), maxls=maxls, dtype="float64", atol="1E-9", steps=follow(sol, un, pk(x), bs)))
  return out


def transformation(op):
  import optax
  return {"sgd": lambda: optax.sgd(0.1), "momentum": lambda: optax.sgd(0.05, momentum=0.9), "schedule": lambda: optax.sgd(lambda k: 0.3 / (1.0 + k)),
          "decay": lambda: optax.chain(optax.add_decayed_weights(0.1), optax.scale(-0.2)), "clip": lambda: optax.chain(optax.clip(0.5), optax.scale(-0.3)),
          "adam": lambda: optax.adam(0.1, b1=0.9, b2=0.999, eps=1e-8)}[op]()


def optax_(op, seed):
  import jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed * 7 + sum(map(ord, op)))
  out = []
  for rep in range(4):
    pk, un = trees(r)
    aux, vg, pre = bool(r.randint(2)), bool(r.randint(2)), rep == 1
    dt = jnp.float32 if rep == 3 else jnp.float64
    sol = jaxopt.OptaxSolver(opt=transformation(op), fun=form(un, aux, vg), value_and_grad=vg, has_aux=aux, pre_update=hook if pre else None)
    x = jnp.asarray(r.randn(N), dtype=dt)
    bs = [batch(r, ("plain", "plain", "steep", "plain")[rep]) for _ in range(6 if op != "adam" else 5)]
    if rep == 3:
      bs = [{k: v.astype(onp.float32) for k, v in b.items()} for b in bs]
    out.append(dict(id=f"optax:{op}{'-aux' if aux else ''}{'-vg' if vg else ''}#{seed}.{rep}", kind="optax", opt=op, pre=pre, dtype=str(jnp.dtype(dt)), atol="1E-9" if rep != 3 else "2E-4",
                    steps=follow(sol, un, pk(x), bs)))
  return out


class Counting:
  """An iterator that counts what is drawn from it."""

  def __init__(self, items):
    self.items, self.n = items, 0

  def __iter__(self):
    return self

  def __next__(self):
    if self.n >= len(self.items):
      raise StopIteration
    self.n += 1
    return self.items[self.n - 1]


def iterator(cases, which, seed):
  import jax, jax.numpy as jnp, jaxopt
  r = onp.random.RandomState(seed * 7 + len(which))
  pk, un = trees(r)
  f = loss(un)
  # extra positional and keyword arguments besides the batch
  g = lambda w, scale, data, reg=0.0: scale * f(w, data) + reg * jnp.sum(un(w) ** 2)
  out = []
  bs = [batch(r) for _ in range(8)]
  for q, (L, maxiter, drawn, updates) in enumerate(cases):
    if q % 3 != (seed + len(which)) % 3 and L < 6 and maxiter:
      continue
    if which == "polyak":
      sol = jaxopt.PolyakSGD(fun=g, maxiter=maxiter, max_stepsize=0.2, momentum=0.5, fun_min=-3.0)
    elif which == "armijo":
      sol = jaxopt.ArmijoSGD(fun=g, maxiter=maxiter, momentum=0.2)
    else:
      sol = jaxopt.OptaxSolver(fun=g, opt=transformation("momentum"), maxiter=maxiter)
    x = pk(jnp.asarray(r.randn(N)))
    it = Counting(bs[:L])
    s = dict(exc="", L=L, maxiter=maxiter, mdrawn=drawn)
    res, s["exc"] = guarded(lambda: sol.run_iterator(x, it, 1.5, reg=0.1))
    if not s["exc"]:
      st, w = sol.init_state(x, 1.5, reg=0.1, data=bs[0]), x
      for k in range(1, 1 + updates):
        w, st = sol.update(w, st, 1.5, reg=0.1, data=bs[k])
      s.update(drawn=it.n, updates=int(res.state.iter_num), x=flat(res.params), ref=flat(w), state=flat(tuple(res.state)), refstate=flat(tuple(st)),
               structure=jax.tree_util.tree_structure(res) == jax.tree_util.tree_structure(type(res)(w, st)))
    out.append(dict(id=f"iter:{which}:{L}.{maxiter}#{seed}", kind="iter", steps=[s]))
  return out
