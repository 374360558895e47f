"""C23: perturbed functions against Perturb.tla."""
import itertools
import numpy as onp
from common import *

DESIGN = [("MCPerturb", "MCPerturb.cfg")]
DESIGN_THOROUGH = [("MCPerturb", "MCPerturbFine.cfg")]
TRACE = "TracePerturb"
ASSUMPTIONS = ["float64; the noise is observed through the noise object (the samples it hands out); functions are those of Perturb.tla on inputs without ties"]


def functions():
  import jax, jax.numpy as jnp
  def flatly(f):
    return lambda x: jnp.reshape(f(jnp.ravel(x)), x.shape)
  below = lambda x: jnp.sum(x[None, :] < x[:, None], axis=1).astype(x.dtype)
  above = lambda x: jnp.sum(x[None, :] > x[:, None], axis=1)
  return dict(
      onehot=flatly(lambda x: jax.nn.one_hot(jnp.argmax(x), x.shape[0], dtype=x.dtype)),
      rank=flatly(below), top2=flatly(lambda x: (above(x) < 2).astype(x.dtype)), sign=jnp.sign,
      relu=jax.nn.relu, cube=lambda x: x ** 3, exp=lambda x: jnp.exp(0.5 * x), sumsq=lambda x: jnp.sum(x ** 2),
      sumsq1=lambda x: jnp.sum(x ** 2).reshape(1), sumsq11=lambda x: jnp.sum(x ** 2).reshape(1, 1),
      pair=lambda x: jnp.stack([x.ravel()[0] * x.ravel()[-1], x.ravel()[-1] + 3.0]),
      pair21=lambda x: jnp.stack([x.ravel()[0] * x.ravel()[-1], x.ravel()[-1] + 3.0]).reshape(2, 1),
      pair12=lambda x: jnp.stack([x.ravel()[0] * x.ravel()[-1], x.ravel()[-1] + 3.0]).reshape(1, 2),
      six=lambda x: (jnp.arange(1, 7) * x.ravel()[0] + x.ravel()[0] * x.ravel()[-1]).reshape(2, 3))


def noises():
  import jax, jax.numpy as jnp
  from jaxopt import perturbations as P

  class Logistic:
    def sample(self, seed, sample_shape):
      return jax.random.logistic(seed, sample_shape)

    def log_prob(self, inputs):
      return -inputs - 2 * jnp.log1p(jnp.exp(-inputs))

  class Student:
    def sample(self, seed, sample_shape):
      return jax.random.t(seed, 2.0, sample_shape)

    def log_prob(self, inputs):
      return -1.5 * jnp.log1p(inputs ** 2)
  return dict(normal=P.Normal, gumbel=P.Gumbel, logistic=Logistic, student=Student)


class Seen:
  """A noise object that keeps the samples it hands out."""

  def __init__(self, noise):
    self.noise, self.seen = noise, []

  def sample(self, seed, sample_shape):
    z = self.noise.sample(seed, sample_shape)
    self.seen.append(z)
    return z

  def log_prob(self, inputs):
    return self.noise.log_prob(inputs)


ARGMAX = ("onehot", "rank", "top2", "sign")
FUNS = ("relu", "cube", "exp", "sumsq", "sumsq1", "sumsq11", "pair", "pair21", "pair12", "six", "onehot")
SHAPES = ((2,), (3,), (2, 2), (3, 1), (1, 4), (5,), (2, 1, 3), (1,))


def one(api, fname, noise, shape, N, sigma, cv, seed, batch=True):
  import jax, jax.numpy as jnp
  from jaxopt import perturbations as P
  r = onp.random.RandomState(seed)
  f = functions()[fname]
  make = dict(argmax=P.make_perturbed_argmax, max=P.make_perturbed_max, fun=P.make_perturbed_fun)[api]
  kw = dict(num_samples=N, sigma=sigma)
  if api != "max":
    kw["control_variate"] = cv
  x, t = jnp.asarray(r.randn(*shape)), jnp.asarray(r.randn(*shape))
  key = jax.random.PRNGKey(int(r.randint(1 << 30)))

  def build():
    s = Seen(noises()[noise]())
    return s, make(f, noise=s, **kw)
  s0, g0 = build()
  value = g0(x, key)
  s1, g1 = build()
  jv, j = jax.jvp(lambda y: g1(y, key), (x,), (t,))
  u = jnp.asarray(r.randn(*onp.shape(value)))
  s2, g2 = build()
  _, back = jax.vjp(lambda y: g2(y, key), x)
  v, = back(u)
  _, g3 = build()
  jitv, jitj = jax.jit(lambda y, k, d: jax.jvp(lambda w: g3(w, k), (y,), (d,)))(x, key, t)
  batched = True
  if batch:  # one key per row
    xs = jnp.stack([x, x + 0.3])
    ks = jax.random.split(key, 2)
    _, g4 = build()
    whole = lambda y, k: jax.value_and_grad(lambda w: jnp.sum(jnp.sin(g4(w, k))))(y)
    rows = jax.jit(whole)
    both = jax.jit(jax.vmap(whole))(xs, ks)
    batched = all(onp.allclose(both[q][i], rows(xs[i], ks[i])[q], rtol=1e-10, atol=1e-10) for i in range(2) for q in range(2))
  z = onp.asarray(s0.seen[0])
  same = all(onp.array_equal(onp.asarray(w), z) for s in (s0, s1, s2) for w in s.seen)
  out = () if api == "max" else onp.shape(f(x))
  shapes = onp.shape(value) == out and onp.shape(jv) == out and onp.shape(j) == out and onp.shape(v) == shape and j.dtype == value.dtype
  spec_f = {"sumsq1": "sumsq", "sumsq11": "sumsq", "pair21": "pair", "pair12": "pair"}.get(fname, fname)
  return dict(exc="", kind="max" if api == "max" else "mean", f=spec_f, noise=noise, cv=bool(cv), x=vec(x), t=vec(t), u=vec(u), sigma=num(sigma), samples=N,
              z=mat(z.reshape(z.shape[0], -1)), value=vec(value), jvp_value=vec(jv), jvp=vec(j), vjp=vec(v), jit_value=vec(jitv), jit_jvp=vec(jitj),
              same_samples=bool(same), batched=bool(batched), shapes=bool(shapes), tol=num(1e-9))


def cases(names, api, seed, reps):
  out = []
  for fname in names:
    r = onp.random.RandomState(seed * 7 + sum(map(ord, fname + api)))
    t = dict(id=f"{api}:{fname}#{seed}", site=f"{api}:{fname}", steps=[])
    combos = list(itertools.product(("normal", "gumbel", "logistic", "student"), (False, True)[:1 if api == "max" else 2]))
    sizes = [(SHAPES[r.randint(len(SHAPES))], int(r.choice([1, 2, 5, 9]))) for _ in range(max(2, reps // 4))]
    for j in range(reps):
      noise, cv = combos[j % len(combos)]
      shape, N = sizes[(j + j // 4) % len(sizes)]
      if fname in ("rank", "top2", "onehot") and onp.prod(shape) < 2:
        shape = (4,)
      sigma = float(r.choice([0.1, 0.5, 1.0, 3.0]))
      step, exc = guarded(one, api, fname, noise, shape, N, sigma, cv, int(r.randint(1 << 30)), j % 4 == 3)
      t["steps"].append(dict(exc=exc) if exc else step)
    out.append(t)
  return out


def defaults(seed):
  """Default noise, sigma, number of samples; sampling of the two distributions."""
  import jax, jax.numpy as jnp
  from jaxopt import perturbations as P
  out = []
  for noise, cls, m, v, k, med in (("normal", P.Normal, 0.0, 1.0, 2.0, 0.0), ("gumbel", P.Gumbel, onp.euler_gamma, onp.pi ** 2 / 6, 4.4, -onp.log(onp.log(2.0)))):
    def draw():
      key = jax.random.PRNGKey(seed)
      shape = (400, 10, 10)
      a, b = cls().sample(key, shape), cls().sample(seed=key, sample_shape=shape)
      pts = jnp.asarray([-2.0, -0.5, 0.0, 0.3, 1.7])
      d = jax.vmap(jax.grad(cls().log_prob))(pts)
      a0 = onp.asarray(a)
      return dict(exc="", kind="draws", noise=noise, mean=num(a0.mean()), var=num(a0.var()), want_mean=num(m), want_var=num(v), kurt=num(k), below=num((a0 < med).mean()), count=num(a0.size),
                  shape=a0.shape == shape, again=bool(onp.array_equal(a0, b)) and not onp.array_equal(a0, cls().sample(jax.random.PRNGKey(seed + 1), shape)), score=vec(pts), dlog=vec(d))
    step, exc = guarded(draw)
    out.append(dict(id=f"draws:{noise}#{seed}", site=f"draws:{noise}", steps=[dict(exc=exc) if exc else step]))
  # the library's own noise objects and defaults, through the same draws
  F = functions()
  for api, fname in (("argmax", "onehot"), ("max", "rank"), ("fun", "relu")):
    def plain():
      make = dict(argmax=P.make_perturbed_argmax, max=P.make_perturbed_max, fun=P.make_perturbed_fun)[api]
      r = onp.random.RandomState(seed)
      x, t = jnp.asarray(0.1 * r.randn(3)), jnp.asarray(r.randn(3))
      key = jax.random.PRNGKey(seed)
      g = make(F[fname])
      value = g(x, key)
      jv, j = jax.jvp(lambda y: g(y, key), (x,), (t,))
      u = jnp.asarray(r.randn(*onp.shape(value)))
      v, = jax.vjp(lambda y: g(y, key), x)[1](u)
      z = onp.asarray(P.Gumbel().sample(key, (1000, 3)))
      return dict(exc="", kind="max" if api == "max" else "mean", f=fname, noise="gumbel", cv=False, x=vec(x), t=vec(t), u=vec(u), sigma="0.1", samples=1000, z=mat(z), value=vec(value), jvp_value=vec(jv),
                  jvp=vec(j), vjp=vec(v), jit_value=vec(value), jit_jvp=vec(j), same_samples=True, batched=True, shapes=True, tol=num(1e-9))
    step, exc = guarded(plain)
    out.append(dict(id=f"defaults:{api}#{seed}", site=f"defaults:{api}", steps=[dict(exc=exc) if exc else step]))
  return out


def jobs(ctx):
  reps = 8 if ctx.quick else 64
  J = [("defaults", (ctx.seed,))]
  for api, names in (("argmax", ARGMAX), ("max", ARGMAX), ("fun", FUNS)):
    J += [("cases", ([n], api, ctx.seed, reps)) for n in names]
  return J
