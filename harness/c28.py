"""C28: tree arithmetic is arithmetic on the flattened vector."""
import numpy as onp
from common import *

DESIGN = [("MCTree", "MCTree.cfg")]
TRACE = "TraceTree"
ASSUMPTIONS = ["trees of up to 5 leaves and 12 numbers; float64, float32-exact, integer and complex128 leaves",
               "operations are taken from jaxopt.tree_util; Gram, average, mean and reciprocal from jaxopt._src.tree_util"]
OPS2 = ["add", "sub", "mul", "div", "vdot", "vdot_real", "add_scalar_mul"]
OPS1 = ["scalar_mul", "sum", "sqnorm", "norm", "inf_norm", "zeros_like", "ones_like", "negative", "reciproqual", "conj", "real", "imag"]


def jobs(ctx):
  n = 1 if ctx.quick else 8
  return [("ops", (ctx.seed + 10 * j, part)) for j in range(n) for part in range(6)]


def shapes(k):
  """Tree templates: nested structure of shapes."""
  return [
      [(3,)],
      [(), (2,)],
      [(2, 2), (1,), (3,)],
      [(1, 2), (), (2, 1, 2), (1,)],
      [(4,)],
      [(2,), (2,), (), (), (3,)],
  ][k]


def wrap(k, ls):
  return [lambda a: a[0], lambda a: (a[0], {"z": a[1]}), lambda a: {"b": a[0], "a": [a[1], (a[2],)]},
          lambda a: [a[0], {"q": (a[1], a[2]), "c": a[3]}], lambda a: [a[0]],
          lambda a: {"x": (a[0], [a[1]]), "y": {"u": a[2], "v": a[3]}, "w": a[4]}][k](ls)


def cvec(tree):
  ls = [onp.asarray(l).reshape(-1) for l in leaves(tree)]
  v = onp.concatenate(ls) if ls else onp.zeros(0)
  return [vec(v.real), vec(v.imag)]


def ops(seed, part):
  import jax, jax.numpy as jnp
  from jaxopt import tree_util as T
  from jaxopt._src import tree_util as TS
  r = onp.random.RandomState(seed * 31 + part)
  steps = []
  tmpl = part
  one = [["0"], ["0"]]

  def rand(kind):
    ls = []
    for sh in shapes(tmpl):
      a = r.randn(*sh) * r.choice([0.1, 1.0, 30.0])
      if kind == "c":
        a = a + 1j * r.randn(*sh)
      if kind == "i":
        a = r.randint(1, 6, sh) * r.choice([-1, 1], sh)
      if kind == "m":      # mixed real / complex leaves
        a = a + 1j * r.randn(*sh) if len(ls) % 2 else a
      if kind == "z":
        a = onp.abs(a) * 0.0 if len(ls) % 2 else a
      ls.append(jnp.asarray(a))
    return wrap(tmpl, ls)

  def same_tree(a, b):
    return (jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b)
            and all(onp.shape(u) == onp.shape(v) for u, v in zip(leaves(a), leaves(b))))

  def rec(op, x, y, c, fn, tree_out, mode="eager", cond=None, xs=None, ys=None):
    s = dict(op=op, mode=mode, x=xs or cvec(x), y=ys or cvec(y), c=[[num(complex(c).real)], [num(complex(c).imag)]], cond=cond or [],
             exc="", struct=True, out=[])
    out, s["exc"] = guarded(fn)
    if not s["exc"]:
      if tree_out is not None:
        s["struct"] = same_tree(out, tree_out)
      else:
        s["struct"] = len(leaves(out)) == 1 and onp.shape(out) == ()
      s["out"] = cvec(out)
    steps.append(s)

  zero = jnp.zeros(1)
  for kind in ("f", "c", "i", "m", "z"):
    x, y = rand(kind), rand("i" if kind == "i" else "c" if kind in "cm" else "f")
    c = complex(r.randn(), r.randn()) if kind == "c" else float(r.randn())
    jit = jax.jit if kind in "fm" else (lambda f: f)
    for op in OPS2:
      fn = getattr(T, "tree_" + op)
      if op == "vdot_real":
        rec(op, x, y, 0, lambda: jit(fn)(x, y), None)
      elif op == "add_scalar_mul":
        rec(op, x, y, c, lambda: jit(fn)(x, c, y), x)
      elif op == "vdot":
        rec(op, x, y, 0, lambda: jit(fn)(x, y), None)
      else:
        rec(op, x, y, 0, lambda: jit(fn)(x, y), x)
    for op in OPS1:
      if op == "reciproqual" and kind in "iz":
        continue
      if op in ("sqnorm", "norm"):
        f = lambda t: T.tree_l2_norm(t, squared=(op == "sqnorm"))
        rec(op, x, zero, 0, lambda: jit(f)(x), None)
        if op == "norm":
          rec(op, x, zero, 0, lambda: T.tree_l2_norm(x), None, "default")
      elif op == "scalar_mul":
        rec(op, x, zero, c, lambda: T.tree_scalar_mul(c, x), x)
        rec(op, x, zero, 2.5, lambda: T.tree_scalar_mul(jnp.asarray(2.5), x), x, "array scalar")
      else:
        fn = getattr(TS if op == "reciproqual" else T, "tree_" + op)
        rec(op, x, zero, 0, lambda: jit(fn)(x), None if op in ("sum", "inf_norm") else x)
    # where, with every broadcasting pattern
    for pat in range(8):
      full = lambda t: jax.tree_util.tree_map(lambda l: jnp.broadcast_to(l, l.shape), t)
      ct = jax.tree_util.tree_map(lambda l: jnp.asarray(r.rand(*l.shape) < 0.5), x)
      cs = bool(r.rand() < 0.5)
      cond = cs if pat & 1 else ct
      a = 7.5 if pat & 2 else x
      b = jnp.asarray(-1.25) if pat & 4 else y
      if pat == 7:
        continue
      cf = [int(v) for v in (onp.full(sum(onp.size(l) for l in leaves(x)), cs) if pat & 1 else onp.concatenate([onp.asarray(l).reshape(-1) for l in leaves(ct)]))]
      n = len(cf)
      xs = cvec(onp.full(n, 7.5)) if pat & 2 else cvec(x)
      ys = cvec(onp.full(n, -1.25)) if pat & 4 else cvec(y)
      rec("where", x, y, 0, lambda: T.tree_where(cond, a, b), x, f"where{pat}", cond=cf, xs=xs, ys=ys)
  # all arguments single arrays: plain jnp.where with broadcasting
  a, b = r.randn(2, 3), r.randn(3)
  cd = r.rand(2, 1) < 0.5
  rec("where", None, None, 0, lambda: T.tree_where(jnp.asarray(cd), jnp.asarray(a), jnp.asarray(b)), jnp.asarray(a), "arrays",
      cond=[int(v) for v in onp.broadcast_to(cd, (2, 3)).reshape(-1)], xs=cvec(a), ys=cvec(onp.broadcast_to(b, (2, 3))))
  # Gram matrix, weighted combination, mean, leaf-wise dot
  for m in (1, 2, 4):
    rows = [rand("f") for _ in range(m)]
    st = jax.tree_util.tree_map(lambda *l: jnp.stack(l), *rows)
    s = dict(op="gram", rows=[vec(fvec(q)) for q in rows], exc="", struct=True, out=[])
    out, s["exc"] = guarded(TS.tree_gram, st)
    if not s["exc"]:
      s["struct"] = onp.shape(out) == (m, m)
      s["out"] = mat(out) if s["struct"] else []
    steps.append(s)
    w = r.randn(m)
    s = dict(op="average", rows=[vec(fvec(q)) for q in rows], w=vec(w), exc="", struct=True, out=[])
    out, s["exc"] = guarded(TS.tree_average, st, jnp.asarray(w))
    if not s["exc"]:
      s["struct"] = same_tree(out, rows[0])
      s["out"] = cvec(out)
    steps.append(s)
  x, y = rand("f"), rand("f")
  sizes = [int(onp.size(l)) for l in leaves(x)]
  s = dict(op="mean", x=cvec(x), y=one, c=one, sizes=sizes, exc="", struct=True, out=[])
  out, s["exc"] = guarded(TS.tree_mean, x)
  if not s["exc"]:
    s["out"] = cvec(out)
  steps.append(s)
  vx, vy = (jax.tree_util.tree_map(jnp.ravel, t) for t in (x, y))
  s = dict(op="dot", x=cvec(vx), y=cvec(vy), c=one, sizes=sizes, exc="", struct=True, out=[])
  out, s["exc"] = guarded(T.tree_dot, vx, vy)
  if not s["exc"]:
    s["struct"] = jax.tree_util.tree_structure(out) == jax.tree_util.tree_structure(vx)
    s["out"] = cvec(out)
  steps.append(s)
  # structures that do not match are rejected
  other = (x, x)
  for nm, fn, want in (("add", lambda: T.tree_add(x, other), True), ("vdot", lambda: T.tree_vdot(x, other), True),
                       ("where", lambda: T.tree_where({"k": True}, {"l": 1.0}, 2.0), True),
                       ("broadcast", lambda: T.broadcast_pytrees((1.0, 2.0), [1.0, 2.0]), True),
                       ("broadcast", lambda: T.broadcast_pytrees((1.0, 2.0), 3.0), False),
                       ("single_dtype", lambda: TS.tree_single_dtype((jnp.zeros(1), jnp.zeros(1, jnp.float32))), True),
                       ("single_dtype", lambda: TS.tree_single_dtype((jnp.zeros(1), jnp.ones(2))), False)):
    s = dict(op="raises", what=nm, want=want, raised=False)
    if part == 0 and nm in ("add", "vdot"):
      pass
    try:
      fn()
    except Exception:
      s["raised"] = True
    steps.append(s)
  return [dict(id=f"tree_util:{part}#{seed}", site="tree_util", steps=steps)]
