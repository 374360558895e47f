"""Shared by the drivers: number encoding and trace helpers."""
import math
import os
import sys

import numpy as onp

REPO = os.environ.get("VERIF_REPO", "/repo")
_ready = False


def setup_jax():
  global _ready
  if _ready:
    return
  import warnings
  warnings.filterwarnings("ignore")
  if REPO not in sys.path:
    sys.path.insert(0, REPO)
  import jax
  jax.config.update("jax_enable_x64", True)
  import jaxopt
  if not os.path.abspath(jaxopt.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise RuntimeError("jaxopt imported from " + jaxopt.__file__)
  _ready = True


def num(x):
  """A real number as the string Dec.tla reads."""
  x = float(x)
  if math.isnan(x):
    return "nan"
  if math.isinf(x):
    return "inf" if x > 0 else "-inf"
  return repr(x).replace("e", "E")


def vec(x):
  return [num(v) for v in onp.asarray(x, dtype=float).reshape(-1)]


def mat(x):
  return [vec(r) for r in onp.asarray(x, dtype=float)]


def leaves(tree):
  import jax
  return [l for l in jax.tree_util.tree_leaves(tree)]


def flat(tree):
  """All numeric leaves of a pytree as one list of number strings."""
  out = []
  for l in leaves(tree):
    a = onp.asarray(l)
    if a.dtype == object or a.dtype.kind in "US":
      continue
    if a.dtype.kind == "c":
      out += vec(a.real) + vec(a.imag)
    else:
      out += vec(a.astype(float))
  return out


def fvec(tree):
  """Pytree -> one float64 numpy vector."""
  ls = [onp.asarray(l, dtype=float).reshape(-1) for l in leaves(tree)]
  return onp.concatenate(ls) if ls else onp.zeros(0)


def exc_name(e):
  return (type(e).__name__ + ": " + str(e).replace("\n", " "))[:160]


def guarded(f, *a, **k):
  """(result, "") or (None, description of the exception the code raised)."""
  try:
    return f(*a, **k), ""
  except Exception as e:  # noqa: the code under test raised
    return None, exc_name(e)


def borrow(mod, fn, args):
  """Traces of another check's driver, judged by that check's specification."""
  import importlib
  m = importlib.import_module(mod)
  out = getattr(m, fn)(*args)
  for t in out:
    t.setdefault("spec", m.TRACE)
    t["site"] = t.get("site", t["id"].split("#")[0])
    t["id"] = mod + ":" + t["id"]
  return out
