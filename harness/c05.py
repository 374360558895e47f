"""C05: a line search that reports success satisfies its conditions."""
import lines
from lines import *

DESIGN = [("MCBacktrack", "MCBacktrack.cfg"), ("MCZoom", "MCZoom.cfg")]
DESIGN_THOROUGH = [("MCBacktrack", "MCBacktrack.cfg"), ("MCZoom", "MCZoom5.cfg")]
GENERATE = ("MCBacktrack", "GenBacktrack.cfg")
TRACE = "TraceLine"
PROP = "C05"
SHIFT = 0
ASSUMPTIONS = ["float64; descent directions; finite smooth objectives for the converse clauses",
               "zoom trial sequences are replayed in the specification unless a comparison is within rounding"]


def jobs(ctx):
  m, cnt = (1, 14) if ctx.quick else (8, 40)
  J = []
  for j in range(m):
    sd = ctx.seed + 100 * j + SHIFT
    ks = KINDS
    for a, k in enumerate(ks):
      for b, o in enumerate(OBJ):
        if not ctx.quick or (a + b + sd) % 3 == 0 or o.startswith("adv"):
          J.append(("tagged", ("run_kind", k, o, sd, cnt)))
    if PROP == "C05":
      J += [("tagged", ("eager_zoom", o, sd, 8 if ctx.quick else 25)) for o in OBJ if o != "flat"]
  J += [("tagged", ("replay", ctx.cases[i::4], ctx.seed, i)) for i in range(4)]
  return J


def tagged(fn, *a):
  out = getattr(lines, fn)(*a)
  for t in out:
    t["prop"] = PROP
  return out
