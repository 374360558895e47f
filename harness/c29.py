"""C29: derivatives of projections and proximal operators against Sens.tla."""
from c15 import OPS, group  # noqa: F401

DESIGN = [("MCSens", "MCSens.cfg")]
DESIGN_THOROUGH = [("MCSens", "MCSensLarge.cfg")]
TRACE = "TraceSens"
ASSUMPTIONS = ["float64; points where the operator is differentiable (strict complementarity); derivatives of projection_transport by its marginals are not judged"]


def jobs(ctx):
  reps = 8 if ctx.quick else 40
  return [("group", (OPS[i::14], ctx.seed, reps, "op")) for i in range(14)]
