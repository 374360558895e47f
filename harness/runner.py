"""Check driver: python3 harness/runner.py <PROPERTY-ID>   (see DESIGN.md)

 1. TLC model-checks the property's design specifications (exhaustive, small
    constants) and, where the property has one, generates behaviours to replay.
 2. Worker processes run the real code from /repo on those behaviours and on
    seeded scenarios, and record traces.
 3. TLC validates every trace against the trace specification.
 4. Violations are matched with KNOWN_FINDINGS.txt, evidence is written.

Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
CP_BASE = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("VERIF_NPROC", "8"))


class MachineryError(Exception):
  pass


# ------------------------------------------------------------------ TLC
def classes_dir(work):
  """Compiled Dec.class: from setup (build/classes) or compiled on demand."""
  src = os.path.join(ROOT, "java", "Dec.java")
  pre = os.path.join(ROOT, "build", "classes")
  cls = os.path.join(pre, "Dec.class")
  if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
    return pre
  out = os.path.join(work, "classes")
  os.makedirs(out, exist_ok=True)
  p = subprocess.run(["javac", "-cp", CP_BASE, "-d", out, src], capture_output=True, text=True)
  if p.returncode:
    raise MachineryError("javac failed: " + p.stderr)
  return out


class Tlc:
  """One TLC run (started in the background; .wait() gives the result)."""

  def __init__(self, ctx, module, cfg, env=None, workers=2, xmx="3g", name=None, extra=()):
    self.name = name or f"{module}/{cfg}"
    self.module = module
    self.meta = tempfile.mkdtemp(prefix="tlc", dir=ctx.work)
    self.out = os.path.join(self.meta, "out.txt")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(2, workers)}", f"-Xmx{xmx}", "-Xss64m",
           f"-Djava.io.tmpdir={self.meta}",
           "-cp", ctx.classes + ":" + CP_BASE, "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(self.meta, "states"), "-noGenerateSpecTE", *extra,
           "-config", os.path.join(SPEC, cfg), os.path.join(SPEC, module + ".tla")]
    self.fh = open(self.out, "w")
    self.t0 = time.time()
    self.proc = subprocess.Popen(cmd, stdout=self.fh, stderr=subprocess.STDOUT, env=e, cwd=SPEC)

  def wait(self, timeout=None):
    try:
      self.proc.wait(timeout)
    except subprocess.TimeoutExpired:
      self.proc.kill()
      raise MachineryError(f"TLC {self.name} exceeded {timeout} s")
    self.fh.close()
    self.wall = time.time() - self.t0
    self.text = open(self.out, errors="replace").read()
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", self.text)
    self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    self.ok = "Model checking completed. No error has been found" in self.text
    self.lines = [json.loads(l) for l in re.findall(r'^"(?:[^"\\]|\\.)*"$', self.text, re.M)]
    return self

  def tail(self, n=40):
    return "\n".join(self.text.splitlines()[-n:])


# --------------------------------------------------------------- workers
def _init_worker():
  os.environ.setdefault("JAX_PLATFORMS", "cpu")
  import warnings
  warnings.filterwarnings("ignore")
  import logging
  logging.getLogger().setLevel(logging.ERROR)
  sys.path.insert(0, HERE)


def _job(modname, fn, args):
  os.environ.setdefault("JAX_PLATFORMS", "cpu")
  t0 = time.time()
  try:
    import common
    common.setup_jax()
    mod = importlib.import_module(modname)
    res = getattr(mod, fn)(*args)
    return ("ok", res, time.time() - t0)
  except BaseException:
    return ("err", traceback.format_exc(), time.time() - t0)


class Ctx:
  def __init__(self, pid, work, tier, seed):
    self.pid, self.work, self.tier, self.seed = pid, work, tier, seed
    self.quick = tier != "thorough"
    self.classes = classes_dir(work)
    self.assumptions = []
    self.design_states = self.design_trans = 0
    self.design_runs = []
    self.deadline = time.time() + (700 if self.quick else 6000)
    self.timings = []

  def tlc(self, module, cfg=None, **kw):
    return Tlc(self, module, cfg or module + ".cfg", **kw)

  def tlc_design(self, module, cfg=None, **kw):
    r = self.tlc(module, cfg, **kw)
    self.design_runs.append(r)
    return r

  def count(self, run):
    self.design_states += run.distinct
    self.design_trans += run.generated

  def run_jobs(self, modname, jobs):
    """jobs: list of (fn, args).  Returns list of traces; raises on errors."""
    traces, errors, hung = [], [], []
    ex = cf.ProcessPoolExecutor(min(NPROC, max(1, len(jobs))), mp_context=mp.get_context("fork"),
                                initializer=_init_worker)
    futs = {ex.submit(_job, modname, fn, args): (fn, args) for fn, args in jobs}
    try:
      for f in cf.as_completed(futs, timeout=max(30, self.deadline - time.time())):
        st, res, dt = f.result()
        self.timings.append((dt, futs[f][0], repr(futs[f][1])[:80]))
        (traces.extend(res) if st == "ok" else errors.append((futs[f], res)))
    except (cf.TimeoutError, TimeoutError):
      hung = [v for k, v in futs.items() if not k.done()]
      for p in list(ex._processes.values()):
        p.kill()
    except cf.process.BrokenProcessPool as e:
      raise MachineryError("a worker process died: %s" % e)
    ex.shutdown(wait=not hung, cancel_futures=True)
    if errors:
      for j, e in errors[:3]:
        print("MACHINERY job", j[0], repr(j[1])[:200], "\n", e, file=sys.stderr)
      raise MachineryError(f"{len(errors)} job(s) failed")
    return traces, hung


def load_findings(pid):
  known = []
  path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
  if os.path.exists(path):
    for line in open(path):
      m = re.match(r"known: property=(\S+) site=(\S+) clause=(\S+) :: (.*)", line.strip())
      if m and m.group(1) == pid:
        known.append(dict(site=m.group(2), clause=m.group(3), what=m.group(4), hits=0))
  return known


def main():
  pid = sys.argv[1]
  tier = os.environ.get("VERIF_TIER", "quick")
  if len(sys.argv) > 2:
    tier = sys.argv[2]
  seed = int(os.environ.get("VERIF_SEED", "1"))
  t0 = time.time()
  work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
  evid = os.path.join(ROOT, "evidence", pid + ".json")
  os.makedirs(os.path.dirname(evid), exist_ok=True)
  if os.path.exists(evid):
    os.unlink(evid)
  rp = os.path.join(ROOT, "evidence", "replay", pid + ".json")
  if os.path.exists(rp):
    os.unlink(rp)
  code = 2
  try:
    code = check(pid, tier, seed, t0, work, evid)
  except MachineryError as e:
    print(f"MACHINERY-ERROR property={pid} {e}", file=sys.stderr)
  except Exception:
    traceback.print_exc()
    print(f"MACHINERY-ERROR property={pid}", file=sys.stderr)
  finally:
    if not os.environ.get("VERIF_KEEP"):
      shutil.rmtree(work, ignore_errors=True)
    else:
      print("work:", work, file=sys.stderr)
  sys.stdout.flush()
  os._exit(code)


def check(pid, tier, seed, t0, work, evid):
  os.environ.setdefault("JAX_PLATFORMS", "cpu")
  os.environ["OMP_NUM_THREADS"] = "1"
  os.environ["OPENBLAS_NUM_THREADS"] = "1"
  os.environ["XLA_FLAGS"] = "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 --xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true"
  os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
  sys.dont_write_bytecode = True
  sys.path.insert(0, HERE)
  ctx = Ctx(pid, work, tier, seed)
  modname = pid.lower()
  mod = importlib.import_module(modname)

  for m in mod.DESIGN if ctx.quick else getattr(mod, "DESIGN_THOROUGH", mod.DESIGN):
    m = (m,) if isinstance(m, str) else m
    ctx.tlc_design(*m)
  gen = None
  if getattr(mod, "GENERATE", None):
    gen = mod.GENERATE
    gen = (gen,) if isinstance(gen, str) else gen
    g = ctx.tlc(*gen, workers=4).wait(300)
    if not g.ok:
      raise MachineryError(f"generator {g.name} failed:\n" + g.tail())
    ctx.count(g)
    cases = [json.loads(l[4:]) for l in g.lines if l.startswith("GEN|")]
    if not cases:
      raise MachineryError("generator produced nothing:\n" + g.tail())
    ctx.cases = cases
  jobs = mod.jobs(ctx)
  traces, hung = ctx.run_jobs(modname, jobs)
  if os.environ.get("VERIF_DEBUG"):
    for x in sorted(ctx.timings, reverse=True)[:12]:
      print("  %.1fs %s %s" % x, file=sys.stderr)
    print("  jobs done %.1fs" % (time.time() - t0), file=sys.stderr)
  ids = set()
  for k, t in enumerate(traces):
    if t["id"] in ids:
      raise MachineryError("duplicate trace id " + t["id"])
    ids.add(t["id"])
    t.setdefault("site", t["id"].split("#")[0])
    if not t["steps"]:
      raise MachineryError("empty trace " + t["id"])
  if not traces and not hung:
    raise MachineryError("no traces")
  by_id = {t["id"]: t for t in traces}

  # design specifications
  for r in ctx.design_runs:
    r.wait(ctx.deadline - time.time() + 100)
    if not r.ok:
      raise MachineryError(f"design specification {r.name} violated:\n" + r.tail())
    ctx.count(r)

  # trace validation, one TLC run per trace module
  fails, nstates, ntrans = [], 0, 0
  groups = {}
  for t in traces:
    groups.setdefault(t.get("spec", mod.TRACE), []).append(t)
  runs = []
  for spec, ts in groups.items():
    path = os.path.join(work, f"{spec}.json")
    with open(path, "w") as fh:
      json.dump(ts, fh)
    runs.append((spec, ts, ctx.tlc(spec, workers=8 if len(groups) == 1 else 4, env={"TRACES": path}, xmx="8g")))
  for spec, ts, r in runs:
    r.wait(max(60, ctx.deadline - time.time() + 150))
    if not r.ok:
      keep = os.path.join(ROOT, "evidence", f"{pid}-tlc-error.txt")
      open(keep, "w").write(r.text)
      raise MachineryError(f"trace validation {r.name} failed to run:\n" + r.tail())
    want = sum(len(t["steps"]) + 1 for t in ts)
    if r.distinct != want:
      raise MachineryError(f"{r.name}: {r.distinct} states, expected {want}: some trace was not consumed")
    nstates += r.distinct
    ntrans += r.generated
    for l in r.lines:
      if l.startswith("FAIL|"):
        _, tid, step, clause = l.split("|")
        fails.append((tid, int(step), clause))
    if os.environ.get("VERIF_DEBUG"):
      print(f"  {r.name}: {len(ts)} traces {r.wall:.1f}s", file=sys.stderr)
  for j in hung:
    fails.append((f"hang:{j[0]}:{repr(j[1])[:60]}", 0, "terminates"))

  known = load_findings(pid)
  new = []
  for tid, step, clause in sorted(set(fails)):
    site = by_id[tid]["site"] if tid in by_id else tid
    hit = [k for k in known if k["site"] == site and k["clause"] == clause]
    if hit:
      hit[0]["hits"] += 1
    else:
      new.append((tid, step, clause, site))
  for k in known:
    if k["hits"]:
      print(f"KNOWN-FINDING: property={pid} site={k['site']} clause={k['clause']} {k['what']}")

  viol = sorted({(s, c) for _, _, c, s in new})
  samples = []
  for t in (traces[0], traces[len(traces) // 2]) if traces else ():
    s = json.dumps(t)
    samples.append(t if len(s) < 4000 else dict(id=t["id"], site=t["site"], excerpt=s[:1500]))
  doc = dict(
      property=pid, tier="quick" if ctx.quick else "thorough", seed=seed, level="model_checking",
      coverage=dict(states=ctx.design_states + nstates, transitions=ctx.design_trans + ntrans,
                    traces_validated_against_impl=len(traces), samples=samples,
                    trace_steps=sum(len(t["steps"]) for t in traces),
                    design_runs=[dict(run=r.name, states=r.distinct, transitions=r.generated) for r in ctx.design_runs],
                    generated_behaviours=len(getattr(ctx, "cases", [])),
                    sites=sorted({t["site"] for t in traces})[:400],
                    clauses_failed_known=sum(k["hits"] for k in known)),
      assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2), violations=len(viol))
  with open(evid, "w") as fh:
    json.dump(doc, fh, indent=1)
  print(f"{pid}: {len(traces)} traces, {doc['coverage']['trace_steps']} steps, "
        f"{doc['coverage']['states']} states, {len(fails)} failed clauses ({len(new)} new), {time.time()-t0:.1f}s")
  if viol:
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, pid + ".json")
    with open(rp, "w") as fh:
      json.dump(dict(property=pid, seed=seed, tier=doc["tier"],
                     failed=[dict(trace=a, step=b, clause=c, site=d) for a, b, c, d in new[:200]],
                     traces=[by_id[x] for x in sorted({n[0] for n in new[:20]}) if x in by_id],
                     rerun=f"VERIF_SEED={seed} python3 harness/runner.py {pid}"), fh, indent=1)
    for s, c in viol[:10]:
      print(f"  failed: site={s} clause={c}")
    print(f"VIOLATION property={pid} replay={rp}")
    return 1
  return 0


if __name__ == "__main__":
  main()
