"""Machinery shared by the checks: build the code, run TLC, record runs, validate them."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, fcntl
from concurrent.futures import ThreadPoolExecutor

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
CPUS = 8


class ToolError(Exception):
  """the check itself could not do its work: neither pass nor violation"""


def sh(cmd, timeout=600, **kw):
  return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                        timeout=timeout, **kw)


# ---------------------------------------------------------------- building
CXX = ["g++", "-std=c++17", "-O1", "-pipe", "-w", "-D_GLIBCXX_ASSERTIONS"]
INC = lambda d: ["-I" + d, "-I" + REPO + "/src", "-I" + REPO + "/src/flpr", "-I" + REPO + "/apps",
                 "-I" + HOME + "/driver"]


def tree_hash(paths):
  h = hashlib.sha256(" ".join(CXX).encode())
  for base in paths:
    fs = [base] if os.path.isfile(base) else sorted(
        os.path.join(d, f) for d, _, names in os.walk(base) for f in names)
    for f in fs:
      h.update(f.encode() + b"\0")
      with open(f, "rb") as fh: h.update(hashlib.sha256(fh.read()).digest())
  return h.hexdigest()[:24]


def compile_all(jobs):
  """jobs: list of (argv, what).  Compiles in parallel."""
  def one(j):
    r = sh(j[0], timeout=800)
    return (j[1], r)
  with ThreadPoolExecutor(CPUS) as ex:
    for what, r in ex.map(one, jobs):
      if r.returncode: raise ToolError(f"cannot build {what}:\n{r.stdout[-3000:]}")


def build(drivers, apps=()):
  """Build the library from /repo's working tree and the drivers against it.  Returns {name: path}.
  Products are cached by the content of every source they are made from."""
  cache = os.path.join(HOME, ".cache")
  os.makedirs(cache, exist_ok=True)
  src = REPO + "/src/flpr"
  key = tree_hash([REPO + "/src", REPO + "/apps"])
  dkey = tree_hash([HOME + "/driver"])[:12]
  exe = lambda d: f"{out}/{d}-{dkey}"
  out = os.path.join(cache, key)
  with open(os.path.join(cache, "lock"), "w") as lk:
    fcntl.flock(lk, fcntl.LOCK_EX)
    lib = os.path.join(out, "libflpr.a")
    todo = []
    if not os.path.exists(lib):
      old = sorted((d for d in os.listdir(cache) if os.path.isdir(os.path.join(cache, d))),
                   key=lambda d: os.path.getmtime(os.path.join(cache, d)))
      for d in old[:-3]: shutil.rmtree(os.path.join(cache, d), ignore_errors=True)
      os.makedirs(out, exist_ok=True)
      units = sorted(f for f in os.listdir(src) if f.endswith(".cc"))
      for f in sorted(f for f in os.listdir(src) if f.endswith(".l")):
        base = f[:-2]
        r = sh(["flex", f"--header-file={out}/{base}.hh", "-o", f"{out}/{base}.cc", f"{src}/{f}"])
        if r.returncode: raise ToolError("flex failed:\n" + r.stdout)
        units.append(f"{out}/{base}.cc")
      objs = []
      for u in units:
        p = u if u.startswith("/") else f"{src}/{u}"
        o = f"{out}/{os.path.basename(u)}.o"
        objs.append(o)
        todo.append((CXX + INC(out) + ["-c", p, "-o", o], u))
    else:
      objs = None
    need = [d for d in drivers if not os.path.exists(exe(d))]
    for d in need:
      todo.append((CXX + INC(out) + ["-c", f"{HOME}/driver/{d}.cc", "-o", f"{out}/{d}.o"], d))
    # long translation units first
    todo.sort(key=lambda j: -sum(os.path.getsize(a) for a in j[0] if a.endswith(".cc")))
    compile_all(todo)
    if objs:
      r = sh(["ar", "rcs", lib + ".tmp"] + objs)
      if r.returncode: raise ToolError("ar failed:\n" + r.stdout)
      os.rename(lib + ".tmp", lib)
      for o in objs: os.unlink(o)
    extra = {d: [] for d in need}
    link = []
    for d in need:
      srcs = re.findall(r"^// link: (\S+)", open(f"{HOME}/driver/{d}.cc").read(), re.M)
      link.append((CXX + INC(out) + [f"{out}/{d}.o"] + [s.replace("@REPO@", REPO) for s in srcs]
                   + [lib, "-o", f"{out}/{d}.tmp"], d))
    compile_all(link)
    for d in need:
      os.rename(f"{out}/{d}.tmp", exe(d))
      os.unlink(f"{out}/{d}.o")
    os.utime(out)
  return {d: exe(d) for d in drivers}


# ---------------------------------------------------------------- TLC
def tla_val(v):
  if isinstance(v, bool): return "TRUE" if v else "FALSE"
  if isinstance(v, int): return str(v)
  if isinstance(v, str): return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\t", "\\t") + '"'
  if isinstance(v, (set, frozenset)): return "{" + ", ".join(sorted(tla_val(x) for x in v)) + "}"
  if isinstance(v, (list, tuple)): return "<<" + ", ".join(tla_val(x) for x in v) + ">>"
  if isinstance(v, dict): return "[" + ", ".join(f"{k} |-> {tla_val(x)}" for k, x in v.items()) + "]"
  raise ValueError(v)


def tlc(module, consts, cfg, work, env=None, workers=CPUS, heap="4g", timeout=800, args=()):
  """run TLC on a wrapper that extends the module and defines its constants"""
  tag = f"R{os.urandom(4).hex()}_{module}"
  with open(f"{work}/{tag}.tla", "w") as f:
    f.write(f"---- MODULE {tag} ----\nEXTENDS {module}\n")
    for k, v in consts.items(): f.write(f"c_{k} == {tla_val(v)}\n")
    f.write("====\n")
  cfgp = f"{work}/{tag}.cfg"
  with open(cfgp, "w") as f:
    f.write(cfg)
    if consts: f.write("CONSTANTS\n" + "".join(f"  {k} <- c_{k}\n" for k in consts))
  gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
  cmd = ["java", gc, f"-Xmx{heap}", "-Xss128m", f"-DTLA-Library={HOME}/spec", f"-Djava.io.tmpdir={work}", "-cp", CP, "tlc2.TLC",
         "-noGenerateSpecTE", "-metadir", f"{work}/{tag}.md", "-workers", str(workers), "-config", cfgp, *args,
         f"{work}/{tag}.tla"]
  e = dict(os.environ); e.update(env or {}); e.pop("JAVA_TOOL_OPTIONS", None)
  out = f"{work}/{tag}.out"
  with open(out, "w") as f:
    try: p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired: raise ToolError(f"TLC timed out on {module}")
  shutil.rmtree(f"{work}/{tag}.md", ignore_errors=True)
  return p.returncode, out


def cfg_text(invs=(), spec="SPECIFICATION Spec", extra=""):
  t = spec + "\nCHECK_DEADLOCK FALSE\n"
  if invs: t += "INVARIANTS " + " ".join(invs) + "\n"
  return t + extra


STATS = re.compile(r"^(\d+) states generated, (\d+) distinct states found, 0 states left")


def unprint(line):
  """a PrintT string as TLC shows it -> its value"""
  s = line.rstrip("\n")
  if s.startswith('"') and s.endswith('"'): s = s[1:-1]
  return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(m[1], m[1]), s)


class Run:
  """one run of one check"""

  def __init__(self, pid, tier, seed):
    self.pid, self.tier, self.seed = pid, tier, seed
    self.quick = tier == "quick"
    self.rng = random.Random(f"{pid}/{seed}")
    self.t0 = time.time()
    self.work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    self.states = self.transitions = self.traces = 0
    self.models, self.campaigns, self.samples, self.violations = [], [], [], []
    self.assumptions = []
    self.exhaustive = []

  def pick(self, quick, thorough): return quick if self.quick else thorough

  def log(self, *a): print(f"[{self.pid} {time.time()-self.t0:6.1f}s]", *a, flush=True)

  # -- exhaustive checking of a model; returns the behaviours it emitted
  def model(self, module, consts, invs, emit=False, cap=None, workers=CPUS, timeout=800, spec="SPECIFICATION Spec",
            extra="", cover=True):
    rc, out = tlc(module, consts, cfg_text(invs, spec, extra), self.work, workers=workers, timeout=timeout)
    cases, gen, dist, err = [], None, None, []
    with open(out, errors="replace") as f:
      for line in f:
        if line.startswith('"CASE '):
          cases.append(unprint(line)[5:])
        else:
          m = STATS.match(line)
          if m: gen, dist = int(m[1]), int(m[2])
          elif line.startswith("Error:"): err.append(line.strip())
    if rc != 0 or gen is None:
      tail = "".join(l for l in open(out, errors="replace") if not re.match('"CASE |Parsing|Semantic|Linting', l))
      raise ToolError(f"the model {module} does not check (rc={rc}): {err}\n{tail[:4000]}")
    os.unlink(out)
    self.states += dist; self.transitions += gen
    self.models.append({"module": module, "constants": {k: tla_val(v) for k, v in consts.items()},
                        "invariants": list(invs), "distinct_states": dist, "transitions": gen,
                        "behaviours_emitted": len(cases)})
    self.log(f"model {module}: {dist} states, {gen} transitions, {len(cases)} behaviours, invariants {' '.join(invs)}")
    if not emit: return []
    if not cases: raise ToolError(f"{module} emitted no behaviours")
    cases = [json.loads(c) for c in dict.fromkeys(cases)]
    if cap and len(cases) > cap:
      cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
      cases = self.rng.sample(cases, cap)
    return cases

  # -- histories of a state machine specification (MC_X.tla)
  def histories(self, module, consts, invs, depth=None, tour=None, sim=None, cap=None, timeout=800):
    """depth: every history of that length; tour: every transition of the state graph within that depth;
    sim=(num, depth): random walks of the specification"""
    out = []
    if depth: out += self.model(module, dict(consts, Depth=depth, Mode="all"), invs, emit=True, cap=cap, timeout=timeout)
    if tour:
      cs = self.model(module, dict(consts, Depth=tour, Mode="tour"), invs, emit=True, extra="VIEW CoreView\n", workers=1,
                      timeout=timeout)
      pre = set()
      keys = [json.dumps(c["ops"])[:-1] for c in cs]
      for c in cs:
        for n in range(1, len(c["ops"])): pre.add(json.dumps(c["ops"][:n])[:-1])
      cs = [c for c, k in zip(cs, keys) if k not in pre]
      if cap and len(cs) > cap: cs = self.rng.sample(cs, cap)
      out += cs
    if sim: out += self.simulate(module, consts, invs, *sim)
    return out

  def simulate(self, module, consts, invs, num, depth, timeout=600):
    n = CPUS
    def one(k):
      seed = random.Random(f"{self.pid}/{self.seed}/{module}/{k}").randrange(1 << 30)
      rc, out = tlc(module, dict(consts, Depth=depth, Mode="walk"), cfg_text(invs), self.work, workers=1, heap="2g", timeout=timeout,
                    args=["-simulate", f"num={max(1, num // n)}", "-depth", str(depth + 2), "-seed", str(seed)])
      cs, err = [], []
      with open(out, errors="replace") as f:
        for line in f:
          if line.startswith('"CASE '): cs.append(unprint(line)[5:])
          elif line.startswith("Error:"): err.append(line)
      if rc != 0 or err: raise ToolError(f"simulation of {module} failed: {err} {open(out, errors='replace').read()[-2000:]}")
      os.unlink(out)
      return cs
    cs = []
    with ThreadPoolExecutor(n) as ex:
      for r in ex.map(one, range(n)): cs += r
    cs = [json.loads(c) for c in dict.fromkeys(cs)]
    if not cs: raise ToolError(f"simulation of {module} emitted nothing")
    self.transitions += len(cs) * depth
    self.log(f"simulated {module}: {len(cs)} histories of {depth} steps")
    self.models.append({"module": module, "constants": {k: tla_val(v) for k, v in consts.items()}, "mode": "random walks",
                        "behaviours_emitted": len(cs), "depth": depth, "invariants": list(invs)})
    return cs

  # -- run cases through a driver of the real code
  def execute(self, exe, cases, limit_s=10):
    """attach 'obs' to every case"""
    for i, c in enumerate(cases): c["id"] = i
    n = min(CPUS, max(1, len(cases) // 20))
    tag = os.urandom(4).hex()
    def one(k):
      part = cases[k::n]
      ci, co = f"{self.work}/{tag}.{k}.in", f"{self.work}/{tag}.{k}.out"
      with open(ci, "w") as f:
        for c in part: f.write(json.dumps(c) + "\n")
      r = sh([exe, ci, co, str(limit_s)], timeout=3000, cwd=self.work)
      if r.returncode: raise ToolError(f"driver {exe} failed: {r.returncode} {r.stdout[-500:]}")
      obs = {}
      with open(co) as f:
        for l in f:
          d = json.loads(l); obs[d["id"]] = d["obs"]
      for c in part:
        if c["id"] not in obs: raise ToolError(f"driver {exe} reported nothing for case {c['id']}")
        c["obs"] = obs[c["id"]]
      os.unlink(ci); os.unlink(co)
    with ThreadPoolExecutor(n) as ex: list(ex.map(one, range(n)))
    return cases

  # -- validate recorded runs against a trace specification; returns [(case, why)]
  def validate(self, module, traces, consts=None, count=True, timeout=800):
    if not traces: return []
    n = min(CPUS, max(1, len(traces) // 25))
    byid = {t["id"]: t for t in traces}
    cfg = cfg_text(spec="INIT Init\nNEXT Next")
    tag = os.urandom(4).hex()
    def one(k):
      part = traces[k::n]
      p = f"{self.work}/{tag}.{k}.trace"
      with open(p, "w") as f:
        for c in part: f.write(json.dumps(c) + "\n")
      rc, out = tlc(module, consts or {}, cfg, self.work, env={"TRACE": p}, workers=1, heap="2500m", timeout=timeout)
      rej, gen = [], None
      with open(out, errors="replace") as f:
        for line in f:
          if line.startswith('"REJECT '):
            m = re.match(r"REJECT (\d+) :: (.*)", unprint(line), re.S); rej.append((int(m[1]), m[2]))
          else:
            m = STATS.match(line)
            if m: gen = int(m[1])
      if rc != 0 or gen != len(part) + 1:
        tail = "".join(open(out, errors="replace").readlines()[-30:])
        raise ToolError(f"trace specification {module} failed (rc={rc}, {gen} states for {len(part)} entries)\n{tail[:4000]}")
      os.unlink(p); os.unlink(out)
      return rej, gen
    bad = []
    with ThreadPoolExecutor(n) as ex:
      for rej, gen in ex.map(one, range(n)):
        if count: self.states += gen; self.transitions += gen - 1
        bad += rej
    if count: self.traces += len(traces)
    return [(byid[i], why) for i, why in bad]

  # -- record + validate + re-run what is rejected
  def conform(self, name, exe, module, cases, consts=None, limit_s=10, note=""):
    seen, uniq = set(), []
    for c in cases:
      c.pop("id", None); c.pop("obs", None)
      k = json.dumps(c, sort_keys=True)
      if k not in seen: seen.add(k); uniq.append(c)
    self.execute(exe, uniq, limit_s)
    bad = self.validate(module, uniq, consts)
    self.log(f"{name}: {len(uniq)} runs recorded and validated against {module}, {len(bad)} rejected")
    self.campaigns.append({"name": name, "runs": len(uniq), "trace_spec": module,
                           "judged": {k: tla_val(v) for k, v in (consts or {}).items()},
                           "died": sum(1 for c in uniq if isinstance(c["obs"], dict) and "died" in c["obs"]),
                           "note": note})
    if uniq:
      r = random.Random(self.seed)
      c = dict(r.choice(uniq)); s = json.dumps(c)
      self.samples.append({"campaign": name, "case": {k: v for k, v in c.items() if k != "obs"},
                           "observed": s[:600] if len(s) > 600 else c["obs"]})
    if bad:
      # a rejection counts only if it repeats: run everything again, in the same order, so that a
      # failure that depends on what the same process did before repeats as well
      ids = {c["id"] for c, _ in bad[:200]}
      self.execute(exe, uniq, limit_s)
      bad2 = self.validate(module, [c for c in uniq if c["id"] in ids], consts, count=False)
      if not bad2: raise ToolError(f"{name}: rejections did not repeat: {bad[0][1]}")
      for c, why in bad2:
        if not self.known(c, why): self.violations.append((name, c, why))

  def known(self, case, why):
    c = {k: v for k, v in case.items() if k not in ("obs", "id")}
    for k in load_known():
      if k["property"] == self.pid and k["case"] == c:
        print(f"KNOWN-FINDING: property={self.pid} {k['what']}", flush=True)
        return True
    return False

  def finish(self):
    wall = time.time() - self.t0
    ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
          "coverage": {"states": self.states, "transitions": self.transitions,
                       "traces_validated_against_impl": self.traces, "samples": self.samples[:12],
                       "models": self.models, "campaigns": self.campaigns},
          "assumptions": self.assumptions, "wall_s": round(wall, 1), "violations": len(self.violations)}
    os.makedirs(HOME + "/evidence", exist_ok=True)
    with open(f"{HOME}/evidence/{self.pid}.json", "w") as f: json.dump(ev, f, indent=1)
    shutil.rmtree(self.work, ignore_errors=True)
    if self.violations:
      os.makedirs(HOME + "/replay", exist_ok=True)
      self.violations.sort(key=lambda v: len(json.dumps(v[1])))
      for i, (name, c, why) in enumerate(self.violations[:3]):
        p = f"{HOME}/replay/{self.pid}-{i}.json"
        with open(p, "w") as f: json.dump({"property": self.pid, "campaign": name, "why": why, "case": c}, f, indent=1)
        print(f"  {name}: {why}\n  case: {json.dumps({k: v for k, v in c.items() if k != 'obs'})[:1500]}")
        print(f"VIOLATION property={self.pid} replay={p}", flush=True)
      return 1
    print(f"{self.pid}: held on everything explored ({self.states} states, {self.transitions} transitions, "
          f"{self.traces} recorded runs validated, {wall:.0f} s)")
    return 0


def load_known():
  """known_findings.txt: lines 'known: {"property":..,"what":..,"case":..}' (suppress exactly that case)
  and 'fixed: property=.. <commit> ..' (a record; suppresses nothing)"""
  p = HOME + "/known_findings.txt"
  if not os.path.exists(p): return []
  return [json.loads(l[6:]) for l in open(p) if l.startswith("known:")]


def corpus(name):
  p = f"{HOME}/corpus/{name}.ndjson"
  return [json.loads(l) for l in open(p) if l.strip()] if os.path.exists(p) else []
