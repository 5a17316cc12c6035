#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] | --build | --replay FILE

Decides one property of rusty_network by model checking and trace validation:
 1. builds the conformance harness against /repo's current working tree (hooks on),
 2. model checks the specification modules the property rests on (TLC),
 3. replays on the real library the call sequences TLC generated from the specification, and
    records further randomized drives of the real library,
 4. validates every recorded trace against the specification (TLC).
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: tool error.
"""
import collections, concurrent.futures, json, os, random, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

# ---------------------------------------------------------------- configuration
# trace families: name -> (trace module, number mode, quick count, thorough count)
FAM = {
    "index": ("TraceOps", "exact", 1250, 8000), "shapes": ("TraceOps", "exact", 600, 6000), "fills": ("TraceOps", "exact", 1250, 8000),
    "elem": ("TraceOps", "exact", 1500, 12000), "objects": ("TraceOps", "exact", 1000, 8000),
    "mat": ("TraceOps", "exact", 1500, 12000), "fused": ("TraceOps", "exact", 1250, 10000),
    "conv": ("TraceOps", "exact", 1500, 10000), "convin": ("TraceOps", "exact", 1500, 10000),
    "convker": ("TraceOps", "exact", 1500, 10000), "pool": ("TraceOps", "exact", 1500, 12000),
    "softmax": ("TraceOps", "exact", 1500, 12000), "tfile": ("TraceOps", "exact", 1250, 8000),
    "lfc": ("TraceNet", "exact", 400, 4000), "lconv": ("TraceNet", "exact", 400, 4000),
    "lpool": ("TraceNet", "exact", 500, 5000), "accum": ("TraceNet", "exact", 400, 3000),
    "calls": ("TraceNet", "exact", 400, 3000), "construct": ("TraceNet", "exact", 500, 4000),
    "records": ("TraceNet", "exact", 500, 4000), "net": ("TraceNet", "exact", 300, 2500),
    "netwrong": ("TraceNet", "exact", 300, 2500), "netmodes": ("TraceNet", "exact", 300, 2500),
    "netfiles": ("TraceNet", "exact", 300, 2500), "netcut": ("TraceNet", "exact", 120, 800),
    "netbad": ("TraceNet", "exact", 300, 2500), "netmemo": ("TraceNet", "exact", 300, 2500),
    "lopaque": ("TraceNet", "exact", 500, 4000),
    "lord": ("TraceNet", "exact", 350, 3500), "netord": ("TraceNet", "exact", 200, 2000),
    "netpar": ("TraceNet", "exact", 150, 2000), "layerpar": ("TraceNet", "exact", 200, 3000),
    "stress": ("TraceNet", "exact", 240, 3000),
    "modes": ("TraceNet", "exact", 500, 4000), "lsat": ("TraceNet", "soft6", 400, 4000),
    "lsoft": ("TraceNet", "soft16", 500, 5000), "callssoft": ("TraceNet", "soft16", 300, 2500),
    "modessoft": ("TraceNet", "soft16", 400, 3000), "recordssoft": ("TraceNet", "soft16", 300, 2500),
    "constructsoft": ("TraceNet", "soft16", 300, 2500), "accumsoft": ("TraceNet", "soft16", 400, 3000),
    "netsoft": ("TraceNet", "soft10", 300, 2500),
}
MODE = {"exact": dict(QBITS=0, TOLF=0, TOLG=0), "soft16": dict(QBITS=16, TOLF=2, TOLG=256), "soft6": dict(QBITS=6, TOLF=0, TOLG=2), "soft10": dict(QBITS=10, TOLF=8, TOLG=64)}

def layer(kind):
    return dict(module="MCLayer", name="MCLayer-" + kind,
                quick=dict(KIND='"%s"' % kind, MAXPASS=1, MAXLEN=8), thorough=dict(KIND='"%s"' % kind, MAXPASS=2, MAXLEN=12),
                inv="GradsAreSums NoGradsInInference ShapesTrue ParamsFromUser RecordRestores", prop="OnlyAllowed",
                mode="soft16" if kind == "softmax" else "exact", scripts=True)
def net(tag, q, t):
    return dict(module="MCNet", name="MCNet-" + tag, quick=q, thorough=t,
                inv="Invariants Composition FilesUsable TornRefused", prop="Independent ParamsKept", mode="exact", scripts=True)
def alg(which):
    return dict(module="MCAlgebra", name="MCAlgebra-" + which, quick=dict(WHICH='"%s"' % which, BIG="FALSE"),
                thorough=dict(WHICH='"%s"' % which, BIG="TRUE"), inv="Holds", prop="", mode="exact", scripts=False)
MC = {m["name"]: m for m in [layer("fc"), layer("conv"), layer("pool"), layer("softmax"),
      net("one", dict(NNETS=1, NFILES=1, ADDTO=1, MAXLAYERS=2, MAXPASS=1, MAXLEN=6),
          dict(NNETS=1, NFILES=1, ADDTO=1, MAXLAYERS=3, MAXPASS=2, MAXLEN=8)),
      net("two", dict(NNETS=2, NFILES=1, ADDTO=1, MAXLAYERS=2, MAXPASS=1, MAXLEN=4),
          dict(NNETS=2, NFILES=2, ADDTO=2, MAXLAYERS=2, MAXPASS=1, MAXLEN=5))]
      + [alg(w) for w in ("index", "elem", "mat", "geom", "conv", "pool", "soft", "back", "chain")]}
SCRIPTS_QUICK, SCRIPTS_THOROUGH = 900, 12000       # replayed per script model (sampled above that)

LAYERS = ["MCLayer-fc", "MCLayer-conv", "MCLayer-pool", "MCLayer-softmax"]
# property -> (model checking runs, trace families)
PLAN = {
    "C01": (["MCAlgebra-index"], ["index", "shapes", "fills", "objects"]),
    "C02": (["MCAlgebra-elem"], ["elem", "objects"]),
    "C03": (["MCAlgebra-mat"], ["mat"]),
    "C04": (["MCAlgebra-mat", "MCAlgebra-conv"], ["fused", "modes", "modessoft", "lfc", "lconv", "lpool", "lsoft", "mat"]),
    "C05": (["MCAlgebra-geom", "MCAlgebra-conv"], ["conv"]),
    "C06": (["MCAlgebra-conv"], ["convin"]),
    "C07": (["MCAlgebra-conv"], ["convker"]),
    "C08": (["MCAlgebra-geom", "MCAlgebra-pool"], ["pool", "lpool", "lord"]),
    "C09": (["MCAlgebra-pool", "MCLayer-pool"], ["lpool", "accum", "calls", "net", "lord"]),
    "C10": (["MCAlgebra-soft"], ["softmax", "lsoft", "lsat", "modessoft"]),
    "C11": (["MCAlgebra-soft", "MCLayer-softmax"], ["lsoft", "lsat", "accumsoft", "callssoft", "netsoft"]),
    "C12": (["MCAlgebra-back", "MCLayer-fc"], ["lfc", "accum", "net", "lord"]),
    "C13": (["MCAlgebra-back", "MCLayer-conv"], ["lconv", "accum", "net", "lord"]),
    "C14": (["MCLayer-fc", "MCLayer-conv"], ["accum", "calls", "net", "netmodes", "lopaque"]),
    "C15": (["MCAlgebra-geom", "MCLayer-conv", "MCLayer-pool"], ["construct", "constructsoft"]),
    "C16": (["MCNet-one"], ["net", "netwrong", "netfiles", "netbad"]),
    "C17": (["MCNet-one", "MCLayer-conv", "MCLayer-softmax"], ["netmodes", "netwrong", "accum", "accumsoft", "calls", "lopaque"]),
    "C18": (["MCNet-one"], ["net", "netwrong", "netmodes", "netsoft", "netord"]),
    "C19": (["MCAlgebra-chain", "MCNet-one"], ["net", "netwrong", "netmodes", "netsoft"]),
    "C20": (LAYERS, ["calls", "callssoft", "netwrong", "netmodes"]),
    "C21": (["MCNet-one", "MCNet-two"], ["netfiles", "netmemo", "records", "recordssoft", "netord"]),
    "C22": (["MCNet-two"], ["netcut", "netbad", "netfiles", "records", "recordssoft"]),
    "C23": (["MCAlgebra-index"], ["tfile"]),
    "C24": (LAYERS, ["records", "recordssoft", "netfiles", "lopaque"]),
    "C25": (["MCNet-one", "MCLayer-fc", "MCLayer-conv"], ["calls", "records", "net", "netwrong", "netfiles", "lopaque"]),
    "C26": (["MCNet-two"], ["netmemo", "net", "netmodes", "accum", "lopaque", "netpar", "layerpar", "stress"]),
}
# which properties a call that never returns (abort, endless loop) breaks
DEATH = {
    "lmake": "C15", "lfill": "C15", "lset": "C15 C25", "lempty": "C15 C24", "lfwd": "C04 C08 C09 C10 C11 C12 C13 C15 C20",
    "lbwd": "C09 C11 C12 C13 C14 C17 C20", "lclear": "C14", "ltrain": "C17", "linf": "C17", "lmodes": "C04 C15",
    "lsave": "C24", "lload": "C24", "lmut": "C24 C22", "nnew": "C16", "nadd": "C16", "nadds": "C16", "ntrain": "C17", "ninf": "C17",
    "ninfer": "C18 C26", "nback": "C19", "nrep": "C26", "nsave": "C21", "nload": "C21 C22", "nsavefail": "C21", "nrec": "C16 C21 C24",
}
for _p, _o in {"C01": "new empty shape shapenew fitsix ixnew set get writeall lin probe fillval fillvec uniform gauss0 gauss spread fillval3 fillvec3 setp",
               "C02": "add addself mul mulself scale scaleself relu addidx norm addself3 clone relu3 eq",
               "C03": "matmul mmt1 mmt2 transp mmar", "C04": "mmar fmm fconv", "C05": "conv convrelu checkconv fits",
               "C06": "convin", "C07": "convker", "C08": "pool poolt checkpool fits", "C10": "softmax",
               "C23": "tsave tsavefail tload ttear tremove tmut"}.items():
    for _q in _o.split() + ["x" + _x for _x in _o.split()]:
        DEATH[_q] = (DEATH.get(_q, "") + " " + _p).strip()

class ToolError(Exception):
    fails = ()

# ---------------------------------------------------------------- building
def build(profile="dev"):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE="true")
    env.pop("RUSTC_WRAPPER", None)
    last = ""
    for flags in ("--cfg vp_hooks", ""):
        env["RUSTFLAGS"] = flags + " -Awarnings"
        # without the hooks into a directory of its own, so that the binary is never mixed up
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target" if flags else "target-nohooks")
        cmd = ["cargo", "build", "--offline", "--quiet"] + (["--release"] if profile == "release" else [])
        r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return os.path.join(env["CARGO_TARGET_DIR"], "debug" if profile == "dev" else "release", "vp_harness"), bool(flags)
        last = r.stdout
    raise ToolError("harness does not build against /repo:\n" + last[-4000:])

# ---------------------------------------------------------------- running things
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def harness(binary, family, seed, count, out, work, timeout, scripts=None):
    """Runs a family; returns the calls that never returned [(trace id, line, op, how)]."""
    dead, parts, start = [], [], 0
    for attempt in range(4):
        part = "%s.%d" % (out, attempt)
        args = [binary, family, str(seed), str(count), part, work] + ([scripts] if scripts else [])
        env = dict(os.environ, VP_START=str(start), RUST_BACKTRACE="0")
        how = None
        try:
            r = subprocess.run(args, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, preexec_fn=limits, errors="replace")
            if r.returncode != 0:
                how = "ended with status %d" % r.returncode
                if "harness:" in r.stdout or r.returncode == 3:
                    raise ToolError("harness failure in %s: %s" % (family, r.stdout[-2000:]))
        except subprocess.TimeoutExpired:
            how = "did not return within %d s" % timeout
        parts.append(part)
        if os.path.exists(part + ".crashes"):
            # the library panicked where a tensor was looked at, outside a recorded call
            dead += [(m[0], int(m[1]), m[2], "panicked after this call") for m in map(str.split, open(part + ".crashes")) if len(m) == 3]
        if how is None:
            break
        mark = open(part + ".progress").read().split()
        if len(mark) < 3 or mark[0].startswith("done"):
            raise ToolError("harness %s died outside a call: %s" % (family, how))
        dead.append((mark[0], int(mark[1]), mark[2], how))
        start = int(mark[0].rsplit("-", 1)[1]) + 1
    with open(out, "w") as f:
        for p in parts:
            if os.path.exists(p):
                for line in open(p):
                    if line.endswith("\n"):
                        f.write(line)
    return dead

def cfg_text(module, mode, extra=None, inv="", prop="", view=True):
    c = ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE"]
    if view:
        c.append("VIEW View")
    if inv:
        c.append("INVARIANTS " + inv)
    if prop:
        c.append("PROPERTIES " + prop)
    if module.startswith("Trace"):
        c.append("ALIAS Brief")
    k = dict(MODE[mode])
    if module == "TraceOps":
        k = {"QBITS": k["QBITS"]}
    k.update(extra or {})
    c.append("CONSTANTS " + " ".join("%s=%s" % kv for kv in k.items()))
    return "\n".join(c) + "\n"

TLA = "/opt/veriftools/tla"
def tlc(module, cfg, work, tag, workers, timeout, trace=None, more=()):
    cfgf = os.path.join(work, tag + ".cfg")
    open(cfgf, "w").write(cfg)
    env = dict(os.environ)
    if trace:
        env["TRACE"] = trace
    meta = os.path.join(work, "meta-" + tag)
    cmd = ["tlc", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfgf, *more, os.path.join(SPEC, module + ".tla")]
    env["JAVA_TOOL_OPTIONS"] = (env.get("JAVA_TOOL_OPTIONS", "") + " -Xss16m -Xmx5g -Djava.io.tmpdir=" + work).strip()
    out = os.path.join(work, tag + ".log")
    try:
        with open(out, "w") as f:
            r = subprocess.run(cmd, env=env, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC on %s (%s) did not finish in %d s" % (module, tag, timeout))
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, open(out, errors="replace").read()

STATES = re.compile(r"^([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", re.M)
def states(text):
    m = None
    for m in STATES.finditer(text):
        pass
    if m is None:
        return None
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))

FAIL = re.compile(r'<<\s*"FAIL",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)",\s*"([^"]*)",\s*\{([^}]*)\}\s*>>', re.S)

def validate(module, mode, path, work, tag, workers, timeout):
    """Validates a trace file.  Returns (failures, generated, distinct, traces, events)."""
    lines = [l for l in open(path) if l.strip()]
    fails, gen, dist, removed = [], 0, 0, []
    total = len(lines)
    inv = "CallsConform" + (" ModelInv" if module == "TraceNet" else "")
    events = 0
    for attempt in range(8):
        if not lines:
            return fails, gen, dist, total, events
        with open(path, "w") as f:
            f.writelines(lines)
        rc, text = tlc(module, cfg_text(module, mode, {"FOCUS": '"NONE"'}, inv), work, tag, workers, timeout, trace=path, more=("-continue",))
        done = "Model checking completed" in text
        got = [(m.group(1), int(m.group(2)), m.group(3), m.group(4), set(re.findall(r'"([^"]*)"', m.group(5)))) for m in FAIL.finditer(text)]
        broken = "Invariant ModelInv is violated" in text
        if done or broken:
            s = states(text)
            if s is None:
                raise ToolError("no state count from TLC for %s" % tag)
            seen, want = {}, 0
            for g in got:
                seen[g[0]] = g
            for l in lines:
                t = json.loads(l)
                n = seen[t["id"]][1] if t["id"] in seen and module == "TraceNet" else len(t["ev"])
                want += n + 1
                events += n
            if module == "TraceOps":
                pass
            if s[1] != want:
                raise ToolError("%s: TLC consumed %d states of %d: %s" % (tag, s[1], want, text[-3000:]))
            if broken:
                fails.append(("?", 0, "model", "invariant", {"C14", "C16", "C17", "C18"}))
            return fails + got, gen + s[0], dist + s[1], total, events
        # the specification could not even be evaluated on an observation: attribute it to its call
        m = re.findall(r'/\\ trace = "([^"]*)"', text)
        k = re.findall(r"/\\ line = (\d+)", text)
        if not m or "Error:" not in text:
            raise ToolError("TLC failed on %s:\n%s" % (tag, text[-3000:]))
        tid, line = m[-1], int(k[-1])
        hit = [l for l in lines if json.loads(l)["id"] == tid]
        ev = json.loads(hit[0])["ev"][line - 1]
        why = (re.findall(r"Error: (.*)", text) or ["?"])[0]
        fails.append((tid, line, ev["op"], "not comparable: " + why[:200], set(DEATH.get(ev["op"], "").split())))
        lines = [l for l in lines if json.loads(l)["id"] != tid]
    err = ToolError("too many observations TLC cannot evaluate in %s" % tag)
    err.fails = fails
    raise err

# ---------------------------------------------------------------- one check
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        os.makedirs(BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
        self.thorough = tier == "thorough"
        self.viol, self.others = [], []
        self.cov = collections.Counter()
        self.ops, self.rets = collections.Counter(), collections.Counter()
        self.models, self.families, self.samples = {}, {}, []
        self.timeout = 3000 if self.thorough else 300

    def model(self, name, workers):
        m = MC[name]
        cfg = cfg_text(m["module"], m["mode"], dict(m["thorough" if self.thorough else "quick"], **({"EMIT": "TRUE"} if m["scripts"] else {})),
                       m["inv"], m["prop"], view=m["scripts"])
        rc, text = tlc(m["module"], cfg, self.work, name, workers, self.timeout)
        if "Model checking completed. No error has been found." not in text:
            raise ToolError("the specification itself fails its model check %s:\n%s" % (name, text[-3000:]))
        s = states(text)
        self.models[name] = dict(generated=s[0], distinct=s[1], constants=m["thorough" if self.thorough else "quick"],
                                 depth=int((re.findall(r"depth of the complete state graph search is (\d+)", text) or ["0"])[0]))
        scripts = []
        if m["scripts"]:
            for l in text.splitlines():
                if l.startswith('"SCRIPT '):
                    scripts.append(json.loads(l)[7:])
            self.models[name]["scripts"] = len(scripts)
            limit = SCRIPTS_THOROUGH if self.thorough else SCRIPTS_QUICK
            if len(scripts) > limit:
                scripts = random.Random("%d %s" % (self.seed, name)).sample(scripts, limit)
            self.models[name]["scripts_replayed"] = len(scripts)
        return scripts

    def jobs(self):
        models, fams = PLAN[self.prop]
        out = []
        for f in fams:
            module, mode, q, t = FAM[f]
            n = t if self.thorough else q
            size = 500 if self.thorough else (n + 1) // 2 if n > 150 else n
            for c in range(0, n, size):
                out.append((f, module, mode, self.seed * 7919 + c // size, min(size, n - c), None))
        return models, out

    def trace_job(self, binary, job, workers):
        f, module, mode, seed, n, scripts = job
        tag = "%s-%d" % (f, seed)
        path = os.path.join(self.work, tag + ".ndjson")
        scratch = os.path.join(self.work, "d-" + tag)
        os.makedirs(scratch, exist_ok=True)
        dead = harness(binary, "script" if scripts else f, seed, n, path, scratch, 600 if self.thorough else 75, scripts)
        keep = path + ".all"
        shutil.copyfile(path, keep)
        ops, rets, traces, sample = collections.Counter(), collections.Counter(), 0, None
        for l in open(path):
            t = json.loads(l)
            traces += 1
            for e in t["ev"]:
                ops[e["op"]] += 1
                rets[e["ret"]] += 1
            if sample is None and len(t["ev"]) > 2 and len(l) < 6000:
                sample = t
        if traces == 0 and not dead:
            raise ToolError("family %s recorded nothing" % f)
        error = None
        try:
            fails, gen, dist, total, events = validate(module, mode, path, self.work, tag, workers, self.timeout)
        except ToolError as e:
            # the part that could be judged may show a violation already
            error, fails, gen, dist, total, events = e, list(e.fails), 0, 0, 0, 0
        for d in dead:
            fails.append((d[0], d[1], d[2], d[3], set(DEATH.get(d[2], "").split())))
        hit = [x for x in fails if self.prop in x[4]]
        self.others += [(f, x[0], x[1], x[2], x[3], sorted(x[4])) for x in fails if self.prop not in x[4]]
        raw = {}
        if hit:
            for l in open(keep):
                raw[json.loads(l)["id"]] = l
        for x in hit:
            script = None
            if scripts and x[0].startswith("script-"):
                script = open(scripts).read().splitlines()[int(x[0].rsplit("-", 1)[1])]
            self.viol.append(dict(family=f, module=module, mode=mode, seed=seed, count=n, trace_id=x[0], line=x[1], op=x[2], ret=x[3],
                                  properties=sorted(x[4]), trace=raw.get(x[0]), script=script))
        self.cov["gen"] += gen
        self.cov["dist"] += dist
        self.cov["traces"] += total
        self.cov["events"] += events
        self.ops.update(ops)
        self.rets.update(rets)
        q = self.families.setdefault(f, dict(traces=0, events=0, module=module, numbers=mode))
        q["traces"] += total
        q["events"] += events
        if sample is not None and len(self.samples) < 4 and f not in [s["family"] for s in self.samples]:
            self.samples.append(dict(family=f, trace=sample["id"], events=sample["ev"][:3]))
        for p in (path, keep):
            os.remove(p)
        shutil.rmtree(scratch, ignore_errors=True)
        if error:
            raise error

    def run(self):
        binary, hooks = build()
        bins = [binary]
        if self.thorough:
            bins.append(build("release")[0])
        models, jobs = self.jobs()
        with concurrent.futures.ThreadPoolExecutor(4) as pool:
            futs = {}
            for m in models:
                futs[pool.submit(self.model, m, 2)] = m
            later = []
            running = [pool.submit(self.trace_job, bins[k % len(bins)], j, 2) for k, j in enumerate(jobs)]
            for fu in concurrent.futures.as_completed(futs):
                m = futs[fu]
                scripts = fu.result()
                size = 450 if not self.thorough else 1500
                for c in range(0, len(scripts), size):
                    p = os.path.join(self.work, "scripts-%s-%d" % (m, c))
                    with open(p, "w") as f:
                        f.write("\n".join(scripts[c:c + size]) + "\n")
                    job = (m, "TraceNet", MC[m]["mode"], self.seed * 7919 + c // size, 0, p)
                    later.append(pool.submit(self.trace_job, bins[len(later) % len(bins)], job, 2))
            errors = []
            for fu in running + later:
                try:
                    fu.result()
                except ToolError as e:
                    errors.append(e)
            if errors and not self.viol:
                raise errors[0]
        known = known_findings(self.prop)
        fresh = []
        for v in sorted(self.viol, key=lambda v: len(v["trace"] or "")):
            k = [f for f in known if all(str(v.get(a)) == b for a, b in f.items())]
            if not k:
                fresh.append(v)
        for f in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, " ".join("%s=%s" % kv for kv in f.items())))
        self.evidence(hooks, len(fresh))
        if fresh:
            d = os.path.join(BUILD, "replay")
            os.makedirs(d, exist_ok=True)
            by = collections.Counter((v["family"], v["op"], v["ret"]) for v in fresh)
            v = fresh[0]
            v["trace"] = json.loads(v["trace"]) if v["trace"] else None
            path = os.path.join(d, "%s-%d.json" % (self.prop, os.getpid()))
            json.dump(dict(property=self.prop, how_to_replay="python3 tools/check.py --replay " + path, **v), open(path, "w"), indent=1)
            for k, n in by.most_common(12):
                print("  %d failing histories: family=%s call=%s reply=%s" % (n, *k))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s holds on %d traces (%d calls), %d model states, %.0f s%s" % (
            self.prop, self.cov["traces"], self.cov["events"], sum(m["distinct"] for m in self.models.values()), time.time() - self.t0,
            "" if hooks else " (hooks unavailable: gradients not compared)"))
        if self.others:
            print("  (%d histories do not conform because of other properties, e.g. %s)" % (len(self.others), self.others[0]))
        return 0

    def evidence(self, hooks, violations):
        mdist = sum(m["distinct"] for m in self.models.values())
        mgen = sum(m["generated"] for m in self.models.values())
        ev = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", wall_s=round(time.time() - self.t0, 1), violations=violations,
            coverage=dict(
                states=mdist + self.cov["dist"], transitions=mgen + self.cov["gen"],
                traces_validated_against_impl=self.cov["traces"], calls_validated=self.cov["events"],
                model_runs=self.models, families=self.families, calls_by_operation=dict(self.ops), replies=dict(self.rets),
                hooks_on=hooks, histories_not_conforming_for_other_properties=len(self.others), samples=self.samples),
            assumptions=[
                "TLC, Java, the Rust toolchain and bincode are trusted",
                "numbers of exact traces are small integers in a power-of-two unit, for which f32 arithmetic is exact in any order",
                "softmax is compared in fixed point with a stated tolerance (module Softmax)",
                "behaviour outside the recorded and generated histories is not observed",
            ])
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + ".json"), "w"), indent=1)

def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("known:"):
                f = dict(re.findall(r"(\w+)=(\S+)", l))
                if f.pop("property", None) == prop:
                    out.append(f)
    return out

def replay(path):
    v = json.load(open(path))
    binary, _ = build()
    work = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    try:
        out = os.path.join(work, "t.ndjson")
        scripts = None
        if v.get("script"):
            scripts = os.path.join(work, "s")
            open(scripts, "w").write(v["script"] + "\n")
        dead = harness(binary, "script" if scripts else v["family"], v["seed"], v["count"], out, work, 300, scripts)
        fails, *_ = validate(v["module"], v["mode"], out, work, "t", 8, 900)
        fails += [(d[0], d[1], d[2], d[3], set(DEATH.get(d[2], "").split())) for d in dead]
        hit = [f for f in fails if v["property"] in f[4]]
        for f in hit[:10]:
            print("  trace %s call %d %s -> %s violates %s" % (f[0], f[1], f[2], f[3], sorted(f[4])))
        if hit:
            print("VIOLATION property=%s replay=%s" % (v["property"], path))
        return 1 if hit else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--build":
            print(build()[0])
            return 0
        if a and a[0] == "--replay":
            return replay(a[1])
        tier = "thorough" if "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        c = Check(a[0], tier, seed)
        try:
            return c.run()
        finally:
            if not os.environ.get("VP_KEEP"):
                shutil.rmtree(c.work, ignore_errors=True)
    except ToolError as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        import traceback
        print("ERROR: " + traceback.format_exc())
        return 2

if __name__ == "__main__":
    sys.exit(main())
