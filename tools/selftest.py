#!/usr/bin/env python3
"""selftest.py [COUNT]: is the oracle awake?

Records every family from the real library, alters ONE observed thing per trace (a number, a
reply, a shape, a mode, a name) and lets TLC judge the altered recording.  Every alteration has to be
rejected, at the altered call or a later one, unless the specification leaves the altered value open.
Prints, per kind of alteration, how many were rejected; exits 1 if one that must be rejected was not.
Not a registered check: it tests the machinery, not the repository."""
import collections, concurrent.futures, copy, json, os, random, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

# what the specification leaves open, by (call, altered thing); "some": only sometimes open
OPEN = {
    ("tmut", "reply"): "an altered file may be refused or load",
    ("lmut", "reply"): "an altered record may be refused or load",
    ("lempty", "*"): "an empty layer is whatever it is; adopted",
    ("lraw", "*"): "made by the driver, no call of the library", ("ldamage", "*"): "likewise", ("ftear", "*"): "likewise",
    ("fcopy", "*"): "likewise", ("fremove", "*"): "likewise", ("fcompose", "*"): "likewise",
    ("lbwd", "*"): "before any forward pass, and among equal maxima",
    ("nback", "*"): "likewise",
    ("nadd", "boundary"): "a boundary no inference has reached", ("nload", "boundary"): "likewise", ("nrec", "boundary"): "likewise",
    ("ntrain", "boundary"): "likewise", ("ninf", "boundary"): "likewise",
    ("lmut", "par"): "dropped after the call", ("lmut", "mode"): "likewise", ("lmut", "shape"): "likewise", ("lmut", "grad"): "likewise",
    ("lmut", "name"): "likewise",
    ("lmake", "mode"): "the mode a new layer starts in",
    ("poolt", "result"): "which of several equal maxima",
    ("softmax", "result"): "mantissas of probabilities below 2^-123",
}
# numbers compared within a tolerance: alter by more than that
def bump(mode, op):
    if op in ("softmax", "gauss", "spread", "norm"): return 300000
    return {"exact": 1, "soft16": 40000, "soft10": 9000, "soft6": 5000}[mode]

def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x: yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x): yield from leaves(v, path + (k,))
    else:
        yield path, x

def kind(op, path):
    if path == ("ret",): return "reply"
    if op == "lbwd" and path[0] == "y": return None                    # an argument of this call
    if path[0] in ("post", "out", "y", "gx", "ya", "yb"): return "shape" if len(path) > 1 and "s" in path else "result"
    if path[0] == "obs":
        if "g" in path: return "grad"
        if "ig" in path: return "boundary gradient" if op == "nback" else None     # of the last backward pass
        if "mode" in path or "rs" in path: return "mode"
        if "name" in path or "rname" in path: return "name"
        if "p" in path and "d" in path: return "par"
        if "st" in path and path[-1] != "st" and path[1] == "st": return "boundary"
        if path[1] == "output": return "boundary"
        if path[-2:-1] in (("in",), ("out",)) or "in" in path or "out" in path: return "shape"
    return None

def alter(mode, ev, path, v):
    op = ev["op"]
    x = ev
    for p in path[:-1]: x = x[p]
    k = path[-1]
    if path == ("ret",): x[k] = "err" if v == "ok" else "ok"
    elif v in ("inf", "trn"): x[k] = "trn" if v == "inf" else "inf"
    elif isinstance(v, bool) or not isinstance(v, (int, str)): return False
    elif isinstance(v, int):
        if op in ("uniform",): x[k] = v + 1 if path[-2] == "s" else 2000000000
        else: x[k] = v + (1 if "s" in path or kind(op, path) in ("shape",) else bump(mode, op))
    else: x[k] = v + "?"
    return True

def one(f, seed, count, work, binary):
    module, mode = check.FAM[f][:2]
    path = os.path.join(work, f + ".nd")
    d = os.path.join(work, "d-" + f)
    os.makedirs(d)
    check.harness(binary, f, seed, count, path, d, 200)
    r = random.Random("%d %s" % (seed, f))
    out, what = [], {}
    for l in open(path):
        t = json.loads(l)
        if t.get("opq"):
            continue
        base = t["id"]
        for n in range(6):
            c = copy.deepcopy(t)
            i = r.randrange(len(c["ev"]))
            ev = c["ev"][i]
            by = collections.defaultdict(list)
            for p, v in leaves(ev):
                k = kind(ev["op"], p)
                if p[:2] == ("obs", "output") and not ev["obs"]["ook"]: continue    # there is no output
                if k and not (ev["ret"] == "panic"): by[k].append((p, v))
            if not by: continue
            k = r.choice(sorted(by))
            p, v = r.choice(by[k])
            if not alter(mode, ev, p, v): continue
            c["id"] = "%s/%d" % (base, n)
            what[c["id"]] = (ev["op"], k, i, p, v)
            out.append(json.dumps(c))
    if not out:
        return f, {}, {}, []
    with open(path, "w") as g:
        g.write("\n".join(out) + "\n")
    inv = "CallsConform" + (" ModelInv" if module == "TraceNet" else "")
    bad, lines = {}, out
    for attempt in range(400):
        rc, text = check.tlc(module, check.cfg_text(module, mode, {"FOCUS": '"NONE"'}, inv), work, "st-" + f, 2, 600, trace=path, more=("-continue",))
        for m in check.FAIL.finditer(text): bad[m.group(1)] = int(m.group(2))
        if "Model checking completed" in text or "Invariant ModelInv is violated" in text: break
        import re
        m = re.findall(r'/\\ trace = "([^"]*)"', text)
        if not m: raise SystemExit("TLC failed: " + text[-2000:])
        bad[m[-1]] = 0                                      # not comparable: rejected too
        lines = [l for l in lines if json.loads(l)["id"] not in bad]
        open(path, "w").write("\n".join(lines) + "\n")
    tot, rej, missed = collections.Counter(), collections.Counter(), []
    for tid, (op, k, i, p, v) in what.items():
        tot[(op, k)] += 1
        if tid in bad: rej[(op, k)] += 1
        elif (op, k) not in OPEN and (op, "*") not in OPEN: missed.append((tid, op, k, i, p, v))
    return f, tot, rej, missed

def main():
    count = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    os.makedirs(check.BUILD, exist_ok=True)
    binary = check.build()[0]
    work = tempfile.mkdtemp(prefix="selftest-", dir=check.BUILD)
    fams = sys.argv[2:] or [f for f in check.FAM if f not in ("netmemo", "lopaque", "netcut")]
    tot, rej, missed = collections.Counter(), collections.Counter(), []
    try:
        with concurrent.futures.ThreadPoolExecutor(4) as pool:
            for f, a, b, m in pool.map(lambda f: one(f, 1, count, work, binary), fams):
                tot.update(a); rej.update(b); missed += m
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for k in sorted(tot):
        o = OPEN.get(k, OPEN.get((k[0], "*")))
        print("%-11s %-18s %4d of %4d rejected%s" % (k[0], k[1], rej[k], tot[k], "" if o is None else "   (open: %s)" % o))
    print("%d alterations, %d rejected, %d accepted that must not be" % (sum(tot.values()), sum(rej.values()), len(missed)))
    for m in missed[:40]: print("  accepted:", m)
    return 1 if missed else 0

if __name__ == "__main__":
    sys.exit(main())
