#!/usr/bin/env python3
"""check.py Cxx          run the check of a property (VERIF_TIER, VERIF_SEED)
check.py --replay FILE   run a replay file of a violation again"""
import concurrent.futures as cf, hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, FOCUS_OPS, LEVEL

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(V, "build")
SPEC = os.path.join(V, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KX = os.path.join(BUILD, "target", "release", "kxcheck")
START = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
SHARDS = 8
DEADLINE = {"quick": 800, "thorough": 6 * 3600}.get(TIER, 800)

class ToolError(Exception): pass

def left(): return max(5, DEADLINE - (time.time() - START))

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def build():
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(V, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left())
    if r.returncode != 0: raise ToolError("building the harness failed:\n" + r.stdout[-3000:])

def java(gc, xmx, env, args, out, timeout):
    cmd = ["java", "-Djava.io.tmpdir=" + os.path.dirname(out), "-Xss64m", "-Xmx" + xmx, gc, "-DTLA-Library=" + SPEC, "-cp", TLA, "tlc2.TLC", "-noGenerateSpecTE"] + args
    with open(out, "w") as f:
        return subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=dict(os.environ, **env), cwd=os.path.dirname(out), timeout=timeout).returncode

def plain_lines(path):
    """TLC's own output, without the vectors"""
    with open(path, errors="replace") as f:
        for l in f:
            if not l.startswith('"{'): yield l.rstrip("\n")

class Model:
    """one bounded model: checked by TLC, its transitions written to a file"""
    def __init__(s, job, run, n):
        s.job, s.n = job, n
        s.dir = os.path.join(run, "m%d" % n); os.makedirs(s.dir)
        s.out = os.path.join(s.dir, "out")
    def tlc(s, focus, workers):
        j = s.job
        cfg = os.path.join(s.dir, "M.cfg")
        with open(cfg, "w") as f:
            f.write("SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % j.get("spec", "Spec"))
            if j.get("const"): f.write("CONSTANTS\n" + "".join("  %s\n" % c for c in j["const"].split()))
            for i in j.get("inv", "").split(): f.write("INVARIANT %s\n" % i)
            for i in j.get("prop", "").split(): f.write("PROPERTY %s\n" % i)
            for k in ("view", "constraint"):
                if j.get(k): f.write("%s %s\n" % (k.upper(), j[k]))
        t0 = time.time()
        try:
            rc = java("-XX:+UseParallelGC", j.get("mem", "3g"), {"KX_FOCUS": j.get("focus", focus)},
                      ["-metadir", os.path.join(s.dir, "meta"), "-workers", str(workers), "-config", cfg, os.path.join(SPEC, j["module"] + ".tla")],
                      s.out, left())
        except subprocess.TimeoutExpired: raise ToolError("TLC did not finish: " + j["module"])
        text = "\n".join(plain_lines(s.out))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        if rc != 0 or "No error has been found" not in text or not m:
            raise ToolError("TLC: model %s %s (exit %s)\n%s" % (j["module"], j.get("const", ""), rc, text[-3000:]))
        s.transitions, s.states, s.wall = int(m.group(1)), int(m.group(2)), time.time() - t0
        shutil.rmtree(os.path.join(s.dir, "meta"), ignore_errors=True)

def harness(args, run, tag, limit=None):
    env = dict(os.environ, KX_SCRATCH=run, KX_DEFECT=os.path.join(run, tag + ".defect"))
    with open(os.path.join(run, tag + ".err"), "wb") as err:
        p = subprocess.run([KX] + args, stdout=err, stderr=err, env=env, preexec_fn=limits, timeout=limit or left())
    if p.returncode in (64, 70, 71, 101):
        d = os.path.join(run, tag + ".defect")
        raise ToolError("harness defect (%s, exit %d): %s" % (tag, p.returncode, open(d).read()[:2000] if os.path.exists(d) else ""))
    # the library's warnings can be many
    os.truncate(os.path.join(run, tag + ".err"), 0)
    return p.returncode

def text_of(v):
    """code points back to text, for people"""
    if isinstance(v, list) and v and all(isinstance(c, int) and not isinstance(c, bool) for c in v):
        try: return "".join(chr(c) for c in v) if any(c > 7 for c in v) else v
        except (ValueError, OverflowError): return v
    if isinstance(v, list): return [text_of(x) for x in v]
    if isinstance(v, dict): return {k: (x if k in ("path", "path2", "ts", "kids", "bytes") else text_of(x)) for k, x in v.items()}
    return v

class Check:
    def __init__(s, prop):
        s.prop, s.plan = prop, PLAN[prop]
        s.run = os.path.join(BUILD, "run", "%s-%d" % (prop, os.getpid()))
        os.makedirs(s.run)
        s.lock = threading.Lock()
        s.violations, s.samples, s.notes, s.known = [], [], [], []
        s.vectors = s.vsteps = s.skipped = s.sessions = s.events = s.unjudged = s.truncated = 0
        s.ops, s.models, s.distinct = {}, [], set()

    def violate(s, kind, body):
        with s.lock:
            if len(s.violations) >= 20: return
            body = dict(body, property=s.prop, kind=kind)
            body["readable"] = text_of({k: body[k] for k in ("events", "ev", "got", "expected") if k in body})
            h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:12]
            d = os.path.join(BUILD, "replay"); os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%s.json" % (s.prop, h))
            with open(p, "w") as f: json.dump(body, f, indent=1)
            s.violations.append(p)
            print("VIOLATION property=%s replay=%s" % (s.prop, p), flush=True)

    def died(s, out, rc, events):
        """the process running the library was ended by a crash or the watchdog"""
        cur = {}
        try: cur = json.loads(open(out + ".cur", errors="replace").read().split("\n")[0])
        except Exception: pass
        op = cur.get("op", "?")
        what = "did not return (%s)" % ("watchdog" if rc == 77 else "exit %d" % rc)
        if s.prop == "C01" or op in FOCUS_OPS[s.prop]:
            s.violate("crash", {"events": events, "ev": cur, "got": what, "expected": "a result"})
        else:
            with s.lock:
                s.truncated += 1; s.notes.append("a session ended early: %s %s" % (op, what))

    # ---- vectors
    def replay(s, m, k):
        out = os.path.join(m.dir, "r%d" % k)
        rc = harness(["replay", "--in", m.out, "--out", out, "--shard", str(k), "--shards", str(SHARDS)], s.run, "m%d-r%d" % (m.n, k))
        done = False
        for l in open(out):
            v = json.loads(l)
            if "done" in v:
                done = True
                with s.lock:
                    s.vectors += v["done"] - v["skipped"]; s.vsteps += v["steps"]; s.skipped += v["skipped"]
            else: s.violate("vector", {"model": m.job["module"], "cmp": v["cmp"], "events": v["hist"], "ev": v["ev"], "expected": v["expected"], "got": v["got"]})
        if not done: s.died(out, rc, [])

    # ---- traces
    def validate(s, trace, tag, focus):
        out = os.path.join(s.run, tag + ".tlc")
        try:
            rc = java("-XX:+UseSerialGC", "3g", {"KX_FOCUS": focus, "KX_TRACE": trace},
                      ["-metadir", os.path.join(s.run, tag + ".meta"), "-workers", "1", "-deadlock", "-config", os.path.join(SPEC, "Trace.cfg"),
                       os.path.join(SPEC, "Trace.tla")], out, left())
        except subprocess.TimeoutExpired: raise ToolError("trace validation did not finish")
        text = open(out, errors="replace").read()
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        off = len(re.findall(r'^"KXOFF', text, re.M))
        bad = [l for l in text.split("\n") if l.startswith('"KXBAD')]
        if bad:
            rec = json.loads(json.loads(bad[0])[6:])
            lines = open(trace).read().split("\n")
            i = rec["line"] - 1
            j = i
            while j > 0 and json.loads(lines[j])["ev"]["op"] != "reset": j -= 1
            evs = [json.loads(x)["ev"] for x in lines[j:i]]
            x = json.loads(lines[i])
            s.violate("trace", {"focus": focus, "events": evs, "ev": x["ev"], "got": {k: x.get(k) for k in ("res", "post", "doc")}, "expected": rec["expected"]})
        elif rc != 0 or "No error has been found" not in text or not m:
            raise ToolError("trace validation failed (exit %s)\n%s" % (rc, "\n".join(l for l in text.split("\n") if not l.startswith('"KX'))[-3000:]))
        shutil.rmtree(os.path.join(s.run, tag + ".meta"), ignore_errors=True)
        n = off_n = sess = 0
        hashes, cur, ops = set(), hashlib.sha1(), {}
        with open(trace) as f:
            for l in f:
                n += 1
                op = re.match(r'\{.*?"op":"(\w+)"', l)
                op = op.group(1) if op else "?"
                ops[op] = ops.get(op, 0) + 1
                if op == "reset":
                    hashes.add(cur.hexdigest()); cur = hashlib.sha1(); sess += 1
                else: cur.update(l.encode())
        hashes.add(cur.hexdigest())
        with s.lock:
            s.events += n; s.sessions += sess; s.unjudged += off; s.distinct |= hashes
            for o, c in ops.items(): s.ops[o] = s.ops.get(o, 0) + c
            if m: s.trace_states = getattr(s, "trace_states", 0) + int(m.group(2))

    def drop_partial(s, trace):
        data = open(trace, "rb").read()
        if data and not data.endswith(b"\n"): data = data[:data.rfind(b"\n") + 1]
        open(trace, "wb").write(data)

    def script(s, m, k):
        out = os.path.join(m.dir, "s%d" % k)
        rc = harness(["script", "--focus", s.prop, "--in", m.out, "--out", out, "--shard", str(k), "--shards", str(SHARDS)], s.run, "m%d-s%d" % (m.n, k))
        if rc != 0: s.drop_partial(out); s.died(out, rc, [])
        if os.path.getsize(out): s.validate(out, "m%d-s%d" % (m.n, k), s.prop)

    def drive(s, k, events):
        for attempt in range(3):
            out = os.path.join(s.run, "d%d-%d" % (k, attempt))
            rc = harness(["drive", "--focus", s.prop, "--seed", str(SEED * 100003 + k * 17 + attempt), "--events", str(events), "--out", out], s.run, "d%d-%d" % (k, attempt))
            if rc != 0: s.drop_partial(out); s.died(out, rc, [])
            if os.path.getsize(out): s.validate(out, "d%d-%d" % (k, attempt), s.prop)
            if rc == 0: break
            if s.violations: break

    def sample(s, path):
        with open(path, errors="replace") as f:
            for l in f:
                if l.startswith('"{'):
                    v = text_of(json.loads(json.loads(l)))
                    if len(json.dumps(v)) < 3000: return v
        return None

    # ---- known findings: specific inputs, run on their own
    def known_findings(s):
        path = os.path.join(V, "known-findings.txt")
        for l in open(path):
            if not l.startswith("known: "): continue
            k = json.loads(l[7:])
            if k["property"] != s.prop: continue
            inp = os.path.join(s.run, "known"); out = inp + ".out"
            evs = expand(k["events"])
            with open(inp, "w") as f:
                for ev in evs: f.write(json.dumps(ev) + "\n")
            rc = harness(["one", "--in", inp, "--out", out, "--stack-kb", str(k.get("stack_kb", 262144))] + (["--compact", "1"] if "stack_kb" in k else []), s.run, "known", 120)
            got = "dies" if rc != 0 else project(json.loads(open(out).read().rstrip("\n").split("\n")[-1]), k["look"])
            want_bad, want_good = expand(k["bad"]), expand(k["good"])
            if os.environ.get("KX_DEBUG"): print(k["id"], got, want_bad, want_good)
            if got == want_bad:
                s.known.append(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (s.prop, k["what"]), flush=True)
            elif got != want_good:
                s.violate("known-input", {"id": k["id"], "events": evs, "got": got, "expected": want_good})

    # ---- all of it
    def main(s):
        p = s.plan
        jobs = p["models"] + (p.get("more", []) if TIER == "thorough" else [])
        if TIER == "thorough": jobs = [dict(j, **j.get("deep", {})) for j in jobs]
        models = [Model(j, s.run, i) for i, j in enumerate(jobs)]
        tlc_pool, pool = cf.ThreadPoolExecutor(2 if TIER == "thorough" else 3), cf.ThreadPoolExecutor(SHARDS)
        built = pool.submit(build)
        checked = {tlc_pool.submit(m.tlc, s.prop, 8 if len(models) == 1 else 4): m for m in models}
        built.result()
        s.known_findings()
        tasks = []
        n = p["drive"] * (p.get("deeper", 15) if TIER == "thorough" else 1)
        if TIER == "thorough":
            tasks += [pool.submit(s.drive, k, min(n, 2500)) for k in range(SHARDS * max(1, n // 2500))]
        else: tasks += [pool.submit(s.drive, k, n) for k in range(SHARDS)]
        for f in cf.as_completed(checked):
            f.result()
            m = checked[f]
            vec = scr = 0
            with open(m.out, errors="replace") as g:
                for l in g:
                    if l.startswith('"{\\"vec'): vec += 1
                    elif l.startswith('"{\\"script'): scr += 1
            if vec + scr == 0: raise ToolError("model %s emitted nothing" % m.job["module"])
            s.models.append({"module": m.job["module"], "constants": m.job.get("const", ""), "invariants": (m.job.get("inv", "") + " " + m.job.get("prop", "")).strip(),
                             "distinct_states": m.states, "states_generated": m.transitions, "vectors": vec, "sessions": scr, "wall_s": round(m.wall, 1)})
            if len(s.samples) < 4:
                x = s.sample(m.out)
                if x: s.samples.append({"model": m.job["module"], "case": x})
            if vec: tasks += [pool.submit(s.replay, m, k) for k in range(SHARDS)]
            if scr: tasks += [pool.submit(s.script, m, k) for k in range(SHARDS)]
        for t in cf.as_completed(tasks): t.result()
        s.evidence()

    def evidence(s):
        first = None
        d0 = os.path.join(s.run, "d0-0")
        if os.path.exists(d0):
            ls = open(d0).read(200000).split("\n")[1:9]
            first = [text_of({k: json.loads(l)[k] for k in ("ev", "res")}) for l in ls if l.endswith("}")][:5]
        cov = {
            "states": sum(m["distinct_states"] for m in s.models) + getattr(s, "trace_states", 0),
            "transitions": sum(m["states_generated"] for m in s.models) + s.events,
            "traces_validated_against_impl": s.vectors + s.sessions,
            "exhaustive": False,
            "models": s.models,
            "vectors_replayed": s.vectors, "vector_steps": s.vsteps, "vectors_not_reached": s.skipped,
            "sessions_validated": s.sessions, "distinct_sessions": len(s.distinct), "events_validated": s.events,
            "events_not_judged": s.unjudged, "sessions_cut_short": s.truncated, "events_by_operation": dict(sorted(s.ops.items())),
            "known_findings_seen": s.known,
            "samples": s.samples + ([{"recorded session (first events)": first}] if first else []),
        }
        if s.notes: cov["notes"] = s.notes[:10]
        ev = {"property": s.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": LEVEL, "coverage": cov,
              "assumptions": s.plan["assumes"], "wall_s": round(time.time() - START, 1), "violations": len(s.violations)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", s.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)

def expand(v):
    """{"repeat": n, "text": s} and plain strings stand for code points"""
    if isinstance(v, dict):
        if "repeat" in v: return [ord(c) for c in v["text"]] * v["repeat"]
        if "join" in v: return sum((expand(x) for x in v["join"]), [])
        if "str" in v: return [ord(c) for c in v["str"]]
        return {k: expand(x) for k, x in v.items()}
    if isinstance(v, list): return [expand(x) for x in v]
    return v

def project(line, look):
    v = line
    for k in look: v = v[k]
    return v

def replay_file(path):
    b = json.load(open(path))
    build()
    run = os.path.join(BUILD, "run", "replay-%d" % os.getpid()); os.makedirs(run)
    try:
        inp = os.path.join(run, "in")
        with open(inp, "w") as f:
            for ev in b["events"] + [b["ev"]] if "ev" in b else b["events"]: f.write(json.dumps(ev) + "\n")
        rc = harness(["one", "--in", inp, "--out", inp + ".out"], run, "one", 120)
        last = open(inp + ".out").read().rstrip("\n").split("\n")[-1]
        print("exit", rc)
        print("got     ", json.dumps(text_of(json.loads(last))) if last else "nothing")
        print("expected", json.dumps(text_of(b.get("expected"))))
    finally: shutil.rmtree(run, ignore_errors=True)

def main():
    if sys.argv[1] == "--replay": return replay_file(sys.argv[2])
    c = Check(sys.argv[1])
    code = 2
    try:
        try: c.main()
        except (ToolError, subprocess.TimeoutExpired) as e:
            print("ERROR: %s" % e, file=sys.stderr)
            if c.violations:
                c.notes.append("the run was not completed: %s" % str(e)[:300]); c.evidence(); code = 1
        else: code = 1 if c.violations else 0
    finally:
        shutil.rmtree(c.run, ignore_errors=True)
    m = time.time() - START
    print("%s: %s, %d vectors (%d steps), %d sessions (%d events), %.0f s" % (c.prop, {0: "held", 1: "VIOLATED", 2: "no result"}[code], c.vectors, c.vsteps, c.sessions, c.events, m))
    sys.stdout.flush()
    os._exit(code)

if __name__ == "__main__": main()
