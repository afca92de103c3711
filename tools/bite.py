#!/usr/bin/env python3
"""bite.py [N]: does trace validation notice?  For each property a trace is recorded, one number or flag in
one recorded result or state is changed, and TLC must no longer accept the trace as it stands (it reports
that very line as a violation, "bad", or as different in another property's matter, "off")."""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
N = int(sys.argv[1]) if len(sys.argv) > 1 else 6
run = os.path.join(check.BUILD, "run", "bite-%d" % os.getpid()); os.makedirs(run)

def leaves(v, at=()):
    if isinstance(v, bool): yield at
    elif isinstance(v, int): yield at
    elif isinstance(v, list):
        for i, x in enumerate(v): yield from leaves(x, at + (i,))
    elif isinstance(v, dict):
        for k in sorted(v): yield from leaves(v[k], at + (k,))
def put(v, at):
    for k in at[:-1]: v = v[k]
    old = v[at[-1]]
    v[at[-1]] = (not old) if isinstance(old, bool) else old + 1
    return old

def tlc(trace, focus, tag):
    out = os.path.join(run, tag + ".tlc")
    rc = check.java("-XX:+UseSerialGC", "2g", {"KX_FOCUS": focus, "KX_TRACE": trace},
        ["-metadir", os.path.join(run, tag + ".meta"), "-workers", "1", "-deadlock", "-config", os.path.join(check.SPEC, "Trace.cfg"), os.path.join(check.SPEC, "Trace.tla")], out, 300)
    text = open(out, errors="replace").read()
    return rc, {k: [int(x) for x in re.findall(r'%s \{[^\n]*?\\"line\\":(\d+)' % k, text)] for k in ("KXBAD", "KXOFF")}, text

def one(job):
    focus, i, base, lines = job
    rnd = random.Random("%s-%d" % (focus, i))
    for _ in range(200):
        n = rnd.randrange(1, len(lines)); x = json.loads(lines[n])
        if x["ev"]["op"] in ("reset", "fs_reset", "roundtrip"): continue
        # what is not looked at: `same` of a call that (rightly) failed or succeeded, `ok` of string functions
        if "v" in x["res"] or x["ev"]["op"] in ("stream", "why"): x["res"].pop("same" if x["res"].get("ok") == (x["ev"]["op"] == "why") else "none", None)
        where = [p for p in leaves({"res": x["res"], "post": x["post"]}) if not (p[0] == "post" and len(p) <= 3)]
        if where: break
    p = rnd.choice(where)
    put(x, p)
    t = os.path.join(run, "%s.%d" % (focus, i))
    with open(t, "w") as f: f.writelines(lines[:n] + [json.dumps(x) + "\n"] + lines[n + 1:])
    rc, found, text = tlc(t, focus, "%s.%d" % (focus, i))
    hit = "bad" if n + 1 in found["KXBAD"] else "off" if n + 1 in found["KXOFF"] else "error" if rc not in (0,) else "ACCEPTED"
    return focus, hit, x["ev"]["op"], p, n + 1, found

def main():
    check.build()
    jobs = []
    for focus in ["C%02d" % k for k in range(2, 22)]:
        base = os.path.join(run, focus)
        check.harness(["drive", "--focus", focus, "--seed", "77", "--events", "250", "--out", base], run, focus)
        lines = open(base).readlines()
        rc, found, text = tlc(base, focus, focus)
        assert rc == 0 and not found["KXBAD"] and not found["KXOFF"], (focus, found, text[-800:])
        jobs += [(focus, i, base, lines) for i in range(N)]
    tally = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for focus, hit, op, p, n, found in ex.map(one, jobs):
            tally.setdefault(focus, {}).setdefault(hit, 0); tally[focus][hit] += 1
            if hit in ("ACCEPTED", "error"): print("  ", focus, hit, op, p, n, found)
    for k in sorted(tally): print(k, tally[k])
try: main()
finally: shutil.rmtree(run, ignore_errors=True)
