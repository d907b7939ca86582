#!/usr/bin/env python3
"""check.py <PROPERTY> [--thorough]: decide one property for /repo's current source.
exit 0 held, 1 violated (VIOLATION line), 2 the analysis could not be carried out."""
import importlib
import json
import os
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.dont_write_bytecode = True

if os.environ.get("PYTHONHASHSEED") != "0":        # the same run every time
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

PROPS = {}
for line in open(os.path.join(HERE, "sa", "rules", "INDEX")):
    if line.strip() and line[0] != "#":
        a, b = line.split()
        PROPS[a] = b


def known(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                d = line[7:].split(" | ")
                if d[0].strip() == "property=" + pid:
                    out[d[1].strip()] = d[2].strip()
    return out


# how many states are kept apart (at a point, of a callee, of a function) before they are joined
LEVELS = ((24, 48, 128, 300), (64, 160, 512, 420))


def repeat(pid, tier):
    """What is reported is decided again with fewer joins: each analysis covers every path, so
    what the more precise one does not report does not happen.  None: nothing was gained."""
    last = None
    for i, (_, _, _, limit) in enumerate(LEVELS):
        t0 = time.time()
        try:
            p = subprocess.run([sys.executable, os.path.abspath(__file__), pid, "--level", str(i + 1)] +
                               (["--thorough"] if tier == "thorough" else []), capture_output=True, text=True, timeout=limit)
        except subprocess.TimeoutExpired:
            break
        if p.returncode not in (0, 1):
            break
        last = p
        if p.returncode == 0 or time.time() - t0 > 60:
            break
    if last is None:
        return None
    sys.stdout.write(last.stdout)
    return last.returncode


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    level = int(sys.argv[sys.argv.index("--level") + 1]) if "--level" in sys.argv else 0
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = os.path.join(HERE, "evidence", pid + ".json")
    if os.path.exists(ev) and not level:
        os.unlink(ev)
    import engine
    import ir
    if level:
        engine.ESC, engine.CAP = LEVELS[level - 1][:3], 20000
    m = ir.load()
    mod = importlib.import_module("rules." + PROPS[pid])
    fn = getattr(mod, "run_" + pid, None) or mod.run
    res = fn(m, tier)
    kn = known(pid)
    viol, kf = [], []
    for r in sorted(res.reports, key=lambda r: (r.rule, r.fn, r.loc, r.inst)):
        key = "%s:%s:%s" % (r.rule, r.fn, r.inst)
        (kf if key in kn else viol).append((key, r))
    cov = dict(res.coverage)
    cov["rule"] = res.rule
    cov["translation_units"] = len(m.files)
    cov["functions_in_module"] = len(m.funcs)
    cov["explanation"] = res.rule
    cov["instance_floors"] = ["%s: %d (at least %d)" % f for f in res.floors]
    if res.samples:
        cov["samples"] = res.samples[:40]
    json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
               "coverage": cov, "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 2),
               "violations": len(viol)}, open(ev, "w"), indent=1, default=str)
    for key, r in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[key]))
    if not level and (viol or any(f[1] < f[2] for f in res.floors)):
        r = repeat(pid, tier)
        if r is not None:
            return r
    if viol:
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + ".txt")
        with open(rp, "w") as f:
            for key, r in viol:
                f.write("%s\n  at %s in %s\n  %s\n  key %s\n" % (r.rule, r.loc, r.fn, r.msg, key))
                for t in r.trace:
                    f.write("    via %s\n" % (t,))
        for key, r in viol:
            print("%s: %s: [%s] %s" % (r.loc, r.fn, r.rule, r.msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if level and any(v for k, v in cov.items() if k.endswith("paths_capped")):
        return 2
    low = ["%s: %d found, at least %d expected" % f for f in res.floors if f[1] < f[2]]
    if low:
        print("ANALYSIS BROKEN property=%s: %s" % (pid, "; ".join(low)))
        return 2
    print("held: property=%s (%s) %.1fs" % (pid, ", ".join("%s=%s" % (k, v) for k, v in res.coverage.items() if isinstance(v, int)), time.time() - t0))
    return 0


def guarded():
    global rc
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code
    except BaseException:
        traceback.print_exc()
        print("ANALYSIS BROKEN property=%s" % (sys.argv[1:2],))
        rc = 2


rc = 2
sys.setrecursionlimit(60000)
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=guarded)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc)
