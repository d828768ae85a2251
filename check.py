#!/usr/bin/env python3
"""Supervisor of the runtime monitors: check.py <property> <quick|thorough>

Builds the harness against the working tree of /repo, runs the monitors of one property in a
child process, classifies how the child ended, and writes evidence/<property>.json.

exit 0: the property held on everything explored
exit 1: violated, with a line "VIOLATION property=<id> replay=<path>"
other : the check itself could not give an answer
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = "github.com/nathanaelle/syslog5424/v2"
REPO = os.environ.get("VH_REPO") or "/repo"
RACE = {"C05"}
DAYS = {"C01", "C04", "C13", "C14", "C21"}   # also run in virtual time, see harness/fake_test.go
LEVEL = {"C03": "fault_enumeration"}
ASSUME = {
    "": ["the oracles in /verif/harness (independent RFC 5424 reader and encoders) are right",
         "executions not explored by the workloads are not judged"],
    "C05": ["the Go race detector reports a conflicting pair only if both accesses are executed in the run"],
}
MIN_EVALS = 20


def env_base(scratch):
    e = dict(os.environ)
    e.setdefault("HOME", scratch)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOWORK="off")
    e.pop("GODEBUG", None)
    e.pop("GORACE", None)
    return e


def build(scratch, race, fake=False):
    """compile the harness against the current tree of REPO"""
    out = os.path.join(scratch, "h.fake" if fake else "h.test")
    mod = os.path.join(scratch, "go.mod")
    with open(os.path.join(HERE, "harness", "go.mod")) as f:
        m = f.read()
    with open(mod, "w") as f:
        f.write(re.sub(r"=> /repo\b", "=> " + REPO, m))
    sums = os.path.join(HERE, "harness", "go.sum")
    if os.path.exists(sums):
        shutil.copy(sums, os.path.join(scratch, "go.sum"))
    cmd = ["go", "test", "-c", "-modfile", mod, "-o", out, "-vet=off"]
    if race:
        cmd.append("-race")
    env = env_base(scratch)
    if fake:                      # the clock of the process jumps over idle time
        cmd += ["-tags", "faketime"]
        env["CGO_ENABLED"] = "0"
    cmd.append(".")
    p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        if fake:
            print("no virtual-time build: " + p.stdout[-500:])
            return ""
        print("BUILD FAILED\n" + p.stdout[-6000:])
        sys.exit(2)
    return out


class Run:
    pass


def run_child(binary, prop, scratch, seed, tier, only, limit, fake=""):
    """one child process running the monitors of the property"""
    d = tempfile.mkdtemp(prefix="run", dir=scratch)
    e = env_base(scratch)
    e.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VH_OUT=d + "/out.json", VH_CUR=d + "/cur",
             VH_HANG=d + "/hang", VH_TMP=d, VH_REPO=REPO, TMPDIR=d,
             GORACE="log_path=%s/race halt_on_error=0 exitcode=0 history_size=3" % d)
    e["GOTRACEBACK"] = "all"
    if only:
        e["VH_ONLY"] = only
    else:
        e.pop("VH_ONLY", None)
    e["VH_FAKE"] = fake
    r = Run()
    t0 = time.time()
    with open(d + "/log", "w") as lg:
        p = subprocess.Popen([binary, "-test.run", "^Test%s$" % prop, "-test.timeout", "0", "-test.v"],
                             cwd=d, env=e, stdout=lg, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             start_new_session=True)
        r.timeout = False
        try:
            r.rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            r.timeout = True
            try:
                os.killpg(p.pid, signal.SIGQUIT)
                p.wait(timeout=10)
            except Exception:
                pass
            r.rc = -1
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except Exception:
            pass
        p.wait()
    r.wall = time.time() - t0
    with open(d + "/log", errors="replace") as f:
        r.log = f.read()
    r.report = None
    try:
        with open(d + "/out.json") as f:
            r.report = json.load(f)
    except Exception:
        pass
    if r.report and not r.report.get("complete") and not r.report.get("nviol"):
        r.report = None
    r.cur = open(d + "/cur").read() if os.path.exists(d + "/cur") else ""
    r.hang = open(d + "/hang", errors="replace").read() if os.path.exists(d + "/hang") else ""
    r.races = ""
    for n in sorted(os.listdir(d)):
        if n.startswith("race"):
            r.races += open(os.path.join(d, n), errors="replace").read()
    shutil.rmtree(d, ignore_errors=True)
    return r


def crash_block(log):
    """the block of the goroutine that crashed, or None"""
    m = re.search(r"^(panic: |fatal error: |SIGSEGV|unexpected fault|runtime: goroutine stack exceeds)", log, re.M)
    if not m:
        return None
    rest = log[m.start():]
    g = re.search(r"^goroutine \d+ .*?(?=^\s*$)", rest, re.M | re.S)
    return rest[:g.end()] if g else rest[:6000]


def race_reports(text):
    """(library reports, other reports)"""
    lib, other = [], []
    for blk in text.split("=================="):
        if "WARNING: DATA RACE" not in blk:
            continue
        # only the two access stacks count, not where the goroutines were made
        acc = re.split(r"^Goroutine \d+ .*created at:", blk, flags=re.M)[0]
        (lib if LIB in acc else other).append(blk.strip())
    return lib, other


def findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) case=(\S+) match=(.+)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    if len(sys.argv) < 2:
        sys.exit("usage: check.py <property> [quick|thorough] [case]")
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    # a quick check gets 900 s in all, the confirmation of a stall included
    budget = 840 if tier == "quick" else 8 * 3600
    limit = 420 if tier == "quick" else 3 * 3600
    scratch = tempfile.mkdtemp(prefix="vh-%s-" % prop)
    try:
        code = check(prop, tier, seed, only, scratch, limit, t0 + budget, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def check(prop, tier, seed, only, scratch, limit, deadline, t0):
    race = prop in RACE
    if tier == "build":           # setup: warm the build cache
        build(scratch, False)
        build(scratch, True)
        build(scratch, False, True)
        return 0
    binary = build(scratch, race)
    fake = build(scratch, False, True) if prop in DAYS else ""
    viol, notes = [], []          # (case, message, detail)
    r = run_child(binary, prop, scratch, seed, tier, only, limit, fake)
    for attempt in range(2):
        rep = r.report
        hung = (rep and rep.get("hang")) or (r.timeout and r.cur)
        if not hung or (rep and rep.get("nviol")):
            break
        # no progress: only a stall that happens again, alone, counts
        again = run_child(binary, prop, scratch, seed, tier, hung, max(30, min(200, deadline - time.time())), fake)
        stuck = (again.report and again.report.get("hang")) or again.timeout
        if stuck or (again.report and again.report.get("nviol")):
            if again.report and again.report.get("nviol"):
                r = again
            else:
                why = "memory without bound" if "memory" in (again.hang or r.hang).split("\n")[0] else "no progress"
                viol.append((hung, why + ": the case never finishes (seen twice)", again.hang or r.hang))
            break
        notes.append("case %s stalled once and not when run again alone" % hung)
        r = run_child(binary, prop, scratch, seed, tier, only, max(30, min(limit, deadline - time.time())), fake)
        if attempt == 1 or (r.report and r.report.get("hang") == hung):
            if r.report and r.report.get("hang"):
                viol.append((hung, "no progress: the case stalls repeatedly in full runs", r.hang))
            break
    rep = r.report
    if rep:
        for v in rep.get("violations") or []:
            viol.append((v["case"], v["msg"], v.get("detail", "")))
    harness_error = None
    if r.rc != 0 and not r.timeout:
        blk = crash_block(r.log)
        if blk and LIB in blk:
            viol.append((r.cur, "crash: " + blk.split("\n")[0], blk))
        elif not viol:
            harness_error = "child ended with %s\n%s" % (r.rc, blk or r.log[-4000:])
    elif not rep and not viol:
        harness_error = "no report (rc=%s timeout=%s)\n%s" % (r.rc, r.timeout, r.log[-4000:])
    elif (rep or {}).get("broken") and not viol:
        b = rep["broken"][0]
        harness_error = "%s: %s\n%s" % (b["case"], b["msg"], b.get("detail", ""))
    lib_races, other_races = race_reports(r.races)
    if race:
        for b in lib_races:
            viol.append((r.cur, "data race in the library", b))
        # the harness has no race of its own: memory it was given by the library is shared
        for b in other_races:
            viol.append((r.cur, "data race on memory given by the library", b))

    known, fresh = [], []
    for v in viol:
        hit = next((k for k in findings(prop) if k[0] in ("*", v[0]) and re.search(k[1], v[1])), None)
        (known if hit else fresh).append(v)

    cov = {
        "evaluations": rep["evaluations"] if rep else 0,
        "distinct_nontrivial": rep["distinct_nontrivial"] if rep else 0,
        "rule": (rep or {}).get("rule", ""),
        "samples": ((rep or {}).get("samples") or [])[:40],
        "cases": (rep or {}).get("cases", 0),
        "observed": (rep or {}).get("observed") or {},
        "inconclusive": (rep or {}).get("inconclusive") or [],
        "race_detector": race,
        "notes": notes,
    }
    if race:
        cov["observed"]["race_reports_in_library"] = len(lib_races)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"),
          "coverage": cov, "assumptions": ASSUME[""] + ASSUME.get(prop, []),
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    if not only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    for v in {(k[0], k[1]) for k in known}:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, v[0], v[1][:300]))
    if fresh:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        path = os.path.join(HERE, "replay", "%s-%s-seed%d.json" % (prop, tier, seed))
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier,
                       "replay": "VERIF_SEED=%d python3 check.py %s %s '%s'" % (seed, prop, tier, fresh[0][0]),
                       "violations": [{"case": c, "message": m, "detail": d} for c, m, d in fresh]}, f, indent=1)
        for c, m, d in fresh[:6]:
            print("  %s: %s" % (c, m[:700]))
            if d:
                print("    " + "\n    ".join(d.split("\n")[:14]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if harness_error:
        print("ERROR of the check: " + harness_error)
        return 2
    if not only and (cov["evaluations"] < MIN_EVALS or cov["distinct_nontrivial"] < 2):
        print("ERROR of the check: too few observations: %r" % cov)
        return 2
    print("OK property=%s evaluations=%d distinct=%d cases=%d wall=%.1fs" %
          (prop, cov["evaluations"], cov["distinct_nontrivial"], cov["cases"], time.time() - t0))
    return 0


main()
