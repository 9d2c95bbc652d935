#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--shards N] [--keep]

Builds ticat from /repo's working tree and the checks from /verif/harness into
a scratch directory, runs the property's generated cases in parallel shards
(each a pure function of code and VERIF_SEED), merges what they covered into
evidence/<property>.json and exits
  0  held on everything explored
  1  violated: prints  VIOLATION property=<id> replay=<path>
  2  the check itself could not run (build failure, environment)
"""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")


def goenv():
    env = dict(os.environ)
    env.update(GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GO111MODULE="on", GOWORK="off",
               GOFLAGS="-mod=mod -buildvcs=false", CGO_ENABLED="0")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env.setdefault("HOME", "/root")
    return env


def die(msg, out=""):
    sys.stdout.write(out)
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


RACE = ("C19",)


def build(scratch, prop=None):
    env = goenv()
    p = subprocess.run(["go", "build", "-o", scratch + "/ticat", "./pkg/main"], cwd=REPO, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("building ticat failed", p.stdout)
    if prop in RACE:
        # The race detector is an extra oracle; without cgo the part using it is left out.
        subprocess.run(["go", "build", "-race", "-o", scratch + "/ticat-race", "./pkg/main"], cwd=REPO,
                       env=dict(env, CGO_ENABLED="1"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    # The harness is copied out so that building never touches committed files.
    shutil.copytree(HERE + "/harness", scratch + "/harness")
    p = subprocess.run(["go", "test", "-c", "-o", scratch + "/props.test", "./props"],
                       cwd=scratch + "/harness", env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("building the harness failed", p.stdout)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--part", default="")
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vh.")
    os.chmod(scratch, 0o711)  # some cases run ticat as an unprivileged user
    procs = []
    try:
        build(scratch, a.prop)
        if a.setup:
            print("setup: ticat and the checks build")
            return 0
        return run(a, tier, scratch, t0, procs)
    finally:
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)


def run(a, tier, scratch, t0, procs):
    out = scratch + "/out"
    os.makedirs(out)
    part = a.part
    failfile = None
    shards = a.shards
    if a.replay:
        doc = json.load(open(a.replay))
        part = doc.get("part", "")
        shards = 1
        if doc.get("rapid_failfile"):
            failfile = scratch + "/replay.fail"
            open(failfile, "w").write(doc["rapid_failfile"])
    pat = "^Test%s$" % a.prop
    if part:
        pat += "/^%s$" % re.escape(part)
    limit = 820 if tier == "quick" else 6 * 3600
    for i in range(shards):
        d = "%s/s%d" % (scratch, i)
        os.makedirs(d)
        env = dict(os.environ)
        env.update(VH_BIN=scratch + "/ticat", VH_BIN_RACE=scratch + "/ticat-race", VH_SCRATCH=d, VH_OUT=out, VERIF_TIER=tier,
                   VH_SHARD=str(i), VH_SHARDS=str(shards), VH_SCALE=str(a.scale),
                   VH_KNOWN=HERE + "/known_findings.json")
        seed = (abs(a.seed) * 1000003 + 17 + i * 97000000007) & 0x7fffffffffffffff
        cmd = [scratch + "/props.test", "-test.run", pat, "-test.timeout", "0", "-test.v",
               "-rapid.seed", str(seed), "-rapid.shrinktime", "25s"]
        if failfile:
            cmd += ["-rapid.failfile", failfile, "-rapid.nofailfile"]
        log = open("%s/log.%d" % (out, i), "wb")
        procs.append(subprocess.Popen(cmd, cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT,
                                      stdin=subprocess.DEVNULL, start_new_session=True))
    # Once one shard has found and shrunk a violation the others may stop.
    codes = [None] * shards
    deadline = t0 + limit
    timed_out = False
    while any(c is None for c in codes):
        for i, p in enumerate(procs):
            if codes[i] is None and p.poll() is not None:
                codes[i] = p.returncode
        if any(c == 1 for c in codes):
            time.sleep(1)
            break
        if time.time() > deadline:
            timed_out = True
            break
        time.sleep(0.05)
    for i, p in enumerate(procs):
        if codes[i] is None and p.poll() is not None:
            codes[i] = p.returncode
    stats = []
    for f in sorted(glob.glob(out + "/stats.*.json")):
        stats.append(json.load(open(f)))
    logs = {i: open("%s/log.%d" % (out, i), errors="replace").read() for i in range(shards)}
    failed = [i for i in range(shards) if codes[i] == 1]
    fails = {i: "%s/fail.%d.json" % (out, i) for i in failed if os.path.exists("%s/fail.%d.json" % (out, i))}
    if "no tests to run" in logs.get(0, ""):
        die("no check for " + a.prop)

    violation = None
    if fails:
        i = sorted(fails)[0]
        doc = json.load(open(fails[i]))
        ff = sorted(glob.glob("%s/s%d/testdata/rapid/**/*.fail" % (scratch, i), recursive=True))
        doc["rapid_failfile"] = open(ff[-1], errors="replace").read() if ff else (open(failfile, errors="replace").read() if failfile else "")
        doc["how_to_replay"] = "cd /verif && python3 check.py %s --replay <this file>" % a.prop
        first = "%s/firstfail.%d.json" % (out, i)
        if os.path.exists(first):
            fd = json.load(open(first))
            if fd != {k: doc.get(k) for k in fd}:
                doc["before_shrinking"] = fd
        rdir = HERE + "/evidence/replays"
        os.makedirs(rdir, exist_ok=True)
        body = json.dumps(doc, indent=1)
        path = "%s/%s-%s.json" % (rdir, a.prop, hashlib.sha1(body.encode()).hexdigest()[:10])
        open(path, "w").write(body)
        violation = path
        print("what: " + doc.get("what", ""))
        for l in (doc.get("case") or [])[:40]:
            print("  " + l)
    if a.replay:
        if violation:
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        print("replay: the case no longer fails")
        return 0 if all(c == 0 for c in codes) else 2

    hashes = set()
    labels, samples, rules, findings = {}, [], [], []
    evals = runs = calls = 0
    for s in stats:
        evals += s["evaluations"]
        runs += s["ticat_runs"]
        calls += s["module_calls"]
        hashes.update(s["nontrivial_hashes"] or [])
        for k, v in (s["labels"] or {}).items():
            labels[k] = labels.get(k, 0) + v
        for x in s["samples"] or []:
            if sum(1 for y in samples if y["part"] == x["part"]) < 2:
                samples.append(x)
        for r in s["rules"] or []:
            if r not in rules:
                rules.append(r)
        for f in s["findings"] or []:
            if f not in findings:
                findings.append(f)
    manifest_level = "fault_enumeration" if a.prop in ("C28",) else "exploration"
    ev = dict(property=a.prop, tier=tier, seed=a.seed, level=manifest_level,
              coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule="; ".join(rules),
                            samples=samples, ticat_processes=runs, module_invocations=calls, classes=labels),
              assumptions=["module scripts run under bash; the machine's OS, shell and file system are trusted",
                           "generators are bounded: see DESIGN.md for the sizes"],
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (HERE, a.prop), "w"), indent=1)
    for f in findings:
        print("KNOWN-FINDING: " + f)
    if violation:
        print("VIOLATION property=%s replay=%s" % (a.prop, violation))
        return 1
    bad = [i for i in range(shards) if codes[i] != 0]
    if bad:
        i = bad[0]
        die("shard %d ended with %r%s" % (i, codes[i], " (time limit)" if timed_out else ""), logs[i][-6000:] + "\n")
    print("%s: held on %d cases (%d distinct non-trivial), %d ticat processes, %d module invocations, %.1fs"
          % (a.prop, evals, len(hashes), runs, calls, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
