#!/usr/bin/env python3
"""run.py <PROPERTY-ID> [--replay FILE] - build the property's harnesses from /repo's working tree, run
them, write evidence/<ID>.json, print KNOWN-FINDING / VIOLATION lines.  Exit 0 held, 1 violated, 2 error."""
import hashlib, json, os, subprocess, sys, time, shutil, glob
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
from checks import CHECKS

BASE = ["-std=c++20", "-I" + REPO + "/include", "-I" + REPO + "/apps", "-I" + V + "/harness", "-I" + V + "/stubs", "-O1", "-g1", "-w", "-ftrivial-auto-var-init=pattern",
        '-DHUIRA_DEFAULT_DATA_DIR="/nonexistent/huira-data"', '-DHUIRA_VERSION="0.0.0"',
        '-DVERIF_REPO="%s"' % REPO]
SAN = {"asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
       "tsan": ["-fsanitize=thread"],
       "none": []}


def tree_hash(extra):
    h = hashlib.sha256()
    files = []
    for root in (REPO + "/include", REPO + "/apps", V + "/harness", V + "/stubs"):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def build(pid, h):
    """h: harness dict(src, san, libs, defs). Returns (path or None, log)."""
    bdir = os.path.join(V, "build", pid)
    os.makedirs(bdir, exist_ok=True)
    name = h.get("name", h["src"].replace(".cpp", ""))
    exe = os.path.join(bdir, name)
    cxx = h.get("cxx", "g++")
    # sources of the program itself; the library's headers define functions that are not inline in every unit that includes them
    own = sorted(f for g in h.get("repo_src", []) for f in glob.glob(os.path.join(REPO, g), recursive=True) if os.path.basename(f) != "main.cpp")
    own = own + ["-Wl,--allow-multiple-definition"] if own else []
    cmd = [cxx] + BASE + SAN[h.get("san", "asan")] + h.get("flags", []) + [
        os.path.join(V, "harness", h["src"])] + own + ["-o", exe] + ["-l" + l for l in h.get("libs", [])] + ["-pthread"]
    stamp = exe + ".stamp"
    key = tree_hash(cmd)
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe, "cached"
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, r.stdout
    with open(stamp, "w") as f:
        f.write(key)
    return exe, r.stdout


def load_known(pid):
    """known_findings.txt: 'known: property=<id> sig=<signature> <what fails>'"""
    res = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                sig, what = rest.split(" ", 1)
                assert sig.startswith("sig=")
                res.append((sig[4:], what))
    return res


def main():
    pid = sys.argv[1]
    chk = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    with ThreadPoolExecutor(8) as ex:
        built = list(ex.map(lambda h: build(pid, h), chk["harness"]))
    for (exe, log), h in zip(built, chk["harness"]):
        if exe is None:
            print("build of %s failed:" % h["src"])
            print(log[-6000:])
            return 2
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=%s:max_allocation_size_mb=2048:detect_stack_use_after_return=0:handle_segv=1:allow_user_segv_handler=0" % chk.get("may_return_null", "0")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_signal_unsafe=0"
    env.pop("HUIRA_DATA_DIR", None)
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        rc = 0
        want = os.path.basename(os.path.dirname(os.path.abspath(f)))
        for (exe, _), h in zip(built, chk["harness"]):
            if os.path.basename(exe) == want or len(built) == 1:
                rc |= subprocess.run([exe, "--replay", f], env=env).returncode
        return rc
    known = load_known(pid)
    # scratch of runs that were killed (older than an hour, so none that is running)
    for d in glob.glob("/tmp/pbt??????"):
        try:
            if time.time() - os.stat(d).st_mtime > 3600:
                shutil.rmtree(d, ignore_errors=True)
        except OSError:
            pass
    rdir = os.path.join(V, "replays", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    tot = dict(evaluations=0, distinct_nontrivial=0, discards=0)
    samples, props, flaky, fails, hits = [], [], [], [], {}
    err = False
    for (exe, _), h in zip(built, chk["harness"]):
        name = os.path.basename(exe)
        hr = os.path.join(rdir, name)
        os.makedirs(hr, exist_ok=True)
        kf = os.path.join(hr, "known.txt")
        with open(kf, "w") as f:
            f.write("".join(s + "\n" for s, _ in known))
        out = os.path.join(hr, "result.json")
        cmd = [exe, "--out", out, "--tier", tier, "--seed", str(seed), "--known", kf, "--replay-dir", hr]
        cmd += chk.get("args", []) + sys.argv[2:]
        r = subprocess.run(cmd, env=env, cwd=hr)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print("harness %s ended with %d" % (name, r.returncode))
            err = True
            continue
        d = json.load(open(out))
        for k in tot:
            tot[k] += d[k]
        samples += d["samples"][: max(4, 24 // len(built))]
        props += d["props"]
        flaky += d["flaky"]
        fails += d["failures"]
        for k, n in d["known_hits"].items():
            hits[k] = hits.get(k, 0) + n
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": chk.get("level", "exploration"),
        "coverage": {"evaluations": tot["evaluations"], "distinct_nontrivial": tot["distinct_nontrivial"],
                     "rule": chk["rule"] + " Counts are of distinct choice sequences whose case was marked non-trivial, summed over the sub-properties listed.",
                     "samples": samples, "discarded": tot["discards"], "sub_properties": props},
        "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fails)}
    if flaky:
        ev["coverage"]["unreproduced"] = flaky
    if known:
        ev["coverage"]["known_findings_seen"] = hits
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for s, what in known:
        print("KNOWN-FINDING: property=%s %s (%s; seen %d times in this run)" % (pid, what, s, hits.get(s, 0)))
    for f in flaky:
        print("note: not reproduced, not reported: " + f[:300])
    for f in fails:
        print("%s: %s\n  case: %s" % (f["sig"], f["msg"][:1500], f["case"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, f["replay"]))
    print("%s %s: %d cases, %d distinct non-trivial, %d discarded, %.1f s" % (
        pid, tier, tot["evaluations"], tot["distinct_nontrivial"], tot["discards"], time.time() - t0))
    if fails:
        return 1
    return 2 if err else 0


sys.exit(main())
