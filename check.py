#!/usr/bin/env python3
"""Runs the bounded exhaustive checks of one property against /repo.

  check.py --prop F01 [--tier quick|thorough]   run the check (exit 0 / 1; 2 = no answer)
  check.py --replay FILE                        replay a recorded violation
  check.py --setup                              toolchain and engine self test
  check.py --list                               properties and their scenarios
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(VERIF, "src")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")

sys.path.insert(0, VERIF)
from registry import PROPS  # noqa: E402

CXX = next((c for c in ("g++-14", "g++-13", "g++") if shutil.which(c)), "g++")
COMMON = ["-std=c++20", "-g1", "-D_GLIBCXX_ASSERTIONS", "-w"]
VARIANTS = {
    # name: (flags of the harness, flags of the engine)
    "fast": (["-O2"], ["-O2"]),
    "san": (["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],) * 2,
}
WORKERS = max(2, min(16, os.cpu_count() or 8))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), SRC):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def gen_version(out):
    """version.hpp is generated by configure in a normal build"""
    d = os.path.join(out, "include", "mdds")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(REPO, "include", "mdds", "version.hpp.in")
    with open(src) as f:
        s = re.sub(r"@[A-Z_]+@", "0", f.read())
    with open(os.path.join(d, "version.hpp"), "w") as f:
        f.write(s)


class BuildError(Exception):
    pass


WITH_LINK = ["-rdynamic", "-Wl," + ",".join("--wrap=" + f for f in (
    "__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock "
    "memcpy memmove memset memcmp memchr strlen").split())]


def build(targets):
    """targets: set of (harness, variant).  Returns {target: binary}."""
    out = os.path.join(BUILD, tree_hash())
    os.makedirs(out, exist_ok=True)
    for old in os.listdir(BUILD):
        p = os.path.join(BUILD, old)
        if p != out and os.path.isdir(p) and time.time() - os.path.getmtime(p) > 1800:
            shutil.rmtree(p, ignore_errors=True)
    gen_version(out)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(out, "include"), "-I" + SRC]
    jobs, res = [], {}
    objs = {}
    for v in sorted({v for _, v in targets}):
        o = os.path.join(out, "mc_%s.o" % v)
        objs[v] = o
        if not os.path.exists(o):
            jobs.append(([CXX] + COMMON + VARIANTS[v][1] + inc + ["-c", os.path.join(SRC, "mc.cpp")], o))
    links = []
    for h, v in sorted(targets):
        b = os.path.join(out, "%s_%s" % (h, v))
        res[(h, v)] = b
        if os.path.exists(b):
            continue
        src = os.path.join(SRC, "h_%s.cpp" % h)
        extra = []
        with_objs = []
        with open(src) as f:
            text = f.read()
            m = re.search(r"^// FLAGS(?:\[(\w+)\])?: (.*)$", text, re.M)
            if m:
                extra = m.group(2).split()
            m = re.search(r"^// WITH: (\S+)$", text, re.M)
            if m:
                # another source, compiled without the flags above
                w = b + ".with.o"
                jobs.append(([CXX] + COMMON + VARIANTS[v][0] + inc + ["-c", os.path.join(SRC, m.group(1))], w))
                with_objs = [w] + WITH_LINK
        o = b + ".o"
        jobs.append(([CXX] + COMMON + VARIANTS[v][0] + extra + inc + ["-c", src], o))
        links.append((v, o, b, VARIANTS[v][0], with_objs))
    errors = []
    sem = threading.Semaphore(os.cpu_count() or 8)

    def one(cmd, o):
        with sem:
            tmp = o + ".tmp%d.o" % os.getpid()
            r = sh(cmd + ["-o", tmp])
            if r.returncode != 0:
                errors.append("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
            else:
                os.replace(tmp, o)

    ts = [threading.Thread(target=one, args=j) for j in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise BuildError(errors[0])
    for v, o, b, fl, more in links:
        r = sh([CXX] + fl + [o] + more + [objs[v], "-o", b + ".tmp", "-pthread"])
        if r.returncode != 0:
            raise BuildError(r.stdout[-4000:])
        os.replace(b + ".tmp", b)
        for x in [o] + more[:1]:
            os.remove(x)
    return res


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=0:abort_on_error=1:detect_stack_use_after_return=0:quarantine_size_mb=16"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:abort_on_error=1:halt_on_error=1"
    return e


def known_findings():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("known", [])


def run_scenario(binary, scen, tier, san, cap, known, extra=()):
    out = os.path.join(BUILD, "out-%d-%s%s.json" % (os.getpid(), scen, "-san" if san else ""))
    cmd = [binary, "--scenario", scen, "--tier", tier, "--out", out, "--workers", str(WORKERS), "--cap", "%.0f" % cap]
    if san:
        cmd.append("--san")
    for k in known:
        cmd += ["--known", "%s=%s" % (k["id"], k["match"])]
    cmd += list(extra)
    r = sh(cmd, env=env())
    if not os.path.exists(out):
        raise BuildError("scenario %s produced no result (exit %d): %s" % (scen, r.returncode, r.stdout[-2000:]))
    with open(out) as f:
        d = json.load(f)
    os.remove(out)
    if r.returncode == 3 or d.get("engine_error"):
        raise BuildError("engine error in scenario %s: %s" % (scen, r.stdout[-2000:]))
    return d


def confirm(d, bins, h, scen, tier, san, cap, known):
    """A violation that does not replay in a fresh process is re-examined with
    the sanitized build and by repeating the enumeration."""
    v = d["violation"]
    if v["confirmed"]:
        return d
    for vr in ("san", "fast"):
        b = bins.get((h, vr))
        if not b:
            continue
        cmd = [b, "--scenario", scen, "--tier", tier, "--replay", v["choices"]] + (["--san"] if san else [])
        r = sh(cmd, env=env())
        if r.returncode == 1:
            v["confirmed"] = True
            v["trace"] = r.stdout[-6000:]
            return d
    d2 = run_scenario(bins[(h, "san" if san else "fast")], scen, tier, san, cap, known)
    if d2["violation"]:
        d2["violation"]["confirmed"] = True
        d2["violation"]["message"] += " (reproduces whenever the enumeration is re-run, not from its last execution alone)"
        return d2
    raise BuildError("scenario %s reported something it could not reproduce: %s" % (scen, v["message"]))


def write_evidence(prop, tier, spec, runs, wall, nviol, findings):
    os.makedirs(EVID, exist_ok=True)
    samples, per = [], []
    for h, san, d in runs:
        per.append({k: d[k] for k in ("scenario", "what", "sanitized", "params", "executions", "transitions", "states",
                                      "pruned_revisits", "max_choices", "capped", "wall_s", "counts")})
        if not san:
            samples += [{"scenario": d["scenario"], "trace": s["trace"], "choices": s["choices"]} for s in d["samples"]][:2]
    states = sum(d["states"] for _, san, d in runs if not san)
    trans = sum(d["transitions"] for _, _, d in runs)
    execs = sum(d["executions"] for _, _, d in runs)
    exhaustive = not any(d["capped"] for _, _, d in runs)
    if not samples:
        samples = [{"note": "no sample: the run ended with a violation"}]
    cov = {"samples": samples[:8], "scenarios": per, "exhaustive": exhaustive}
    if spec["level"] == "model_checking":
        cov.update(states=states, transitions=trans, traces_validated_against_impl=execs)
        cov["explanation"] = ("Every execution runs the real headers of the working tree; states are the distinct model "
                              "states reached, transitions the operations whose outcome was compared with the reference "
                              "model, traces_validated_against_impl the complete choice sequences executed.")
    else:
        cov.update(evaluations=execs, distinct_nontrivial=states, rule=spec.get("rule", ""))
        cov["transitions_compared"] = trans
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec["level"],
          "coverage": cov, "wall_s": round(wall, 3), "violations": nviol,
          "assumptions": spec.get("assumptions", []) + ["bounds as in coverage.scenarios[].params; values outside the listed domains are not explored"]}
    if findings:
        ev["known_findings"] = findings
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def cpu_ok(h):
    """False for a harness that needs a CPU feature this machine lacks"""
    with open(os.path.join(SRC, "h_%s.cpp" % h)) as f:
        m = re.search(r"^// CPU: (\w+)$", f.read(), re.M)
    if not m:
        return True
    with open("/proc/cpuinfo") as f:
        return re.search(r"\b%s\b" % m.group(1), f.read()) is not None


def run_prop(prop, tier):
    spec = PROPS[prop]
    t0 = time.time()
    budget = 780.0 if tier == "quick" else 6 * 3600.0
    runs_spec = [r for r in spec["runs"] if cpu_ok(r[0])]
    for r in spec["runs"]:
        if r not in runs_spec:
            print("[%s] %s skipped: the CPU cannot run it" % (prop, r[1]), flush=True)
    targets = set()
    for h, scen, variants in runs_spec:
        for v in variants:
            targets.add((h, v))
    bins = build(targets)
    known = [k for k in known_findings() if k["property"] == prop]
    print("[%s] built %d binaries in %.1f s" % (prop, len(targets), time.time() - t0), flush=True)
    runs, findings, viol = [], {}, None
    todo = [(h, s, v) for h, s, vs in runs_spec for v in vs]
    for i, (h, scen, v) in enumerate(todo):
        san = v == "san"
        left = budget - (time.time() - t0)
        cap = max(10.0, left / (len(todo) - i) * (1.5 if i + 1 < len(todo) else 1.0))
        d = run_scenario(bins[(h, v)], scen, tier, san, cap, known)
        if d["violation"]:
            d = confirm(d, bins, h, scen, tier, san, cap, known)
        runs.append((h, san, d))
        for kid, kv in d.get("known", {}).items():
            if kv["hits"]:
                findings[kid] = findings.get(kid, 0) + kv["hits"]
        print("[%s] %-28s %-5s %10d executions %11d transitions %9d states %6.1f s%s" % (
            prop, scen, v, d["executions"], d["transitions"], d["states"], d["wall_s"],
            "  CAPPED (not exhaustive)" if d["capped"] else ""), flush=True)
        if d["violation"]:
            viol = (h, scen, v, d)
            break
    for k in known:
        if k["id"] in findings:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    write_evidence(prop, tier, spec, runs, time.time() - t0, 1 if viol else 0,
                   [{"id": k, "hits": n} for k, n in findings.items()])
    if not viol:
        return 0
    h, scen, v, d = viol
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%s.json" % (prop, scen))
    with open(path, "w") as f:
        json.dump({"property": prop, "harness": h, "scenario": scen, "variant": v, "tier": tier,
                   "choices": d["violation"]["choices"], "message": d["violation"]["message"],
                   "trace": d["violation"]["trace"],
                   "how": "python3 /verif/check.py --replay %s" % path}, f, indent=1)
    print(d["violation"]["trace"])
    print("violated: " + d["violation"]["message"])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def replay(path):
    with open(path) as f:
        r = json.load(f)
    bins = build({(r["harness"], r["variant"])})
    b = bins[(r["harness"], r["variant"])]
    cmd = [b, "--scenario", r["scenario"], "--tier", r["tier"], "--replay", r["choices"]]
    if r["variant"] == "san":
        cmd.append("--san")
    p = subprocess.run(cmd, env=env())
    return p.returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    try:
        if a.list:
            for p, s in PROPS.items():
                print(p, [(h, sc) for h, sc, _ in s["runs"]])
            return 0
        if a.replay:
            return replay(a.replay)
        if a.setup:
            bins = build({("self", "fast")})
            r = sh([sys.executable, os.path.join(VERIF, "selftest.py"), bins[("self", "fast")]])
            print(r.stdout)
            return r.returncode
        return run_prop(a.prop, a.tier)
    except BuildError as e:
        print("NO ANSWER: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
