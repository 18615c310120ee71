import json, subprocess, sys
b = sys.argv[1]


def run(s, *a):
    r = subprocess.run([b, "--scenario", s, *a], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return r.returncode, json.loads(r.stdout)


bad = 0


def expect(c, what):
    global bad
    print(("ok   " if c else "FAIL ") + what)
    bad += not c


for w in ("1", "8"):
    rc, d = run("count_tree", "--workers", w)
    expect(rc == 0 and d["executions"] == 240 and d["states"] == 240, "240 leaves with %s workers" % w)
    rc, d = run("count_uneven", "--workers", w)
    n = sum(sum(k if k else 1 for k in range(i + 1)) for i in range(9))
    expect(rc == 0 and d["executions"] == n, "%d uneven leaves with %s workers (%d)" % (n, w, d["executions"]))
    rc, d = run("graph", "--workers", w)
    expect(rc == 0 and d["states"] == 50, "50 graph states")
rc, d = run("bad_assert")
expect(rc == 1 and d["violation"]["confirmed"] and d["violation"]["choices"] == "13,17,19", "planted assertion found")
rc, d = run("bad_crash")
expect(rc == 1 and d["violation"]["confirmed"] and "signal" in d["violation"]["message"], "planted crash found")
rc, d = run("bad_leak")
expect(rc == 1 and d["violation"]["confirmed"] and "still alive" in d["violation"]["message"], "planted leak found")
rc, d = run("bad_hang", "--exec-cpu", "1")
expect(rc == 1 and d["violation"]["confirmed"] and "hang" in d["violation"]["message"], "planted hang found")
sys.exit(1 if bad else 0)
