#!/usr/bin/env python3
"""lab.py ID[:CHECK,...] ...: tries planted bugs in copies of /repo that a private mount namespace shows as /repo,
two at a time: stable tests lost, demo on the clean and the changed tree, and the checks' verdicts."""
import json, os, queue, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
W = queue.Queue()
for i in range(2):
    W.put(i)
lock = threading.Lock()
NOTEST = os.environ.get("NOTEST")


def ns(d, cmd):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (d, cmd)]).returncode


def one(a):
    id, _, chk = a.partition(":")
    s = V + "/seeded/" + id
    chk = chk or json.load(open(s + "/meta.json"))["property"]
    w = W.get()
    d = "/tmp/mw%d" % w
    try:
        if not os.path.exists(d):
            subprocess.run(["cp", "-a", "/repo", d])
        subprocess.run("git -C %s fetch -q /repo HEAD; git -C %s reset -q --hard FETCH_HEAD" % (d, d), shell=True)
        out = []
        if not NOTEST:
            out.append("demo clean %d" % ns(d, "bash %s/demo.sh >/dev/null 2>&1" % s))
        if subprocess.run(["git", "-C", d, "apply", s + "/patch.diff"]).returncode:
            out.append("PATCH DOES NOT APPLY")
        if not NOTEST:
            ns(d, "bash /opt/vp/test.sh /repo/.out.json >/repo/.log 2>&1")
            j = json.load(open(d + "/.out.json"))
            out.append("tests lost %d" % len(base - set(j["passed"])))
            out.append("demo bug %d" % ns(d, "bash %s/demo.sh >/dev/null 2>&1" % s))
        env = dict(os.environ, MPACK_REPO=d, VP_EVIDENCE=d + "/.ev")
        for c in chk.split(","):
            r = subprocess.run(["timeout", "900", "python3", V + "/check.py", c], env=env, capture_output=True, text=True)
            out.append("%s rc%d %s" % (c, r.returncode, r.stdout.split("\n")[0][:170] if r.returncode else ""))
        with lock:
            print("%-26s %s" % (id, " | ".join(out)), flush=True)
    finally:
        W.put(w)


T = [threading.Thread(target=one, args=(a,)) for a in sys.argv[1:]]
[t.start() for t in T]
[t.join() for t in T]
