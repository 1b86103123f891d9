#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo: seedtest.py [--check] [ID...]
For each: demo passes on the unchanged tree; the patch applies and builds, the
stable tests still pass, the demo fails; with --check the property's check is
run against the changed copy (exit 1 = caught)."""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seedrepo"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", **kw)


def build():
    return sh("ninja -C %s/_build -k 0 all test_all" % WT)


def setup():
    if os.path.exists(WT):
        shutil.rmtree(WT)
    sh("git clone -q /repo %s" % WT)
    env = open("/opt/vp/env.sh").read().replace("/repo", WT)
    open("/tmp/seedenv.sh", "w").write(env)
    r = sh(". /tmp/seedenv.sh; configure")
    assert r.returncode == 0, r.stderr
    r = build()
    assert r.returncode == 0, r.stdout[-2000:]


def tests():
    rep = WT + "/_build/rep"
    shutil.rmtree(rep, ignore_errors=True)
    os.makedirs(rep)
    sh("python3 /opt/vp/run_gtest.py %s/_build/test_all %s" % (WT, rep))
    sh("python3 /opt/vp/results.py %s/o.json 'junit:%s/*.xml' 'lines:%s/crashed.txt'" % (rep, rep, rep))
    d = json.load(open(rep + "/o.json"))
    return STABLE - set(d["passed"])


def demo(i):
    src = os.path.join(ROOT, "seeded", i)
    d = "/tmp/seeddemo"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(src, d, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    try:
        r = sh("bash %s/demo.sh" % d, cwd=WT, timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-400:]
    except subprocess.TimeoutExpired:
        return "timeout", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    check = "--check" in a
    only = "--only-check" in a
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(ROOT + "/seeded"))
    setup()
    base = {} if only else {i: demo(i) for i in ids}
    for i in ids:
        p = os.path.join(ROOT, "seeded", i, "patch.diff")
        meta = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
        r = sh("git -C %s apply %s" % (WT, p))
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stderr[:300], flush=True)
            continue
        msg = []
        if not only:
            r = build()
            if r.returncode:
                msg.append("DOES NOT BUILD " + r.stdout[-600:])
            else:
                t = tests()
                if t:
                    msg.append("TESTS FAIL %s" % sorted(t)[:4])
                d = demo(i)
                if base[i][0] != 0:
                    msg.append("DEMO FAILS UNPATCHED %s" % (base[i],))
                if d[0] == 0:
                    msg.append("DEMO PASSES PATCHED")
                if not msg:
                    msg.append("counts (demo exit %s: %s)" % (d[0], d[1].strip().splitlines()[-1:] ))
        if check or only:
            c = sh("%s/check %s" % (ROOT, meta["property"]), env=dict(os.environ, VERIF_REPO=WT))
            msg.append("CHECK %s rc=%d %s" % (meta["property"], c.returncode, (c.stdout.strip().splitlines() or [c.stderr[-300:]])[0][:200]))
        print(i, " | ".join(msg), flush=True)
        sh("git -C %s checkout -- ." % WT)
    shutil.rmtree(WT)


main()
