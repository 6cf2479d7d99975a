#!/usr/bin/env python3
"""Development tool: confirms a planted bug in a scratch copy (/tmp/plant/repo, made by hand) and runs checks on it.
plant.py ID [CHECK...] : patch applies, builds, stable tests pass, demo fails with it and passes without; then the checks."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/plant/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def reset():
    assert sh("git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD" % (R, R)).returncode == 0


def demo(d):
    return sh("bash %s/demo.sh" % d, cwd=R, timeout=300)


def main():
    bid = sys.argv[1]
    d = os.path.join(os.environ.get("S", HERE + "/seeded"), bid)
    reset()
    prop = json.load(open(d + "/meta.json"))["property"]
    ok = True
    skip = os.environ.get("SKIP")
    if not skip:
        b = sh("bash /tmp/plant/build.sh")
        if b.returncode:
            print("clean build failed", b.stdout[-2000:])
            return 1
        c = demo(d)
        print("demo on the clean tree:", c.returncode, c.stdout[-500:] if c.returncode else "")
        ok &= c.returncode == 0
    a = sh("git -C %s apply %s/patch.diff" % (R, d))
    if a.returncode:
        print("patch does not apply", a.stdout)
        return 1
    if not skip:
        t = sh("bash /tmp/plant/test.sh /tmp/plant/out.json")
        res = json.load(open("/tmp/plant/out.json"))
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        missing = base - set(res["passed"])
        print("tests: %d passed, stable missing: %d %s" % (len(res["passed"]), len(missing), sorted(missing)[:3]), "" if res["passed"] else t.stdout[-3000:])
        ok &= not missing
        c = demo(d)
        print("demo on the patched tree:", c.returncode, c.stdout[-300:])
        ok &= c.returncode != 0
        print("COUNTS" if ok else "DOES NOT COUNT")
    for chk in sys.argv[2:] or [prop]:
        t0 = time.time()
        env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD="/tmp/plant/build", VERIF_WORK="/tmp/plant/work", VERIF_SEED="1", VERIF_TIER="quick")
        c = sh("python3 tools/check.py " + chk, cwd=HERE, env=env)
        hit = "VIOLATION property=%s" % chk in c.stdout
        print("%s: exit %d %s in %.0f s" % (chk, c.returncode, "CAUGHT" if c.returncode == 1 and hit else "MISSED", time.time() - t0))
        print("   ", "\n    ".join(c.stdout.splitlines()[-6:])[:1500])
    reset()


sys.exit(main())
