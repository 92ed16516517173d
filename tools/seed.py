#!/opt/venv/bin/python
"""Plant a bug: seed.py SPEC.py   (SPEC defines id, prop, edits=[(file, old, new)], demo (python text), needs, breaks)
       or test one already planted: seed.py --test ID [ID...]
Works on /repo and always undoes the change."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def stable_ok():
    if sh("bash /opt/vp/build.sh").returncode:
        return "build failed"
    sh("bash /opt/vp/test.sh /tmp/seed_out.json")
    b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/seed_out.json"))
    def passed(d):
        for k in ("passed", "pass", "stable", "tests"):
            if k in d:
                return set(d[k] if isinstance(d[k], list) else [t for t, v in d[k].items() if v in ("pass", "passed", True)])
    miss = passed(b) - passed(o)
    return "tests fail: %s" % sorted(miss) if miss else None


def clean():
    return not sh("git -C %s status --porcelain" % R).stdout.strip()


def demo(d):
    r = sh("timeout 300 bash %s/demo.sh" % d, cwd=R)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def test(id, tests=True):
    d = "%s/seeded/%s" % (V, id)
    meta = json.load(open(d + "/meta.json"))
    assert clean(), "repo not clean"
    msg = []
    rc0, o0 = demo(d)
    if rc0:
        msg.append("demo fails on clean tree: " + o0)
    a = sh("git -C %s apply %s/patch.diff" % (R, d))
    if a.returncode:
        return id, "patch does not apply " + a.stderr
    try:
        rc1, o1 = demo(d)
        if not rc1:
            msg.append("demo passes with bug")
        if tests:
            s = stable_ok()
            if s:
                msg.append(s)
        r = sh("bash check.sh %s quick" % meta["property"], cwd=V)
        caught = r.returncode == 1 and "VIOLATION property=" + meta["property"] in r.stdout
        det = [l for l in r.stdout.splitlines() if "violated:" in l or "INCONCL" in l][:3]
    finally:
        sh("git -C %s checkout -- ." % R)
    return id, ("OK " if not msg else "INVALID %s " % msg) + ("caught " if caught else "MISSED rc=%d " % r.returncode) + " | ".join(x[:160] for x in det)


if sys.argv[1] == "--test":
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        print(*test(i, tests=False), flush=True)
else:
    for spec in sys.argv[1:]:
        g = {}
        exec(open(spec).read(), g)
        d = "%s/seeded/%s" % (V, g["id"])
        os.makedirs(d, exist_ok=True)
        assert clean()
        try:
            for f, old, new in g["edits"]:
                p = os.path.join(R, f)
                t = open(p).read()
                assert t.count(old) == 1, (f, old, t.count(old))
                open(p, "w").write(t.replace(old, new))
            open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
        finally:
            sh("git -C %s checkout -- ." % R)
        open(d + "/demo.py", "w").write(g["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\n'
                                        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=g["prop"], needs=g["needs"], what_it_breaks=g["breaks"]), open(d + "/meta.json", "w"), indent=1)
        print(*test(g["id"]), flush=True)
