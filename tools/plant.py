#!/opt/venv/bin/python
"""plant.py SPEC.py... : builds and validates seeded/<id> from a specification (scratch copy of /repo in /tmp/sc).

A specification (.bug) has lines "#property", "#needs", "#breaks", edits ("#file", then the old and
the new text between <<<<, ====, >>>>) and "#demo" followed by python source (exit 0 iff the
property holds).
"""
import json
import os
import re
import shutil
import subprocess
import sys

SC = "/tmp/sc"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def refresh():
    if not os.path.isdir(SC):
        sh(f"cp -a /repo {SC}")
    sh(f"git -C {SC} checkout -q -- . && git -C {SC} fetch -q /repo && git -C {SC} reset -q --hard FETCH_HEAD")


def stable_tests():
    env = dict(os.environ, PYTHONPATH=SC, LC_ALL="C.UTF-8", PYTHONHASHSEED="0",
               ELSIE_INKSCAPE="/opt/vp/inkscape-quiet", PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin")
    w = "/tmp/plant-tests"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    shutil.copytree("/opt/vp/inkscape-profile", w + "/profile")
    env["INKSCAPE_PROFILE_DIR"] = w + "/profile"
    sh(f"timeout -k 10 300 {PY} -m pytest -q -n 4 -p no:cacheprovider --timeout=20 "
       f"--continue-on-collection-errors --basetemp={w}/t --tb=short -o junit_family=xunit2 "
       f"--junitxml={w}/junit.xml tests", cwd=SC, env=env)
    sh(f"{PY} /opt/vp/results.py {w}/out.json junit:{w}/junit.xml")
    b = json.load(open("/opt/vp/BASELINE.json"))
    o = json.load(open(w + "/out.json"))
    key = next(k for k in ("passed", "stable", "tests") if k in b) if not isinstance(b, list) else None
    missing = set(b[key] if key else b) - set(o["passed"])
    shutil.rmtree(w, ignore_errors=True)
    return sorted(missing)


def demo(d):
    r = sh(f"bash {d}/demo.sh", cwd=SC, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def read_spec(path):
    src = open(path).read()
    head, demo_src = src.split("\n#demo\n", 1)
    get = lambda k: re.search(rf"^#{k} (.*)$", head, re.M).group(1)
    edits = re.findall(r"^#file ([^\n]*)\n<<<<\n(.*?)^====\n(.*?)^>>>>$", head, re.M | re.S)
    assert edits
    return {"PROPERTY": get("property"), "NEEDS": get("needs"), "BREAKS": get("breaks"), "EDITS": edits,
            "DEMO": demo_src}


def plant(path, checks):
    ident = os.path.splitext(os.path.basename(path))[0]
    spec = read_spec(path)
    refresh()
    d = os.path.join(ROOT, "seeded", ident)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(d + "/demo.sh", "w") as f:
        f.write('#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\n'
                'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 250 /opt/venv/bin/python "$D/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + "/demo.py", "w") as f:
        f.write(open(ROOT + "/tools/demo_prelude.py").read() + spec["DEMO"].lstrip())
    with open(d + "/meta.json", "w") as f:
        json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, f,
                  indent=1)
        f.write("\n")
    rc0, out0 = demo(d)
    base = sh("git rev-list --max-parents=0 HEAD", cwd=SC).stdout.strip()
    problems = []
    for fn, old, new in spec["EDITS"]:
        p = os.path.join(SC, fn)
        s = open(p).read()
        if s.count(old) != 1:
            problems.append(f"{fn}: pattern occurs {s.count(old)}x")
            continue
        open(p, "w").write(s.replace(old, new))
    with open(d + "/patch.diff", "w") as f:
        f.write(sh("git diff", cwd=SC).stdout)
    removed = [l[1:] for l in open(d + "/patch.diff") if l.startswith("-") and not l.startswith("---")]
    orig = "".join(sh(f"git show {base}:{fn}", cwd=SC).stdout for fn, _, _ in spec["EDITS"])
    mine = [l for l in removed if l.strip() and l not in orig]
    if mine:
        problems.append(f"removes lines that are not original: {mine}")
    rc1, out1 = demo(d)
    if rc0 != 0:
        problems.append(f"demo fails unpatched: {out0}")
    if rc1 == 0:
        problems.append("demo passes patched")
    r = sh(f"{PY} -m compileall -q -f elsie docs", cwd=SC)
    missing = stable_tests()
    if missing:
        problems.append(f"tests fail: {missing[:5]}")
    print(ident, "OK" if not problems else "PROBLEMS")
    for q in problems:
        print("   ", q)
    print("    demo says:", out1.strip().splitlines()[-1:])
    pl = ROOT + "/tools/planted.json"
    res = json.load(open(pl)) if os.path.exists(pl) else {}
    entry = res.setdefault(ident, {"checks": {}, "history": ""})
    for c in sorted({spec["PROPERTY"], *checks}):
        if not os.path.exists(os.path.join(ROOT, "MANIFEST.json")):
            break
        r = subprocess.run([ROOT + "/run.sh", c, "--tier", "quick"], env={**os.environ, "MC_REPO": SC},
                           capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print("    check", c, "rc", r.returncode, v[:1])
        if r.returncode == 0 and c == spec["PROPERTY"] and not entry["history"]:
            entry["history"] = "yes"
        entry["checks"][c] = r.returncode
    with open(pl, "w") as f:
        json.dump(res, f, indent=1, sort_keys=True)
        f.write("\n")
    sh(f"git -C {SC} checkout -q -- .")


for a in sys.argv[1:]:
    plant(a, [])
