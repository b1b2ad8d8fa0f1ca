"""Development tool: makes and vets planted bugs from a specification file.

plant.py SPEC.py [ID ...]   SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]

For each bug: a scratch copy of /repo is changed, the patch is written to /verif/seeded/ID, the demo
is run on both trees, the test suite on the changed one, and the property's check on the changed one.
"""
import json, os, shutil, subprocess, sys
import xml.etree.ElementTree as ET

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
DEMO = '''#!/bin/bash
# Run with the working directory at the tree to test.
here=$(dirname "$(realpath "$0")")
export PYTHONPATH="$PWD" JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd, env=ENV, timeout=1500):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    want = sys.argv[2:]
    for b in spec["BUGS"]:
        if want and b["id"] not in want:
            continue
        d = os.path.join(ROOT, "seeded", b["id"])
        if not want and os.path.exists(os.path.join(d, "meta.json")):
            continue
        s = f"/tmp/scr/{b['id']}"
        shutil.rmtree(s, ignore_errors=True)
        os.makedirs("/tmp/scr", exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", s], check=True)
        for f, old, new in b["edits"]:
            t = open(os.path.join(s, f)).read()
            if t.count(old) != 1:
                print(b["id"], f"EDIT MATCHES {t.count(old)} TIMES: {old!r}")
                break
            open(os.path.join(s, f), "w").write(t.replace(old, new))
        else:
            vet(b, d, s)
        shutil.rmtree(s, ignore_errors=True)


def vet(b, d, s):
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(sh(["git", "diff"], s).stdout)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    a = sh(["bash", os.path.join(d, "demo.sh")], "/repo", timeout=280)
    c = sh(["bash", os.path.join(d, "demo.sh")], s, timeout=280)
    env = dict(ENV, PYTHONPATH=s)
    xml = s + ".xml"
    ok, failed = a.returncode == 0 and c.returncode != 0, None
    if ok and not os.environ.get("NOTEST"):
        sh(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-n", "6", "--dist", "load",
            "--randomly-seed=0", "--randomly-dont-reorganize", "--timeout=600", "--junitxml=" + xml, "-o", "junit_family=xunit2"], s, env=env)
        failed = []
        for t in ET.parse(xml).iter("testcase"):
            name = f"{t.get('classname')}::{t.get('name')}" if t.get("classname") else t.get("name")
            if t.find("failure") is not None or t.find("error") is not None:
                failed.append(name)
        os.unlink(xml)
    r = sh([os.path.join(ROOT, "run.py"), b["property"]], ROOT, env=dict(ENV, SYMX_REPO=s, SYMX_EVIDENCE=s + ".ev"))
    shutil.rmtree(s + ".ev", ignore_errors=True)
    caught = r.returncode == 1 and f"VIOLATION property={b['property']}" in r.stdout
    print(f"{b['id']} [{b['property']}]: demo clean={a.returncode} patched={c.returncode}; tests failed={failed}; check={'CAUGHT' if caught else 'exit ' + str(r.returncode)}", flush=True)
    if not ok:
        print(a.stdout[-800:], c.stdout[-300:])
    if not caught:
        print(r.stdout[-1500:])
    if ok and failed == []:
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    elif not os.path.exists(os.path.join(d, "meta.json")):
        shutil.rmtree(d)


main()
