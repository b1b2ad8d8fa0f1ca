"""Applies groups of behaviour-preserving edits to a scratch copy of /repo, and runs the checks there: all have to stay quiet.
    python3 tools/refactor.py tools/refactors1.py [GROUP…]        (CHECKS="C01 C02" restricts the checks)"""
import os, shutil, subprocess, sys
root = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
checks = os.environ.get("CHECKS", "").split() or sorted(f[:3].upper() for f in os.listdir(f"{root}/props") if f[0] == "c" and f[1:3].isdigit())
for name, edits in ns["GROUPS"].items():
    if only and name not in only:
        continue
    scr = f"/tmp/refac_{name}"
    shutil.rmtree(scr, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", scr], check=True)
    for path, old, new in edits:
        p = os.path.join(scr, path)
        s = open(p).read()
        if s.count(old) < 1:
            print(name, "EDIT DOES NOT APPLY:", old[:80])
            continue
        open(p, "w").write(s.replace(old, new))
    env = dict(os.environ, SYMX_REPO=scr, VERIF_TIER="quick")
    r = subprocess.run(["/opt/venv/bin/python", "-c", "import gpcm; print(gpcm.__file__)"], cwd=scr, env=dict(os.environ, PYTHONPATH=scr), capture_output=True, text=True)
    if r.returncode or scr not in r.stdout:
        print(name, "IMPORT", r.stdout, r.stderr[-500:])
    if os.environ.get("APPLY"):
        print(scr)
        continue
    for c in checks:
        r = subprocess.run([f"{root}/run.py", c], cwd=root, env=env, capture_output=True, text=True)
        if r.returncode:
            open(f"/tmp/ref_{name}_{c}.log", "w").write(r.stdout + r.stderr)
            lines = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()]
            print(name, c, "exit", r.returncode, *[l[:300] for l in lines if "VIOLATION" in l or "INCONC" in l or "verdict" in l or "rror" in l][:4], sep="\n    ", flush=True)
    print(name, "done", flush=True)
    shutil.rmtree(scr)
