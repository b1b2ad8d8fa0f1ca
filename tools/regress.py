"""Development tool: runs, for every planted bug, the check of its property on a scratch copy with the bug; prints a table.
    python3 tools/regress.py [ID ...]"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

root = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))


def one(b):
    d = f"{root}/seeded/{b}"
    meta = json.load(open(f"{d}/meta.json"))
    scr = f"/tmp/reg_{b}"
    shutil.rmtree(scr, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", scr], check=True)
    a = subprocess.run(["git", "apply", f"{d}/patch.diff"], cwd=scr, capture_output=True, text=True)
    if a.returncode:
        r = "does not apply"
    else:
        t = time.time()
        x = subprocess.run([f"{root}/run.py", meta["property"]], cwd=root, capture_output=True, text=True,
                           env=dict(os.environ, SYMX_REPO=scr, SYMX_EVIDENCE=scr + ".ev", VERIF_TIER="quick"))
        r = "caught" if x.returncode == 1 and f"VIOLATION property={meta['property']}" in x.stdout else f"MISSED (exit {x.returncode})"
        r += f" {time.time() - t:.0f} s"
    shutil.rmtree(scr, ignore_errors=True)
    shutil.rmtree(scr + ".ev", ignore_errors=True)
    print(b, meta["property"], r, flush=True)


ids = sys.argv[1:] or sorted(x for x in os.listdir(f"{root}/seeded") if os.path.exists(f"{root}/seeded/{x}/meta.json"))
with ThreadPoolExecutor(2) as p:
    list(p.map(one, ids))
