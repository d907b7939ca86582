"""which checks report which planted bug: every check on a scratch clone of /repo with each patch of seeded/ (not part of any check)"""
import os
import subprocess
import sys
import shutil
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [l.split()[0] for l in open(root + "/sa/rules/INDEX") if l.strip()]


def one(b):
    d = "/tmp/matrix/" + b
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", d])
    subprocess.check_call(["git", "-C", d, "apply", "%s/seeded/%s/patch.diff" % (root, b)])
    env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/.ev")
    got = []
    for i in ids:
        r = subprocess.run([sys.executable, root + "/check.py", i], env=env, capture_output=True, text=True, cwd=root)
        if r.returncode:
            got.append(i if r.returncode == 1 else i + "?")
    shutil.rmtree(d)
    return b, got


with ThreadPoolExecutor(int(sys.argv[1]) if len(sys.argv) > 1 else 4) as p:
    for b, got in p.map(one, sorted(os.listdir(root + "/seeded"))):
        print("| %s | %s |" % (b, ", ".join(got)), flush=True)
