#!/usr/bin/env python3
"""Applies behaviour-preserving edits (tools/refactors/*.py) to scratch copies of
/repo and runs every check on them; each has to stay quiet.

usage: refactor.py [-c C01,C02] [NAME...]"""
import concurrent.futures, glob, os, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
only = None
if args and args[0] == "-c":
    only = args[1].split(","); args = args[2:]
names = args or sorted(os.path.basename(f)[:-3] for f in glob.glob(root + "/tools/refactors/*.py"))
checker = root + "/bin/checker"
ids = only or subprocess.check_output([checker, "-list"], text=True).split()

def one(name):
    out = []
    ns = {}
    exec(open(f"{root}/tools/refactors/{name}.py").read(), ns)
    d = tempfile.mkdtemp(prefix="refactor-", dir="/tmp")
    try:
        repo = d + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        for f, old, new in ns["edits"]:
            t = open(f"{repo}/{f}").read()
            if old == "":
                t += new
            elif old not in t:
                return name, [f"TEXT MISSING in {f}: {old[:80]!r}"]
            else:
                t = t.replace(old, new, 1)
            open(f"{repo}/{f}", "w").write(t)
        p = subprocess.run("gofmt -l . ; go build ./... && go vet ./core ./engine ./lib ./cmd", shell=True, cwd=repo, text=True, capture_output=True)
        if p.returncode:
            return name, ["BUILD: " + p.stdout + p.stderr]
        p = subprocess.run("go test ./core/... ./engine/... ./lib/... . 2>&1 | grep -E '^(FAIL|---)' ", shell=True, cwd=repo, text=True, capture_output=True)
        if p.stdout:
            out.append("TESTS: " + p.stdout)
        for i in ids:
            v = d + "/v"; os.makedirs(v, exist_ok=True)
            shutil.copy(root + "/known-findings.txt", v)
            try:
                p = subprocess.run([checker, "-property", i], env=dict(os.environ, YISP_REPO=repo, VERIF_DIR=v), text=True, capture_output=True, timeout=900)
                if p.returncode:
                    out.append(f"{i}: rc {p.returncode}\n" + "\n".join("    " + l[:420] for l in (p.stdout + p.stderr).splitlines()[:6]))
            except subprocess.TimeoutExpired:
                out.append(f"{i}: TIMEOUT")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return name, out

bad = 0
with concurrent.futures.ThreadPoolExecutor(3) as ex:
    for name, out in ex.map(one, names):
        print(f"== {name}: " + ("quiet" if not out else "ALARM"), flush=True)
        for l in out:
            bad += 1
            print("  " + l, flush=True)
sys.exit(1 if bad else 0)
