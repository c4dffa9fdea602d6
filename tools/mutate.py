#!/usr/bin/env python3
"""Mutation self-test of the checker (development aid, not a check).

usage: mutate.py MUTANTS.py [filter...]

MUTANTS.py defines M = [(expected property or "-", name, file, old, new), ...];
"-" means the edit keeps the behaviour and every check must stay quiet.
Each edit is applied to a scratch copy of /repo, which must still build.
"""
import os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
SC = os.environ.get("SC", "/tmp/sc")
ENV = dict(os.environ)

def run(m):
    exp, name, edits = m[0], m[1], m[2:]
    if len(edits) == 3 and isinstance(edits[0], str):
        edits = [edits]
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if old not in s:
                return name, exp, "NOANCHOR " + f
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        b = subprocess.run(["go", "build", ".", "./codec/...", "./common/...", "./gem/...", "./hsms/...", "./utils/...", "./lib-secs2-hsms-go/..."], cwd=d, capture_output=True, text=True, env=ENV)
        if b.returncode:
            return name, exp, "NOBUILD " + b.stderr[:400]
        os.makedirs(d + "/.v", exist_ok=True)
        shutil.copy("/verif/known_findings.txt", d + "/.v/")
        props = os.environ.get("PROPS", "all") if exp == "-" or os.environ.get("ALL") else exp
        bad = []
        for p in props.split(","):
            o = subprocess.run([SC, "-property", p, "-repo", d, "-base", d + "/.v"], capture_output=True, text=True, env=ENV)
            bad += [l for l in o.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("  ")]
            if o.returncode not in (0, 1):
                bad.append("EXIT %d %s" % (o.returncode, o.stderr[-300:]))
        return name, exp, "\n    ".join(bad) if bad else "quiet"
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    ms = [m for m in g["M"] if len(sys.argv) < 3 or any(a in m[0] + "/" + m[1] for a in sys.argv[2:])]
    with cf.ThreadPoolExecutor(6) as ex:
        for name, exp, res in ex.map(run, ms):
            ok = (res == "quiet") == (exp == "-") and not res.startswith("NO")
            if os.environ.get("V") or not ok:
                print(("ok  " if ok else "MISS") , exp, name, "\n    " + res[:1500])
            else:
                print("ok  ", exp, name)
main()
