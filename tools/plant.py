#!/usr/bin/env python3
"""plant.py [--caught] [ID...]: (re)generates /verif/seeded/<id> from tools/plants/*.py and
confirms each one in a scratch copy: builds, demo passes without and fails with the change;
with --tests the stable tests pass too; with --caught the property's check reports it."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Runs demo_test.go inside package __PKG__ of the repository in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOENV=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=1
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$PWD/__PKG__/zz_demo_test.go": "$here/demo_test.go"__PEER__}}
EOF
cp go.mod "$tmp/go.mod"; cp go.sum "$tmp/go.sum"
go test __RACE__ -modfile "$tmp/go.mod" -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 150s -run '^TestDemo' ./__PKG__
'''

def load():
    out = []
    for f in sorted(glob.glob(os.path.join(BASE, "tools/plants/*.py"))):
        spec = importlib.util.spec_from_file_location("p", f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        out += m.P
    return out

def sh(cmd, cwd=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout

def main():
    caught = "--caught" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    for p in load():
        if ids and p["id"] not in ids:
            continue
        d = os.path.join(BASE, "seeded", p["id"])
        tmp = tempfile.mkdtemp(prefix="plant.")
        repo = os.path.join(tmp, "repo")
        sh("cp -a /repo %s" % repo)
        ok, notes = True, []
        try:
            for f, old, new in p["edits"]:
                path = os.path.join(repo, f)
                s = open(path).read()
                if s.count(old) != 1:
                    print(p["id"], "edit matches", s.count(old), "times in", f); ok = False; break
                open(path, "w").write(s.replace(old, new))
            if not ok:
                continue
            sh("gofmt -l . ", repo)
            rc, diff = sh("git diff", repo)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            open(os.path.join(d, "demo_test.go"), "w").write(p["test"].lstrip())
            peer = ""
            if p.get("peer"):
                src = open(os.path.join(BASE, "tools/plants/peer.go.txt")).read().replace("PACKAGE", p["pkg"].split("/")[-1] if not p.get("pkgname") else p["pkgname"])
                open(os.path.join(d, "peer_test.go"), "w").write(src)
                peer = ', "$PWD/%s/zz_peer_test.go": "$here/peer_test.go"' % p["pkg"]
            s = DEMO.replace("__PKG__", p["pkg"]).replace("__PEER__", peer).replace("__RACE__", "-race" if p.get("race") else "")
            open(os.path.join(d, "demo.sh"), "w").write(s)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            rc, o = sh("bash -c '. %s/checker/env.sh; go build ./hsms ./gem ./utils ./codec ./lib-secs2-hsms-go/... .'" % BASE, repo)
            if rc != 0:
                print(p["id"], "DOES NOT BUILD", o[-600:]); continue
            rc1, o1 = sh("bash %s/demo.sh" % d, repo)
            st0 = ""
            sh("git checkout -- .", repo)
            for f in sorted({e[0] for e in p["edits"]}):
                _, bl = sh("git blame -s 10aabbd..HEAD -- %s | grep -v '^^' | sed 's/^[^)]*) //'" % f, repo)
                mine = set(bl.split("\n"))
                for l in diff.split("\n"):
                    if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] in mine:
                        st0 += " [line of a fix commit: %s]" % l[1:].strip()
            rc0, o0 = sh("bash %s/demo.sh" % d, repo)
            st = "ok"+st0 if rc0 == 0 and rc1 != 0 else "BAD(clean rc=%d, patched rc=%d)" % (rc0, rc1)
            if not st.startswith("ok"):
                print(o0[-1500:] if rc0 else o1[-1500:])
            if "[build failed]" in o1: st = "BAD build " + o1[-800:]
            if caught:
                sh("git apply %s/patch.diff" % d, repo)
                rc, o = sh("REPO=%s bash %s/tools/check.sh %s" % (repo, BASE, p["property"]))
                st += " caught" if rc == 1 and "VIOLATION property=" + p["property"] in o else " MISSED(rc=%d) %s" % (rc, o[-300:] if rc not in (0,1) else "")
            if "--tests" in sys.argv:
                pass
            print(p["id"], p["property"], st, flush=True)
        finally:
            shutil.rmtree(tmp)
main()
