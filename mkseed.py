#!/usr/bin/python3
"""mkseed.py SPEC.py: makes one planted bug (seeded/ID) from a specification and
confirms it: it applies, builds, passes the stable tests, and its demonstration
passes on the unchanged tree and fails with the change. Run by hand.

SPEC.py defines: id, prop, needs, breaks, edits [(file, old, new)], and either
pkg + test (a Go test file laid into pkg by an overlay, whose tests are named
TestDemo*) or demo (a shell script)."""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin", HOME="/root", GOPATH="/root/go",
           GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
for k in ("PGHOST", "PGPORT", "PGUSER", "PGDATABASE", "PGPASSWORD"):
    ENV.pop(k, None)
DEMO = """#!/bin/sh
# Runs a Go test that is laid into the package by an overlay; cwd is the repository.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local HOME="${HOME:-/root}"
unset PGHOST PGPORT PGUSER PGDATABASE PGPASSWORD
export DEMO_TMP="$t"
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestDemo' ./%s
"""


def sh(cmd, cwd, ok=None, **kw):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if ok is not None and r.returncode != ok:
        print(r.stdout[-4000:])
        sys.exit("failed: %s" % (cmd,))
    return r


def stable(cwd):
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    pkgs = [p for p in sh(["go", "list", "-e", "-tags", "integration", "./..."], cwd).stdout.split() if not p.endswith("/internal/pg") or p.endswith("runbook/pg")]
    out = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "5m", "-tags", "integration"] + pkgs, cwd).stdout
    out += sh(["go", "test", "-json", "-vet=off", "-count=1", "./internal/pg"], cwd).stdout
    good, bad = set(), set()
    for l in out.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Test") and e.get("Action") in ("pass", "fail"):
            (good if e["Action"] == "pass" else bad).add(e["Package"] + "/" + e["Test"])
    return sorted(want - (good - bad))


def main(spec):
    s = {}
    exec(open(spec).read(), s)
    out = os.path.join(V, "seeded", s["id"])
    tmp = tempfile.mkdtemp(prefix="seed-")
    repo = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        sh(["git", "checkout", "-q", "--", "."], repo, 0)
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit("%s: %d matches of %r" % (f, t.count(old), old))
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "diff"], repo, 0).stdout
        # the changed lines have to be original ones
        added = set()
        for l in sh(["git", "diff", "c74773d", "HEAD", "--"] + sorted({e[0] for e in s["edits"]}), "/repo", 0).stdout.splitlines():
            if l.startswith("+") and not l.startswith("+++"):
                added.add(l[1:].strip())
        mine = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip() in added and len(l.strip()) > 4]
        if mine:
            print("NOTE: removes lines of a fix commit:", mine)
        sh(["go", "build", "./..."], repo, 0)
        miss = stable(repo)
        if miss:
            sys.exit("stable tests fail: %s" % miss)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        for name, text in s.get("files", {}).items():
            os.makedirs(os.path.dirname(os.path.join(out, name)), exist_ok=True)
            open(os.path.join(out, name), "w").write(text)
        if "test" in s:
            open(os.path.join(out, "demo_test.go"), "w").write(s["test"])
            demo = DEMO % (s["pkg"], s["pkg"])
        else:
            demo = s["demo"]
        d = os.path.join(out, "demo.sh")
        open(d, "w").write(demo)
        os.chmod(d, 0o755)
        r = sh([d], repo)
        if r.returncode == 0:
            sys.exit("the demonstration passes with the change:\n" + r.stdout)
        print("with the change:", r.returncode, "\n".join(r.stdout.splitlines()[:12]))
        sh(["git", "checkout", "-q", "--", "."], repo, 0)
        sh(["git", "apply", "--check", os.path.join(out, "patch.diff")], repo, 0)
        r = sh([d], repo)
        if r.returncode != 0:
            sys.exit("the demonstration fails on the unchanged tree:\n" + r.stdout)
        print(s["id"], "ok")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


for spec in sys.argv[1:]:
    main(spec)
