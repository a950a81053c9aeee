#!/usr/bin/env python3
"""Write and validate planted bugs (seeded/<id>/) from tools/bugs/*.py.

seed.py make [ID...]   write seeded/<id>/ and validate each in a scratch copy of /repo
seed.py catch [ID...]  apply each to /repo, run its property's quick check, undo
"""
import glob, json, os, shutil, subprocess, sys, tempfile, textwrap

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

PRELUDE = '''package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"reflect"
	"strings"
	"time"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
)

var (
	_ = context.Background
	_ sql.NullString
	_ driver.Value
	_ = errors.New
	_ = io.EOF
	_ = log.Println
	_ = reflect.DeepEqual
	_ = strings.Repeat
	_ time.Time
	_ *sqlf.Fragment
	_ *sqlb.QueryBuilder
	_ = syntax.Parse
	_ = util.Interpolate
)

const (
	D = syntax.Dollar
	Q = syntax.Question
)

func fail(format string, a ...any) {
	fmt.Printf("FAIL: "+format+"\\n", a...)
	os.Exit(1)
}

func same(what string, got, want any) {
	if !reflect.DeepEqual(got, want) {
		fail("%s\\n got  %#v\\n want %#v", what, got, want)
	}
}

// builds expects b to build to the query with the args.
func builds(b sqlf.QueryBuilder, style syntax.BindVarStyle, query string, args ...any) {
	q, a, err := b.BuildQuery(style)
	if err != nil {
		fail("build: %s", err)
	}
	same("query", q, query)
	if len(a) != len(args) {
		fail("args of %s: %#v, want %#v", q, a, args)
	}
	for i := range a {
		same("arg", a[i], args[i])
	}
}

// rejects expects b to fail.
func rejects(what string, b sqlf.QueryBuilder, style syntax.BindVarStyle) {
	q, a, err := b.BuildQuery(style)
	if err == nil {
		fail("%s: no error but %q %#v", what, q, a)
	}
}
'''

DEMO = '''#!/bin/bash
# Run in the repository: builds and runs main.go, which lies beside this file, against it.
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off TZ=UTC%(env)s
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
cp "$here/main.go" "$dir/main.go"
printf 'module demo\\n\\ngo 1.18\\n\\nrequire github.com/qjebbs/go-sqlf/v2 v2.0.0\\n\\nreplace github.com/qjebbs/go-sqlf/v2 => %%s\\n' "$PWD" > "$dir/go.mod"
cd "$dir" && go build%(race)s -o demo . && timeout 60 ./demo
'''

def load():
    bugs = {}
    for f in sorted(glob.glob(V + "/tools/bugs/*.py")):
        ns = {"__file__": f}
        exec(open(f).read(), ns)
        for b in ns["BUGS"]:
            assert b["id"] not in bugs, b["id"]
            bugs[b["id"]] = b
    return bugs

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def stable_missing(repo, tmp):
    # the tests of a scratch copy: test.sh runs in the current env's repository
    env = open("/opt/vp/env.sh").read().replace("/repo", repo)
    out = os.path.join(tmp, "out.json")
    envf = os.path.join(tmp, "env.sh")
    open(envf, "w").write(env)
    t = open("/opt/vp/test.sh").read().replace("/opt/vp/env.sh", envf)
    tf = os.path.join(tmp, "test.sh")
    open(tf, "w").write(t)
    r = sh("bash %s %s" % (tf, out))
    o = json.load(open(out))
    b = json.load(open("/opt/vp/BASELINE.json"))
    return [x for x in b["stable"] if x not in set(o["passed"])], r.stdout[-500:]

def make(bug, base):
    d = os.path.join(V, "seeded", bug["id"])
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix="seed.")
    try:
        w = os.path.join(tmp, "w")
        shutil.copytree(REPO, w)
        for fn, old, new in bug["edits"]:
            p = os.path.join(w, fn)
            s = open(p).read()
            if s.count(old) != 1:
                return "edit of %s matches %d times" % (fn, s.count(old))
            open(p, "w").write(s.replace(old, new))
        sh("gofmt -w .", cwd=w)
        diff = sh("git diff", cwd=w).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/main.go", "w").write(PRELUDE + bug["demo"])
        sh("gofmt -w main.go", cwd=d)
        race = bug.get("race")
        open(d + "/demo.sh", "w").write(DEMO % {"race": " -race" if race else "", "env": " CGO_ENABLED=1 GORACE=halt_on_error=1" if race else ""})
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        r = sh("git stash -q && bash %s/demo.sh" % d, cwd=w)
        if r.returncode != 0:
            return "demo fails unpatched: " + r.stdout[-600:]
        r = sh("git apply %s/patch.diff && . /opt/vp/env.sh && cd %s && go build ./..." % (d, w), cwd=w)
        if r.returncode != 0:
            return "does not build: " + r.stdout[-600:]
        r = sh("bash %s/demo.sh" % d, cwd=w)
        if r.returncode == 0:
            return "demo passes with the patch"
        out = r.stdout.strip()
        miss, log = stable_missing(w, tmp)
        if miss:
            return "breaks tests: %s" % miss
        # does it change original lines?
        removed = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        if not removed:
            out = "(insertion) " + out
        return "ok: " + (out.splitlines() or ["(exit %d)" % 1])[0][:110]
    finally:
        shutil.rmtree(tmp)

def safe(bug):
    try:
        return make(bug, None)
    except Exception as e:
        return "fails: %r" % e

def catch(bug, tier="quick", checks=None):
    d = os.path.join(V, "seeded", bug["id"])
    assert sh("git -C %s status --porcelain" % REPO).stdout == ""
    sh("git -C %s apply %s/patch.diff" % (REPO, d))
    res = []
    try:
        for c in checks or [bug["property"]]:
            r = sh("VERIF_SEED=1 VERIF_TIER=%s python3 %s/check.py %s %s" % (tier, V, c, tier), cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append("%s:%d%s" % (c, r.returncode, "" if (r.returncode == 1 and v) or r.returncode == 0 else "?" + r.stdout[-300:]))
    finally:
        sh("git -C %s checkout -- ." % REPO)
    return " ".join(res)

if __name__ == "__main__":
    bugs = load()
    ids = sys.argv[2:] or list(bugs)
    if sys.argv[1] == "make":
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            for i, r in zip(ids, ex.map(lambda i: safe(bugs[i]), ids)):
                print(i, r, flush=True)
    else:
        allc = os.environ.get("ALL")
        for i in ids:
            if not os.path.exists(os.path.join(V, "seeded", i, "patch.diff")):
                print(i, "not made"); continue
            print(i, catch(bugs[i], checks=["C%02d" % k for k in range(1, 40)] if allc else None), flush=True)
