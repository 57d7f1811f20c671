#!/usr/bin/env python3
"""Makes planted bugs and runs the checks against them.

usage: plant.py make SPEC.py [ID...]   make and confirm the planted bugs of a spec file
       plant.py run [--tier quick] [--props C01,C02] ID...|all
                                       run each planted bug's check (or the given ones) against it

A spec file calls plant(id, prop, edits, needs, breaks, demo, race=False) where
edits is a list of (path, old, new) and demo is the body of a Go main().
Everything happens in scratch copies of /repo and /verif under /tmp/plant/w.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
W = "/tmp/plant/w"
JOBS = int(os.environ.get("PLANT_JOBS", "3"))

PRELUDE = '''package main

import (
  "bytes"
  "encoding/json"
  "errors"
  "fmt"
  "io"
  "math"
  "math/rand"
  "os"
  "path/filepath"
  "reflect"
  "runtime"
  "sort"
  "strings"
  "testing"
  "sync"
  "time"

  "github.com/rom1mouret/ml-essentials/algorithms"
  "github.com/rom1mouret/ml-essentials/dataframe"
  "github.com/rom1mouret/ml-essentials/preprocessing"
  "github.com/rom1mouret/ml-essentials/utils"
  "golang.org/x/text/encoding/charmap"
)

var _ = []interface{}{bytes.NewReader, json.Marshal, errors.New, io.EOF, math.Abs, rand.Int, filepath.Join,
  reflect.DeepEqual, sort.Ints, strings.NewReader, sync.WaitGroup{}, time.Now, algorithms.MSE,
  preprocessing.NewScaler, utils.MakeRange, charmap.ISO8859_1, runtime.NumCPU, testing.Short}

type DF = dataframe.DataFrame

func die(format string, a ...interface{}) {
  fmt.Printf(format+"\\n", a...)
  os.Exit(1)
}

func eq(what string, got, want interface{}) {
  if g, w := fmt.Sprintf("%v", got), fmt.Sprintf("%v", want); g != w {
    die("%s: got %s, want %s", what, g, w)
  }
}

func ok(what string, cond bool) {
  if !cond {
    die("%s", what)
  }
}

func builder() dataframe.DataBuilder {
  return dataframe.DataBuilder{RawData: dataframe.NewRawData()}
}

// col returns the values of a column of any type
func col(df *DF, name string) []interface{} {
  return df.CopyValuesToInterfaces(name)
}

func names(h dataframe.ColumnHeader) []string {
  l := h.NameList()
  sort.Strings(l)
  return l
}
'''

DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; builds the program beside this file against it
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/zz_demo/main.go": "%s/main.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build @RACE@-overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 1
mkdir "$tmp/cwd" && cd "$tmp/cwd" || exit 1
export TMPDIR="$tmp/cwd" GORACE=exitcode=66
timeout 120 "$tmp/demo"
'''

specs = []


def plant(id, prop, edits, needs, breaks, demo, race=False, helpers="", imports=""):
    specs.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, race=race, helpers=helpers, imports=imports))


def env():
    e = dict(os.environ)
    e.update({"HOME": "/root", "PATH": "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
              "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off",
              "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod"})
    return e


def sh(cmd, cwd, timeout=900, e=None):
    r = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    return r.returncode, r.stdout


def make(s):
    d = os.path.join(SEEDED, s["id"])
    w = os.path.join(W, "make-" + s["id"])
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    repo = os.path.join(w, "repo")
    shutil.copytree("/repo", repo, symlinks=True)
    try:
        for path, old, new in s["edits"]:
            p = os.path.join(repo, path)
            t = open(p).read()
            if t.count(old) != 1:
                return f"BAD {s['id']}: {t.count(old)} matches of {old[:60]!r} in {path}"
            open(p, "w").write(t.replace(old, new))
        rc, diff = sh(["git", "diff"], repo)
        # changed lines must be original ones
        orig = 0
        for path in {e[0] for e in s["edits"]}:
            _, base = sh(["git", "blame", "-s", "-l", "fee8ec2..HEAD", "--", path], "/repo")
            blame = {}
            for ln in base.splitlines():
                m = re.match(r"(\^?)([0-9a-f]+)\s+(?:\S+\s+)?(\d+)\)", ln)
                if m:
                    blame[int(m.group(3))] = ln.startswith("^")
            _, u = sh(["git", "diff", "-U0", "--", path], repo)
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", u, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for i in range(a, a + n):
                    if blame.get(i):
                        orig += 1
                    else:
                        orig += 0
        note = "" if orig else "NO-ORIGINAL-LINE "
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "main.go"), "w").write(PRELUDE.replace('"golang.org/x/text/encoding/charmap"', '"golang.org/x/text/encoding/charmap"\n  ' + s["imports"]) + s["helpers"] + "\nfunc main() {\n" + s["demo"].strip("\n") + "\n}\n")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH.replace("@RACE@", "-race " if s["race"] else ""))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc, out = sh(["go", "build", "./..."], repo)
        if rc:
            return f"BAD {s['id']}: does not build\n{out}"
        rc, out = sh(["bash", os.path.join(d, "demo.sh")], "/repo", 300)
        if rc:
            return f"BAD {s['id']}: demo fails on the unchanged tree ({rc})\n{out[-1500:]}"
        rc, dout = sh(["bash", os.path.join(d, "demo.sh")], repo, 300)
        if rc == 0:
            return f"BAD {s['id']}: demo passes with the patch"
        want = json.load(open("/opt/vp/BASELINE.json"))
        rc, out = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "10m", "./..."], repo)
        res = {}
        for ln in out.splitlines():
            try:
                ev = json.loads(ln)
            except ValueError:
                continue
            if ev.get("Test") and ev.get("Action") in ("pass", "fail", "skip"):
                res[ev["Test"]] = ev["Action"]
        bad = sorted(t for t, a in res.items() if a != "pass")
        npass = sum(1 for a in res.values() if a == "pass")
        if bad or npass < 55:
            return f"BAD {s['id']}: tests fail: {bad} ({npass} pass)"
        return f"OK  {note}{s['id']} {s['prop']} (demo: {dout.strip().splitlines()[0][:100] if dout.strip() else ''})"
    finally:
        shutil.rmtree(w, ignore_errors=True)


def run(id, props, tier, seed="1"):
    d = os.path.join(SEEDED, id)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = os.path.join(W, "run-" + id)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        repo, verif = os.path.join(w, "repo"), os.path.join(w, "verif")
        shutil.copytree("/repo", repo, symlinks=True)
        shutil.copytree(VERIF, verif, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
        gm = os.path.join(verif, "harness/go.mod")
        t = open(gm).read()
        open(gm, "w").write(t.replace("=> /repo", "=> " + repo))
        rc, out = sh(["git", "apply", os.path.join(d, "patch.diff")], repo)
        if rc:
            return f"BAD {id}: {out}"
        lines = []
        for p in props or [meta["property"]]:
            e = env()
            e.update({"VERIF_SEED": seed, "VERIF_TIER": tier})
            rc, out = sh(["python3", "check.py", p, tier], verif, 2000, e)
            v = [ln for ln in out.splitlines() if ln.startswith("VIOLATION")]
            first = ""
            if v:
                m = re.search(r"replay=(\S+)", v[0])
                if m and os.path.exists(os.path.join(verif, m.group(1))):
                    first = open(os.path.join(verif, m.group(1))).read()
            word = "CAUGHT" if rc == 1 and v else ("MISSED" if rc == 0 else f"ERROR({rc})")
            if word.startswith("ERROR"):
                first = out[-1500:]
            lines.append(f"{word} {id} {p}")
            os.makedirs("/tmp/plant/out", exist_ok=True)
            open(f"/tmp/plant/out/{id}.{p}.txt", "w").write(out + "\n----\n" + first)
        return "\n".join(lines)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    os.makedirs(W, exist_ok=True)
    if cmd == "make":
        exec(compile(open(args[0]).read(), args[0], "exec"), {"plant": plant})
        todo = [s for s in specs if not args[1:] or s["id"] in args[1:]]
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(make, todo):
                print(r, flush=True)
    else:
        tier, props, ids = "quick", None, []
        seed = "1"
        while args:
            a = args.pop(0)
            if a == "--tier":
                tier = args.pop(0)
            elif a == "--seed":
                seed = args.pop(0)
            elif a == "--props":
                props = args.pop(0).split(",")
            else:
                ids.append(a)
        if ids == ["all"]:
            ids = sorted(os.listdir(SEEDED))
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(lambda i: run(i, props, tier, seed), ids):
                print(r, flush=True)


main()
