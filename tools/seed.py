#!/usr/bin/env python3
"""seed.py ID: (re)confirm the planted bug /verif/seeded/ID in a scratch copy.
seed.make(id, prop, edits, needs, breaks, kind, code): create it.
kind: the package ("root", "core", ...) whose in-package test, laid in through an overlay, is the demonstration."""
import json, os, subprocess, sys, shutil, tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV="""#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change. Runs in the repository.
set -u
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GONOSUMDB='*' GOWORK=off GOFLAGS=
W=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
"""
ROOT=ENV+"""mkdir -p "$W/gtinfo"
cat > "$W/gtinfo/info.go" <<'G'
package info

func MemPercent() (string, error)       { return "0", nil }
func MemUsed() (uint64, error)          { return 0, nil }
func MemTotal() (uint64, error)         { return 0, nil }
func MemFree() (uint64, error)          { return 0, nil }
func DiskPercent() (string, error)      { return "0", nil }
func DiskUsed() (uint64, error)         { return 0, nil }
func DiskTotal() (uint64, error)        { return 0, nil }
func DiskFree() (uint64, error)         { return 0, nil }
func CPUInfo(args ...int) (string, error) { return "", nil }
func CPUPercent() ([]float64, error)    { return nil, nil }
func Uptime() (uint64, error)           { return 0, nil }
func PlatformInfo() (a, b, c string, err error) { return }
func Platform() (string, error)         { return "", nil }
func KernelVer() (string, error)        { return "", nil }
G
printf 'module github.com/go-vgo/gt/info\\n\\ngo 1.13\\n' > "$W/gtinfo/go.mod"
{ sed 's#\\(github.com/go-vgo/gt/info\\) .*#\\1 v0.0.0#' "$R/go.mod"; echo "replace github.com/go-vgo/gt/info => $W/gtinfo"; } > "$W/demo.mod"
cp "$R/go.sum" "$W/demo.sum"
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go.txt"}}' "$R" "$D" > "$W/ov.json"
export TMPDIR=$W
timeout 250 go test -vet=off -count=1 %(flags)s -mod=mod -modfile="$W/demo.mod" -overlay "$W/ov.json" -run TestZZDemo ./%(pkg)s
"""
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def make(id,prop,edits,needs,breaks,kind,code,flags=""):
    d=f"{V}/seeded/{id}"; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix="seedw.",dir="/tmp")
    try:
        sh(f"cp -a /repo {w}/r && git -C {w}/r checkout -q -- . && git -C {w}/r clean -fdq")
        for f,o,n in edits:
            p=f"{w}/r/{f}"; s=open(p).read()
            if s.count(o)!=1: print(id,"edit matches",s.count(o),"times:",f,o[:60]); shutil.rmtree(d); return False
            open(p,"w").write(s.replace(o,n))
        diff=sh(f"git -C {w}/r diff").stdout
        open(d+"/patch.diff","w").write(diff)
    finally: shutil.rmtree(w)
    pkg="." if kind=="root" else kind.split(":")[-1]
    t=ROOT
    open(d+"/demo.sh","w").write(t%{"pkg":pkg,"flags":flags}); os.chmod(d+"/demo.sh",0o755)
    open(d+"/demo_test.go.txt","w").write(code)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    return confirm(id)
def confirm(id, quiet=False):
    d=f"{V}/seeded/{id}"
    w=tempfile.mkdtemp(prefix="seedw.",dir="/tmp")
    try:
        sh(f"cp -a /repo {w}/r && git -C {w}/r checkout -q -- . && git -C {w}/r clean -fdq && cp -a {d} {w}/d")
        a=sh(f"{w}/d/demo.sh",cwd=f"{w}/r")
        r=sh(f"git -C {w}/r apply {d}/patch.diff")
        t=sh(f"export GOTOOLCHAIN=local GOPROXY=off; grep -v go-vgo/gt/info go.mod > {w}/m.mod; cp go.sum {w}/m.sum; export GOFLAGS='-mod=readonly -modfile={w}/m.mod'; go test -vet=off -count=1 ./core ./store && go build ./engine/... ./geo ./types ./utils ./net ./net/rpcx ./net/heartb ./net/grpc/riot-pb ./data/client/...",cwd=f"{w}/r")
        b=sh(f"{w}/d/demo.sh",cwd=f"{w}/r")
    finally: shutil.rmtree(w)
    ok=a.returncode==0 and r.returncode==0 and t.returncode==0 and b.returncode!=0
    print(id,"ok" if ok else "NOT OK", "clean",a.returncode,"apply",r.returncode,"tests",t.returncode,"patched",b.returncode)
    if not ok:
        for x in (a,r,t,b): print(x.stdout[-1500:])
    elif not quiet: print("   ", "\n    ".join(b.stdout.strip().splitlines()[:6]))
    return ok
if __name__=="__main__":
    for i in sys.argv[1:] or sorted(os.listdir(V+"/seeded")): confirm(i,True)
