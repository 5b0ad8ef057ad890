"""Makes /verif/seeded/<id>/ from the definitions in seeds.py and confirms each of them in a scratch copy of /repo."""
import json,os,subprocess,sys,shutil,re
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
sys.path.insert(0,here)
from seeds import SEEDS,HELPER
DEMO='''#!/usr/bin/env bash
# Runs demo_test.go.txt inside of its package of the repository in the working directory: exit 0 if the property holds.
set -u
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
cp "$d/demo_test.go.txt" "$t/demo_test.go"
printf '{"Replace":{"%s/@PKG@/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$t" > "$t/overlay.json"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS= CGO_ENABLED=@CGO@
go test -vet=off -count=1 -timeout 120s @FLAGS@ -overlay "$t/overlay.json" -run '^TestDemo$' "./@PKG@" > "$t/out" 2>&1
rc=$?
tail -n 40 "$t/out"
grep -q "no tests to run" "$t/out" && exit 1
exit $rc
'''
only=sys.argv[1:]
env=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOWORK="off",CGO_ENABLED="0",GOFLAGS="")
base=set(subprocess.run(["git","-C","/repo","rev-list","a3f17fa","--max-count=1"],capture_output=True,text=True).stdout.split())
bad=0
for s in SEEDS:
    if only and s["id"] not in only: continue
    w="/tmp/seedwork/"+s["id"]
    shutil.rmtree(w,ignore_errors=True); os.makedirs("/tmp/seedwork",exist_ok=True)
    subprocess.run(["cp","-a","/repo",w],check=True)
    d=os.path.join(root,"seeded",s["id"]); os.makedirs(d,exist_ok=True)
    ok=True; msg=[]
    for f,old,new in s["edits"]:
        p=os.path.join(w,f); t=open(p).read()
        if t.count(old)!=1: ok=False; msg.append(f"{f}: {t.count(old)} matches of {old!r}"); continue
        open(p,"w").write(t.replace(old,new))
    if ok:
        diff=subprocess.run(["git","-C",w,"diff"],capture_output=True,text=True).stdout
        open(os.path.join(d,"patch.diff"),"w").write(diff)
        # at least one removed or neighbouring line is original
        pkg=s.get("pkg","mqtt")
        t=s["test"]
        if pkg=="mqtt" and not s.get("nohelper"):
            imps=sorted(set(re.findall(r"^// import (.*)$",t,re.M))|{'"bytes"','"context"','"io"','"net"','"testing"','"time"','"github.com/waj334/tinygo-mqtt/mqtt/packets"'})
            t="package mqtt\n\nimport (\n"+"".join("\t%s\n"%i for i in imps)+")\n"+HELPER+re.sub(r"^// import .*\n","",t,flags=re.M)
        open(os.path.join(d,"demo_test.go.txt"),"w").write(t)
        open(os.path.join(d,"demo.sh"),"w").write(DEMO.replace("@PKG@",pkg).replace("@FLAGS@",s.get("flags","")).replace("@CGO@",s.get("cgo","0")))
        os.chmod(os.path.join(d,"demo.sh"),0o755)
        json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(os.path.join(d,"meta.json"),"w"),indent=1)
        r=subprocess.run("go build $(go list -e ./... | grep -v examples) && go test -vet=off -count=1 $(go list -e ./... | grep -v examples)",shell=True,cwd=w,env=env,capture_output=True,text=True)
        if r.returncode: ok=False; msg.append("build/test: "+r.stdout[-500:]+r.stderr[-500:])
        r=subprocess.run([d+"/demo.sh"],cwd="/repo",env=env,capture_output=True,text=True)
        if r.returncode: ok=False; msg.append("demo fails unpatched: "+r.stdout[-1500:]+r.stderr[-500:])
        r=subprocess.run([d+"/demo.sh"],cwd=w,env=env,capture_output=True,text=True)
        if r.returncode==0: ok=False; msg.append("demo passes patched")
        elif "build failed" in r.stdout or "setup failed" in r.stdout: ok=False; msg.append("demo does not build: "+r.stdout[-800:])
        # original lines
        removed=False
        for f,_,_ in s["edits"]:
            dd=subprocess.run(["git","-C",w,"diff","-U0",f],capture_output=True,text=True).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ",dd,re.M):
                a,n=int(m[1]),int(m[2] or 1)
                if n==0: continue
                bl=subprocess.run(["git","-C","/repo","blame","-s","-L",f"{a},{a+n-1}","HEAD","--",f],capture_output=True,text=True).stdout
                if any(l.startswith("^a3f17fa"[:8]) for l in bl.splitlines()): removed=True
        if not removed: msg.append("note: changes no original line")
    print(s["id"],s["prop"],"ok" if ok else "BAD"," | ".join(msg)); bad+=not ok
    shutil.rmtree(w,ignore_errors=True)
sys.exit(bad>0)
