#!/usr/bin/env python3
"""seed.py new ID FILE... : turn the current edits in /repo into seeded/ID/patch.diff (needs demo.cpp there) and verify.
   seed.py verify ID    : apply, build, test, demo, undo.   seed.py catch ID... : run the property's check on it."""
import json, os, subprocess, sys, shutil
V="/verif"; R="/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def undo():
    sh(f"git -C {R} checkout -- .")
def demo(i): 
    r=sh(f"cd {R} && bash {V}/seeded/{i}/demo.sh"); return r.returncode, r.stdout[-600:]
def verify(i):
    d=f"{V}/seeded/{i}"
    if not os.path.exists(d+"/demo.sh"): shutil.copy(V+"/tool/seedlib/demo.sh", d+"/demo.sh")
    r=sh("bash /opt/vp/build.sh"); assert r.returncode==0, r.stdout[-2000:]
    a=demo(i)
    ap=sh(f"git -C {R} apply {d}/patch.diff"); assert ap.returncode==0, ap.stdout
    try:
        r=sh("bash /opt/vp/build.sh")
        if r.returncode: print(i,"BUILD FAILS", r.stdout[-1500:]); return
        t=sh("bash /opt/vp/test.sh /tmp/seed_o.json")
        o=json.load(open("/tmp/seed_o.json")); st=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        missing=st-set(o["passed"])
        b=demo(i)
        chk=check(i)
    finally:
        undo(); sh("bash /opt/vp/build.sh")
    ok = a[0]==0 and b[0]!=0 and not missing
    print(i, "COUNTS" if ok else "BAD", "clean:",a[0],"bug:",b[0],"tests missing:",sorted(missing), "check:", chk)
    if not ok: print("clean out:",a[1],"\nbug out:",b[1])
def check(i):
    m=json.load(open(f"{V}/seeded/{i}/meta.json")); p=m["property"].lower()
    r=sh(f"cd {V} && SA_NOEV=1 python3 -m sa.{p}")
    return ("caught" if r.returncode==1 else f"NOT CAUGHT rc={r.returncode}")+" "+r.stdout.strip()[-300:]
if sys.argv[1]=="new":
    i=sys.argv[2]; d=f"{V}/seeded/{i}"; os.makedirs(d,exist_ok=True)
    p=sh(f"git -C {R} diff").stdout; assert p.strip()
    open(d+"/patch.diff","w").write(p); undo(); verify(i)
elif sys.argv[1]=="verify":
    for i in (sys.argv[2:] or sorted(os.listdir(V+"/seeded"))): verify(i)
elif sys.argv[1]=="catch":
    for i in (sys.argv[2:] or sorted(os.listdir(V+"/seeded"))):
        ap=sh(f"git -C {R} apply {V}/seeded/{i}/patch.diff")
        if ap.returncode: print(i,"patch does not apply"); continue
        try: print(i, check(i))
        finally: undo()
