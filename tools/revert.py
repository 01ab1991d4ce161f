import subprocess,sys,os,shutil,re
M="""affa759 C10
ec6cfa4 C10
c56cd97 C10
51d3a00 C01
a274d62 C08
d951969 C08
e00fbf0 C08
4681272 C18
fd32a0c C04
674101a C05
ec766ea C09
1ada0d8 C12
5e39482 C03
57755be C14
61eaac2 C02
f2d134d C14
b8b2c28 C08
5387276 C08
a80f1ec C04
6b5e05e C06
5e3d165 C06
41533a2 C08
5a29cd4 C09
f0b8de4 C08
8f152b3 C10
82f6a42 C10
8c83d75 C10
8565b7d C01
b23e1e9 C08
fd72a74 C10
5e99700 C06
385427c C01
aae3709 C10"""
sel=sys.argv[1:]
for l in M.splitlines():
    c,p=l.split()
    if sel and c not in sel: continue
    d="/tmp/verif_rv"
    shutil.rmtree(d,ignore_errors=True)
    subprocess.run(["cp","-a","/repo",d]); 
    r=subprocess.run(["git","-C",d,"revert","--no-commit",c],capture_output=True,text=True)
    if r.returncode:
        print(c,p,"CONFLICT",r.stderr[:200].replace("\n"," ")); continue
    e=dict(os.environ,VERIF_REPO=d)
    t=subprocess.run(["./check",p,"--no-evidence"],cwd="/verif",env=e,capture_output=True,text=True)
    o=t.stdout
    print(c,p,"rc",t.returncode,[x for x in o.splitlines() if "VIOLATION" in x][:1], [x[:160] for x in o.splitlines() if "violation" in x.lower()][:2],flush=True)
shutil.rmtree("/tmp/verif_rv",ignore_errors=True)
