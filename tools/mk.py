import os, subprocess, json, sys, shutil
def bug(id, prop, edits, demo, needs, what):
    V=os.environ.get("VDIR","/verif"); d=f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    w="/tmp/mkwt"
    if not os.path.exists(w): subprocess.run(["git","clone","-q","/repo",w],check=True)
    subprocess.run(f"cd {w} && git fetch -q && git checkout -q -- . && git reset -q --hard {subprocess.check_output(['git','-C','/repo','rev-parse','HEAD'],text=True).strip()}",shell=True,check=True)
    for f,o,n in edits:
        p=f"{w}/{f}"; s=open(p,newline="").read()
        if "\r\n" in s: o=o.replace("\n","\r\n"); n=n.replace("\n","\r\n")
        assert s.count(o)==1,(id,f,o,s.count(o)); open(p,"w",newline="").write(s.replace(o,n))
    open(d+"/patch.diff","wb").write(subprocess.check_output(["git","-C",w,"diff"]))
    open(d+"/demo.cpp","w").write(demo.strip()+"\n"); shutil.copy(V+"/tools/demo_template.sh",d+"/demo.sh"); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":what},open(d+"/meta.json","w"),indent=1)
S="src/gwmodelpp/"; H="include/gwmodelpp/"
PRE='''#include "gwmodel.h"
#include <cstdio>
using namespace gwm; using namespace arma;
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-6 * (1 + std::fabs(b)); }
'''
