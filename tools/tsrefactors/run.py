import sys,os,subprocess,shutil,time
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__))) # usage: run.py batch_t V01,V02,... (copies /repo, applies the batch, runs the checks on the copy)
import importlib
def prep(edits,dst):
    subprocess.run(["rm","-rf",dst]); subprocess.run(["cp","-a","--reflink=auto","/repo",dst]) 
    for f,a,b in edits:
        p=dst+"/"+f;s=open(p).read()
        if s.count(a)!=1: print("PATCH?",f,s.count(a),a[:60]); continue
        open(p,"w").write(s.replace(a,b))
mod=importlib.import_module(sys.argv[1])
dst="/tmp/ts/repo_"+sys.argv[1]
prep(mod.T,dst)
for i in sys.argv[2].split(","):
    t=time.time()
    r=subprocess.run(["python3","/verif/check.py",i,"-v"],env=dict(os.environ,REPO=dst),capture_output=True,text=True)
    out=r.stdout.splitlines()
    bad=[l for l in out if "undecided" in l.lower() or "VIOLATION" in l or "mismatch" in l]
    print(i,r.returncode,round(time.time()-t),"\n  ".join([out[-1] if out else r.stderr[-500:]]+[l[:300] for l in out if l.startswith(("V0","VIOL","KNOWN"))]+bad[:12]))
