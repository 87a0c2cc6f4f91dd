#!/bin/bash
# dev helper: run1.sh harness.cpp variant mode n [seed]
cd /verif && python3 - "$@" <<'P'
import sys; sys.path.insert(0,'lib')
import vf,subprocess,os,time
h,v,m,n=sys.argv[1:5]; seed=sys.argv[5] if len(sys.argv)>5 else "1"
b=vf.build_many([(h,v)])[(h,v)]
os.makedirs('/tmp/vfs',exist_ok=True)
t=time.time()
rc,out,err=vf.run_proc(b,["--mode",m,"--seed",seed,"--n",n],int(os.environ.get("T","300")),{"VF_SCRATCH":"/tmp/vfs"})
print("rc",rc,"t=%.1f"%(time.time()-t)); print(out[-int(os.environ.get("O","3500")):]); E=int(os.environ.get("E","3000")); print(err[-E:] if E and rc else "")
P
