"""mk.py ID FILE 'old' 'new' [FILE old new...]  writes seeded/ID/patch.diff"""
import sys, subprocess, os, shutil, tempfile
id=sys.argv[1]; a=sys.argv[2:]
d=tempfile.mkdtemp(); subprocess.check_call(["git","clone","-q","/repo",d+"/r"])
for i in range(0,len(a),3):
    p=d+"/r/"+a[i]; s=open(p).read(); o,n=a[i+1],a[i+2]
    if s.count(o)!=1: print("MATCHES",s.count(o),repr(o)); sys.exit(1)
    open(p,"w").write(s.replace(o,n))
out=subprocess.check_output(["git","-C",d+"/r","diff"],text=True)
os.makedirs("/verif/seeded/"+id,exist_ok=True)
open("/verif/seeded/"+id+"/patch.diff","w").write(out); shutil.rmtree(d)
