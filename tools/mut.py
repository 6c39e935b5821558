"""mut.py CHECKS FILE old new [FILE old new ...]: run checks on a scratch copy of /repo with one edit each (no build, no test).
With '+' before FILE the edit is combined with the previous one."""
import sys, subprocess, os, shutil, tempfile
checks = sys.argv[1].split(","); a = sys.argv[2:]
d = tempfile.mkdtemp(prefix="mut"); r = d + "/r"
subprocess.check_call(["git", "clone", "-q", "/repo", r])
env = dict(os.environ, CGMF_REPO=r)
i = 0
while i < len(a):
    subprocess.check_call(["git", "-C", r, "checkout", "-q", "."])
    lab = []
    while True:
        f, o, n = a[i].lstrip("+"), a[i + 1], a[i + 2]
        s = open(r + "/" + f).read()
        if s.count(o) != 1:
            print("MATCHES", s.count(o), repr(o)); 
        s = s.replace(o, n, 1); open(r + "/" + f, "w").write(s); lab.append("%s -> %s" % (o[:60], n[:60]))
        i += 3
        if i >= len(a) or not a[i].startswith("+"): break
    for c in checks:
        p = subprocess.run([sys.executable, "/verif/check.py", c], env=env, capture_output=True, text=True)
        out = [l for l in p.stdout.splitlines() if not l.startswith("KNOWN")]
        print(c, p.returncode, " & ".join(lab).replace("\n", "\\n"))
        for l in out[-4:]: print("     ", l[:260])
        sys.stdout.flush()
shutil.rmtree(d)
