"""camp.py CASES.py [filter]: run checks on scratch copies of /repo, one per case, in parallel (no build, no tests of CGMF).
CASES.py defines CASES = [(name, "C01,C02", expected 0/1/None, [(file, old, new), ...])]."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
env = {}
exec(open(sys.argv[1]).read(), env)
cases = [c for c in env["CASES"] if len(sys.argv) < 3 or any(f in c[0] for f in sys.argv[2:])]


def run(c):
    name, checks, exp, edits = c
    d = tempfile.mkdtemp(prefix="camp"); r = d + "/r"
    shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("_build*", ".git", "data", "doc*"))
    os.symlink("/repo/data", r + "/data")
    out = []
    try:
        for f, o, n in edits:
            s = open(r + "/" + f).read()
            if s.count(o) < 1:
                return (c, "NOMATCH %r" % o[:60], [])
            if s.count(o) > 1:
                out.append("  (matches %d)" % s.count(o))
            open(r + "/" + f, "w").write(s.replace(o, n, 1))
        rcs = {}
        for k in checks.split(","):
            e = dict(os.environ, CGMF_REPO=r, CGMF_EVIDENCE=d)
            p = subprocess.run([sys.executable, "/verif/check.py", k], env=e, capture_output=True, text=True)
            rcs[k] = p.returncode
            ls = [x for x in p.stdout.splitlines() if not x.startswith(("KNOWN", "property=", "VIOLATION"))]
            if p.returncode == 2:
                ls += p.stderr.splitlines()[-3:]
            if p.returncode or ls:
                out += ["  %s: %s" % (k, x.strip()[:230]) for x in ls[:4]]
        got = 1 if 1 in rcs.values() else 2 if 2 in rcs.values() else 0
        return (c, "ok" if got == exp else "DIFFERS got %s" % rcs, out)
    finally:
        shutil.rmtree(d)


bad = 0
with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
    for c, st, out in ex.map(run, cases):
        if st != "ok":
            bad += 1
        if st != "ok" or os.environ.get("V"):
            print("%-9s %-28s %-10s %s" % (st[:60], c[0], c[1][:10], "exp %s" % c[2]))
            for o in out[:int(os.environ.get("L", "4"))]:
                print(o)
            sys.stdout.flush()
print("%d cases, %d not as expected" % (len(cases), bad))
