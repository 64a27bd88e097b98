"""Mutation sweep: mut.py LIST.py [name...]; each entry (name, check, file, old, new). Runs the quick check on a changed copy."""
import sys, os, subprocess, shutil, importlib.util, concurrent.futures as F, time
spec = importlib.util.spec_from_file_location("l", sys.argv[1]); L = importlib.util.module_from_spec(spec); spec.loader.exec_module(L)
V = os.environ.get("V", "/verif")
base = os.environ.get("BASE", "/repo"); J = int(os.environ.get("J", "1"))


def run(m):
    name, checks, f, old, new = m[:5]
    d = "/tmp/mut/" + name
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", base, d]); shutil.rmtree(d + "/_build", ignore_errors=True)
    for ff, o, n in ([(f, old, new)] + list(m[5:])):
        p = os.path.join(d, ff)
        s = open(p, newline="").read()
        if "\r\n" in s: o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
        if s.count(o) < 1:
            return "%s: NO MATCH %d" % (name, s.count(o))
        s = s.replace(o, n, 1)
        open(p, "w", newline="").write(s)
    out = []
    for c in checks.split():
        t = time.time()
        r = subprocess.run(["python3", V + "/check.py", c, "quick"], cwd=V, env=dict(os.environ, VF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        tx = r.stdout.decode(errors="replace")
        open("/tmp/mut/%s.%s.log" % (name, c), "w").write(tx)
        out.append("%s %s rc=%d %s (%.0fs)" % (name, c, r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION" in tx else "missed" if r.returncode == 0 else "ERROR", time.time() - t))
    shutil.rmtree(d, ignore_errors=True)
    return "\n".join(out)


ms = [m for m in L.M if len(sys.argv) < 3 or m[0] in sys.argv[2:]]
with F.ThreadPoolExecutor(J) as ex:
    for o in ex.map(run, ms):
        print(o, flush=True)
