"""Splits the queries of a rejected session into single-query traces and prints the rejected ones."""
import json, sys, os
sys.path[:0] = ["/verif/lib", "/verif/checks"]
import vf
rp, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 0
v = json.load(open(rp))["violations"][n]
c = vf.Check("SPLIT")
tr = v["trace"]
l = v["first_unexplained_event"] - 1
ev = tr[l]
print("op", ev["op"], "index", l)
key = "q"
if key not in ev:
    print(json.dumps(ev)[:3000]); sys.exit()
ts = [{"ev": tr[:l] + [dict(ev, **{key: [q]})], "cfg": v["session"].get("cfg", {"x": 0})} for q in ev[key]]
rej = c.validate(v["module"], ts)
for i, k in rej[:8]:
    print(i, json.dumps(ev[key][i]))
import shutil; shutil.rmtree(c.run_dir)
