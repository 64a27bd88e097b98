"""rej.py REPLAY.json: one line per violation of a replay file"""
import json, sys
for v in json.load(open(sys.argv[1]))["violations"]:
    ops = [e["op"] for e in v["trace"][:v["first_unexplained_event"]]]
    done = ops.count("Done")
    s = v["session"]
    print("--", json.dumps(s.get("prims", ""))[:200], "| op", json.dumps(s["ops"][done] if "ops" in s and done < len(s["ops"]) else None)[:300])
    print("   event", v["first_unexplained_event"], json.dumps(v["event"])[:500])
