import json,sys
for v in json.load(open(sys.argv[1]))["violations"][:int(sys.argv[2]) if len(sys.argv)>2 else 8]:
    s=v["session"]; print("--",v["what"]); print(json.dumps(s["cs"])[:700]); print(repr(s["files"][0]["text"])[:300]); print("  event", json.dumps(v["event"])[:600])
