import json,sys
d=json.load(open(sys.argv[1]))
n=int(sys.argv[2]) if len(sys.argv)>2 else 3
for v in d["violations"][:n]:
    l=v["first_unexplained_event"]
    print("=== rejected at",l,"of",len(v["trace"]))
    for e in v["trace"][max(0,l-3):l]:
        e=dict(e); e.pop("res",None)
        s=e.pop("snap",[])
        print(json.dumps(e)[:1500])
        for x in s: print("    ", x["p"],x["i"],x["k"],x["t"],x["refs"],x["self"],x["nameok"])
