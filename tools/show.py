import json,sys
j=json.load(open(sys.argv[1]))
for e in j["entries"]:
    t=[sum(c[i] for c in e["checks"].values()) for i in range(3)]
    print("%-16s %7.2fs paths=%d joins=%d d/v/u=%s%s"%(e["entry"].replace("entries::",""),e["secs"],e["paths"],e["joins"],t," INC "+e["incomplete"] if e["incomplete"] else ""))
    for k,v in list(e["unsup"].items())[:4]: print("    UNSUP",v,k[:200])
    for v in e["violations"][:3]: print("    VIOL",v["check"],v["what"][:200],v["inputs"])
    for v in e["undecided"][:2]: print("    UND",v["check"],v["what"][:300],v["func"],v["line"])
