#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current source by abstract interpretation of its MIR.

exit 0: no violation found (every undecided obligation is listed in the evidence);
exit 1: VIOLATION line.  Anything else is an error of the check itself.
"""
import json, os, subprocess, sys, time, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN
import structural

def known():
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                out.append(dict(x.split("=", 1) for x in l.split(" ", 2)[:2]) | {"text": l.split(" ", 2)[2]})
    return out

def analyse(cmd, out):
    """one analyser run; should the analyser itself fail, its entries are rerun one by one and those that fail again are reported undecided"""
    if os.path.exists(out):
        os.unlink(out)
    r = subprocess.run(cmd)
    if r.returncode == 0 and os.path.exists(out):
        return json.load(open(out))["entries"]
    at = cmd.index("-o")
    res = []
    for f in cmd[2:at]:
        if os.path.exists(out):
            os.unlink(out)
        r = subprocess.run(cmd[:2] + [f] + cmd[at:] + ["-j", "2", "-t", "30", "-T", "60"])
        if r.returncode == 0 and os.path.exists(out):
            res += json.load(open(out))["entries"]
        else:
            res.append(dict(entry=f, paths=0, joins=0, steps=0, secs=0.0, incomplete="the analyser failed (exit %d)" % r.returncode, unsup={},
                            checks={"(not analysed)": [0, 0, 1]}, violations=[], undecided=[], fns=[]))
    return res

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t0 = time.time()
    plan = PLAN[prop]
    eng = os.path.join(HERE, "engine")
    if not (os.path.exists(eng + "/dumper/target/debug/dumper") and os.path.exists(eng + "/absint/target/release/absint")):
        subprocess.run(["bash", HERE + "/setup.sh"], check=True)
    os.makedirs(HERE + "/evidence/replay", exist_ok=True)
    work = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    try:
        dump = work + "/dump.json"
        subprocess.run(["bash", eng + "/dump.sh", dump], check=True)
        entries = []
        for run in plan.get(tier) or plan["quick"]:
            out = work + "/out.json"
            cmd = [eng + "/absint/target/release/absint", dump, *run["entries"], "-o", out,
                   "-t", str(run.get("t", 60)), "-p", str(run.get("p", 4000000)), "-j", "8", "-T", str(run.get("T", 600))]
            entries += analyse(cmd, out)
        struct = [f(dump) for f in (structural.RULES[r] for r in plan.get("rules", []))]
    finally:
        shutil.rmtree(work)

    viol, und, kn = [], [], []
    tot = [0, 0, 0]
    per = []
    fns, unsup, incomplete = set(), {}, []
    for e in entries:
        n = [sum(c[i] for c in e["checks"].values()) for i in range(3)]
        if e["unsup"] and sum(n) == 0:
            n[2] = sum(e["unsup"].values())  # reached only by partitions the analyser cannot interpret
        for i in range(3):
            tot[i] += n[i]
        per.append(dict(entry=e["entry"], partitions=e["paths"], joins=e["joins"], steps=e["steps"],
                        discharged=n[0], violated=n[1], undecided=n[2], secs=round(e["secs"], 2),
                        **({"incomplete": e["incomplete"]} if e["incomplete"] else {})))
        fns.update(e["fns"])
        if e["incomplete"]:
            incomplete.append(e["entry"])
        for k, v in e["unsup"].items():
            unsup[k] = unsup.get(k, 0) + v
        for v in e["violations"]:
            if plan.get("only") and not v["check"].startswith(plan["only"]):
                tot[1] -= 1  # a value obligation of another property
                continue
            viol.append(dict(entry=e["entry"], key="%s/%s" % (e["entry"], v["check"]), **v))
        for v in e["undecided"]:
            und.append(dict(entry=e["entry"], check=v["check"], what=v["what"], inputs=v["inputs"], func=v["func"]))
    for s in struct:
        tot[0] += s["discharged"]
        per.append({k: s[k] for k in s if k != "violations"})
        for v in s["violations"]:
            tot[1] += 1
            viol.append(dict(entry=s["rule"], **v))
    if not entries and not struct or tot[0] + tot[1] + tot[2] == 0:
        print("ERROR: nothing was analysed for", prop)
        sys.exit(2)
    ks = [k for k in known() if k.get("property") == prop]
    left = []
    for v in viol:
        m = [k for k in ks if k["key"] == v["key"]]
        if m:
            if m[0] not in kn:
                kn.append(m[0])
        else:
            left.append(v)
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    rc = 0
    if left:
        rp = HERE + "/evidence/replay/%s.json" % prop
        json.dump(left, open(rp, "w"), indent=1)
        for v in left[:8]:
            print("  %s: [%s] %s" % (v["entry"], v["check"], v["what"]))
            print("     in %s (%s:%s)" % (v["func"], v["file"], v["line"]))
            if v.get("inputs"):
                print("     inputs: " + ", ".join("%s=%s" % kv for kv in v["inputs"].items()))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    ev = dict(property=prop, tier=tier, seed=seed, level=plan.get("level", "other"),
              coverage=dict(
                  explanation=plan["explain"],
                  rule="obligation = one check site of the property's reference semantics reached in one abstract state (partition); "
                       "discharged when it holds for every member of the state, violated only with a concrete member verified forward from the inputs",
                  obligations=sum(tot), discharged=tot[0], violated=tot[1], undecided=tot[2],
                  partitions=sum(p.get("partitions", 0) for p in per),
                  functions_analysed=sorted(fns), entries=per,
                  complete=not incomplete and not unsup and tot[2] == 0,
                  incomplete_entries=incomplete, unsupported=unsup, undecided_samples=und[:10]),
              assumptions=["rustc's MIR is what the compiler builds from /repo/src", "the reference semantics in engine/probe/src states the format definitions correctly",
                           "the transfer functions of engine/absint are sound"],
              wall_s=round(time.time() - t0, 2), violations=len(left))
    json.dump(ev, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s %s: %d obligations, %d discharged, %d violated, %d undecided, %d entries%s, %.1fs" % (
        prop, tier, sum(tot), tot[0], tot[1], tot[2], len(per), (", incomplete: " + " ".join(incomplete)) if incomplete else "", time.time() - t0))
    for k, v in unsup.items():
        print("  unsupported: %s (%d)" % (k, v))
    sys.exit(rc)

try:
    main()
except subprocess.CalledProcessError as e:
    print("ERROR: %s failed with exit %d" % (e.cmd[1] if len(e.cmd) > 1 else e.cmd, e.returncode))
    sys.exit(2)
