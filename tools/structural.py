"""Call-graph effect rules over the monomorphised MIR dump."""
import json
from collections import deque

# panic plumbing and format machinery: diverging, or entered only through a `&mut dyn Write` the caller supplies
def leaf(f):
    n = f["name"]
    return f["crate"] == "core" and ("panicking::" in n or n.startswith("core::option::unwrap_failed") or n.startswith("core::result::unwrap_failed"))

def fmt_glue(n):  # code that `format_args!` and derives expand to
    return "fmt::Arguments" in n or "fmt::rt::" in n

def walk_ops(x, out):
    """constant operands (dicts with "k") of a statement or terminator"""
    if isinstance(x, dict):
        if "k" in x and "ty" in x:
            out.append(x)
        else:
            for v in x.values():
                walk_ops(v, out)
    elif isinstance(x, list):
        for v in x:
            walk_ops(v, out)

def gids(v, out):
    if isinstance(v, list):
        if len(v) >= 2 and v[0] == "p" and isinstance(v[1], int):
            out.append(v[1])
        elif len(v) == 2 and v[0] == "fn" and isinstance(v[1], int):
            out.append(("fn", v[1]))
        else:
            for w in v:
                gids(w, out)

def effects(dump):
    d = json.load(open(dump))
    fns, tys, gl = d["fns"], d["types"], d["globals"]
    # types containing a float, through fields (not through pointers)
    memo = {}
    def has_float(t, seen=()):
        if t in memo:
            return memo[t]
        if t in seen:
            return False
        x = tys[t]
        k = x["k"]
        r = False
        s = seen + (t,)
        if k == "float" or (k == "other" and x["s"] in ("f16", "f32", "f64", "f128")) or x["s"] in ("f16", "f32", "f64", "f128"):
            r = True
        elif k in ("array", "slice", "pat"):
            r = has_float(x["e"], s)
        elif k in ("tuple", "closure"):
            r = any(has_float(i, s) for i in x.get("f", []))
        elif k in ("struct", "enum", "union"):
            r = any(has_float(i, s) for v in x.get("v", []) for i in v["f"])
        memo[t] = r
        return r
    cache = {}
    def facts(i):
        """(callees with line, local issues) of one function"""
        if i in cache:
            return cache[i]
        f = fns[i]
        calls, iss = [], []
        own = f["crate"] == "rustc_apfloat"
        file = f.get("file")
        if f.get("foreign"):
            cache[i] = (calls, iss)
            return cache[i]
        for t in f.get("locals", []):
            if has_float(t):
                iss.append(("host floating point", "a value of type %s" % tys[t]["s"], f["line"]))
                break
        for b in f.get("blocks", []):
            ln = b.get("l") or f["line"]
            for st in b["s"]:
                s, l = st[0], st[1]
                if len(st) > 2 and ("rustlib" in st[2] or "/rustc/" in st[2]):  # expanded from a macro of core, alloc
                    if s[0] == "=" and s[2][0] == "unsup" and s[2][1] == "threadlocal":
                        iss.append(("global state", "a thread-local", l))
                    continue
                if s[0] == "=" and s[2][0] == "unsup" and s[2][1] == "threadlocal":
                    iss.append(("global state", "a thread-local", l))
                if own and s[0] == "=" and s[2][0] == "cast" and ("ExposeAddress" in s[2][1] or "ExposeProvenance" in s[2][1]):
                    iss.append(("pointer address observed", "a pointer cast to an integer", l))
                if own and s[0] == "=" and s[2][0] == "cast" and "Transmute" in s[2][1]:
                    iss.append(("unsafe code", "a transmute", l))
                if own and s[0] == "cno":
                    iss.append(("unsafe code", "copy_nonoverlapping", l))
                if own and f["kind"] == "item":
                    raw = deref_raw(f, s)
                    if raw:
                        iss.append(("unsafe code", "a raw pointer dereference", l))
            ks = []
            walk_ops([x[0] for x in b["s"]], ks)
            walk_ops(b["t"], ks)
            todo = []
            for k in ks:
                gids(k["k"], todo)
                if tys[k["ty"]]["k"] == "fndef" and tys[k["ty"]].get("fn") is not None:
                    todo.append(("fn", tys[k["ty"]]["fn"]))
            seen = set()
            while todo:
                g = todo.pop()
                if g in seen:
                    continue
                seen.add(g)
                if isinstance(g, tuple):
                    calls.append((g[1], ln))
                    continue
                x = gl[g]
                if not x:
                    continue
                if x.get("mut"):
                    iss.append(("global state", "the mutable or interior-mutable static %s" % (x.get("static") or "(anonymous)"), ln))
                gids(x["v"], todo)
            t = b["t"]
            if t[0] == "unsup":
                iss.append(("inline assembly", "asm!", ln))
            if t[0] == "drop" and t[3] is not None:
                calls.append((t[3], ln))
            if t[0] == "call" and t[1][0] == "fn":
                c = fns[t[1][1]]
                calls.append((t[1][1], ln))
                if own and c.get("unsafe") and not fmt_glue(c["name"]) and "drop_glue" not in c["name"]:
                    # only a call written in this crate's source (macro glue has foreign spans)
                    if str(b.get("f", "")).endswith((".rs",)) and "/rustc/" not in str(b.get("f", "")) and "rustlib" not in str(b.get("f", "")):
                        iss.append(("unsafe code", "a call of the unsafe function %s" % c["name"], ln))
        cache[i] = (calls, iss)
        return cache[i]
    def deref_raw(f, s):
        def place(p):
            if not (isinstance(p, list) and len(p) == 2 and isinstance(p[0], int) and isinstance(p[1], list)):
                return False
            t = tys[f["locals"][p[0]]] if p[0] < len(f["locals"]) else None
            return bool(p[1]) and p[1][0] == ["*"] and t and t["k"] == "ptr" and t.get("raw")
        def any_place(x):
            if isinstance(x, list):
                if place(x):
                    return True
                return any(any_place(y) for y in x)
            if isinstance(x, dict):
                return any(any_place(y) for y in x.values())
            return False
        # box and slice-length plumbing made by the compiler never uses a user-visible raw pointer here
        return any_place(s)
    viol, done = [], {}
    n_obl = 0
    reach_all = set()
    per = []
    rep = set()
    for name, root in sorted(d["entries"].items()):
        pure = "::C19_pure::" in name
        if not pure and "::C19_text::" not in name:
            continue
        par = {root: None}
        q = deque([root])
        nf = 0
        while q:
            i = q.popleft()
            f = fns[i]
            calls, iss = facts(i)
            in_probe = f["crate"] == "probe"
            if not in_probe:
                nf += 1
                reach_all.add(i)
                n_obl += 6
                rules = list(iss)
                if f["crate"] == "std":
                    rules.append(("std required", "the std function %s" % f["name"], f["line"]))
                if f.get("foreign"):
                    alloc = "__rust_alloc" in f["name"] or "__rust_realloc" in f["name"] or "__rust_dealloc" in f["name"] or "__rust_no_alloc_shim" in f["name"] or "handle_alloc_error" in f["name"]
                    if not alloc:
                        rules.append(("foreign code", "the foreign function %s" % f["name"], f["line"]))
                    elif pure and "dealloc" not in f["name"]:
                        rules.append(("allocation", "the allocator (%s)" % f["name"], f["line"]))
                intr = f.get("intrinsic") or ""
                if intr.startswith("atomic_") or intr.startswith("volatile_"):
                    rules.append(("global state", "the intrinsic %s" % intr, f["line"]))
                if f["kind"] == "llvm":
                    rules.append(("foreign code", "the LLVM intrinsic %s" % f["name"], f["line"]))
                for kind, what, line in rules:
                    # blame the nearest function of the crate on the path
                    chain, j = [], i
                    while j is not None:
                        chain.append(j)
                        j = par[j]
                    own = next((c for c in chain if fns[c]["crate"] == "rustc_apfloat"), chain[-1])
                    key = (kind, fns[own]["name"].split("<")[0], fns[own]["file"], fns[own]["line"])
                    if key in rep:
                        continue
                    rep.add(key)
                    viol.append(dict(check=kind, key="effects/%s" % kind, what="%s is reachable from %s" % (what, name.split("entries::")[-1]),
                                     func=fns[own]["name"], file=fns[own]["file"], line=line if own == i else fns[own]["line"],
                                     path=" <- ".join(fns[c]["name"] for c in chain)))
            if leaf(f):
                continue
            for c, _ in calls:
                if c not in par:
                    par[c] = i
                    q.append(c)
        per.append((name, nf))
    return dict(rule="effect rules over the call graph", discharged=n_obl - len(viol), violations=viol, entry="C19 roots",
                roots=len(per), functions=len(reach_all), crate_functions=len([i for i in reach_all if fns[i]["crate"] == "rustc_apfloat"]),
                per_root={n.split("entries::")[-1]: k for n, k in per})

RULES = {"effects": effects}
