#!/usr/bin/env python3
"""Development aid: print the exported AST of functions whose name matches."""
import sys
import ir


def ex(e):
    if e is None:
        return "_"
    k = e["k"]
    t = e.get("t", "")
    if k in ("full", "bind", "defarg", "silist"):
        return "%s(%s)" % (k, ex(e["e"]))
    if k == "mat":
        return "mat%s(%s)" % ("!" if "ext" in e else "", ex(e["e"]))
    if k == "int":
        return e["v"]
    if k == "str":
        return repr(bytes.fromhex(e["v"]))
    if k == "ref":
        return "%s%s" % (e["n"], ":" + e["dk"] if e["dk"] not in ("var", "parm") else "") + ("^" if e.get("cap") else "")
    if k == "mem":
        return "%s%s%s" % (ex(e["b"]), "->" if e["arrow"] else ".", e["n"])
    if k == "cast":
        return "<%s %s>(%s)" % (e["ck"], t, ex(e["e"]))
    if k == "call":
        f = e.get("fn")
        n = f["q"] if f else "[" + ex(e.get("callee")) + "]"
        o = ex(e["obj"]) + ("->" if e.get("arrow") else ".") if "obj" in e else ""
        return "%s{%s}(%s)" % (o, n, ", ".join(ex(a) for a in e["args"]))
    if k == "ctor":
        return "ctor%s{%s|%s}(%s)" % ("~" if e.get("elid") else "", e["fn"]["rec"], e["fn"].get("cm"), ", ".join(ex(a) for a in e["args"]))
    if k == "un":
        return "(%s%s%s)" % (e["op"] if not e["post"] else "", ex(e["e"]), e["op"] if e["post"] else "")
    if k == "bin":
        return "(%s %s %s)" % (ex(e["l"]), e["op"], ex(e["r"]))
    if k == "cond":
        return "(%s ? %s : %s)" % (ex(e["c"]), ex(e["a"]), ex(e["b"]))
    if k == "idx":
        return "%s[%s]" % (ex(e["b"]), ex(e["i"]))
    if k == "lambda":
        return "lambda<%s>[%s]" % (e["key"][:40], ", ".join("this" if c.get("this") else ("&" if c["byref"] else "=") + c["n"] + ":" + ex(c["init"]) for c in e["caps"]))
    if k == "new":
        return "new<%s>[%s](%s)(%s)" % (e["at"], ex(e.get("arr")), ",".join(map(ex, e["place"])), ex(e.get("init")))
    if k == "init":
        return "{%s}:%s" % (", ".join(map(ex, e["elts"])), t)
    if k == "del":
        return "delete%s(%s)" % ("[]" if e["arr"] else "", ex(e["e"]))
    return k + (":" + e["cls"] if k == "unk" else "")


def st(s, ind=0):
    p = "  " * ind
    if s is None:
        return
    k = s["k"]
    if k == "expr":
        print(p + ex(s["e"]))
    elif k == "block":
        print(p + "{")
        for x in s["b"]:
            st(x, ind + 1)
        print(p + "}")
    elif k == "decl":
        for v in s["vars"]:
            print(p + "%s %s = %s" % (v["t"], v["n"], ex(v.get("init"))))
    elif k == "ret":
        print(p + "ret " + ex(s.get("e")))
    elif k == "if":
        if "cv" in s:
            print(p + "cv %s %s = %s" % (s["cv"]["t"], s["cv"]["n"], ex(s["cv"].get("init"))))
        print(p + "if " + ex(s["c"]))
        st(s["a"], ind + 1)
        if "b" in s:
            print(p + "else")
            st(s["b"], ind + 1)
    elif k == "loop":
        print(p + "loop " + s["sub"])
        if "cv" in s:
            print(p + " cv %s %s = %s" % (s["cv"]["t"], s["cv"]["n"], ex(s["cv"].get("init"))))
        if "init" in s:
            st(s["init"], ind + 1)
        print(p + " cond " + ex(s.get("c")))
        print(p + " inc " + ex(s.get("inc")))
        st(s["body"], ind + 1)
    elif k == "rfor":
        print(p + "rfor")
        for x in ("range", "begin", "end", "lv"):
            st(s[x], ind + 2)
        print(p + " cond " + ex(s.get("c")))
        print(p + " inc " + ex(s.get("inc")))
        st(s["body"], ind + 1)
    else:
        print(p + k)


if __name__ == "__main__":
    P = ir.extract(ir.src(*sys.argv[1].split(",")), "nlohmann") if not sys.argv[1].startswith("/") else ir.extract([sys.argv[1]])
    for k in sorted(P.fns):
        f = P.fns[k]
        if any(a in f.q or a in k for a in sys.argv[2:]):
            print("==", f.key, f.q, f.kind, ir.posn(f.p))
            print("   params", [(x["n"], x["t"]) for x in f.params], "->", f.ret)
            for i in f.inits:
                print("   init", i.get("f") or i.get("base"), ex(i["e"]))
            st(f.body, 1)
