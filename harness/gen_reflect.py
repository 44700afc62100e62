#!/usr/bin/env python3
"""Generates reflect_gen.inc: for every public interface of IMediaRessourceVectorInterface.h a table of
method name -> call-through that converts JSON arguments and results.  Reads the header of the tree under test."""
import re, sys

def strip(src):
    src = re.sub(r"/\*.*?\*/", "", src, flags=re.S)
    return re.sub(r"//[^\n]*", "", src)

def parse(path):
    src = strip(open(path, encoding="utf-8", errors="replace").read())
    classes = {}
    for m in re.finditer(r"class\s+DYNAMIC_ATTRIBUTE\s+(\w+)\s*:\s*public\s+IVWUnknown\s*\{", src):
        name = m.group(1)
        depth, i = 1, m.end()
        while depth:
            depth += {"{": 1, "}": -1}.get(src[i], 0)
            i += 1
        body = src[m.end():i]
        methods = []
        for mm in re.finditer(r"virtual\s+(VCOMError|MvrString|void\s*\*)\s+((?:VectorworksMVR::)?VCOM_CALLTYPE\s+)*(\w+)\s*\(([^;{}]*)\)\s*(const)?\s*=\s*0\s*;", body):
            methods.append((mm.group(1).replace(" ", ""), mm.group(3), mm.group(4).strip()))
        classes[name] = methods
    return classes

def split_args(a):
    out, depth, cur = [], 0, ""
    for c in a:
        if c in "<(": depth += 1
        if c in ">)": depth -= 1
        if c == "," and depth == 0:
            out.append(cur); cur = ""
        else:
            cur += c
    if cur.strip(): out.append(cur)
    return [o.strip() for o in out]

STRUCTS = {"CieColor", "STransformMatrix", "MvrUUID", "STime", "SVector3", "SDmxAdress", "SProtocol", "RGBColor"}

def gen(classes, skip):
    o = []
    w = o.append
    supported = 0
    for c in classes:
        w("template<> struct ClassName<%s> { static const char* get() { return \"%s\"; } };" % (c, c))
    for c, methods in classes.items():
        if c in skip: continue
        seen = {}
        w("static bool call_%s(%s* o, const std::string& m, const json& a, Session& S, json& r) {" % (c, c))
        for ret, name, args in methods:
            if name in ("BindToObject", "GetBoundObject"): continue
            al = split_args(args)
            if any("std::function" in x or "Args" in x or "void*" in x.replace(" ", "").replace("void**","") for x in al): continue
            pre, callargs, post, k, ok = [], [], [], 0, True
            getter = re.match(r"(Get|Has|Is)", name) is not None
            for idx, x in enumerate(al):
                x = x.split("=")[0].strip()
                x = x.replace("VectorworksMVR::", "")
                x = re.sub(r"\s+", " ", x)
                mm = re.match(r"^(const )?([\w:]+?)\s*(const)?\s*(\*\*|\*|&)?\s*(&)?\s*(\w+)?$", x)
                if not mm: ok = False; break
                const, ty, _, ptr, _, an = mm.groups()
                an = an or ""
                if ty.endswith("::"): ty, an = ty + an, ""
                base = ty.split("::")[-1]
                v = "p%d" % idx
                if ptr == "**" and base.startswith("I"):
                    if name.startswith("Set"):
                        pre.append("%s* %s = S.ptr<%s>(a, %d);" % (ty, v, ty, k)); k += 1
                        callargs.append("&" + v)
                    else:
                        pre.append("%s* %s = nullptr;" % (ty, v)); callargs.append("&" + v)
                        post.append("r[\"o\"].push_back(S.reg(rc, %s));" % v)
                elif ptr == "*" and base.startswith("I"):
                    pre.append("%s* %s = S.ptr<%s>(a, %d);" % (ty, v, ty, k)); k += 1; callargs.append(v)
                elif ptr == "**" and base in STRUCTS:
                    pre.append("%s s%d_store; %s* %s = &s%d_store;" % (ty, idx, ty, v, idx)); callargs.append("&" + v)
                    post.append("r[\"o\"].push_back(rc ? json() : enc(*%s));" % v)
                elif ptr == "&" and not const and getter and not an.startswith("at"):
                    pre.append("%s %s = %s;" % (ty, v, "{}" if base != "MvrUUID" else "MvrUUID()")); callargs.append(v)
                    post.append("r[\"o\"].push_back(rc ? json() : enc(%s));" % v)
                elif ptr in ("&", None):
                    pre.append("auto %s = Dec<%s>::get(S, a, %d);" % (v, ty, k)); k += 1; callargs.append(v if not (base == "MvrString") else v)
                elif ptr == "*" and base in ("char",):
                    if name in ("AddBufferToGdtfFile", "AddBufferToMvrFile", "FromBuffer"):
                        pre.append("std::string s%d = Dec<std::string>::get(S, a, %d); char* %s = (char*)s%d.data();" % (idx, k, v, idx)); k += 1; callargs.append(v)
                    else: ok = False; break
                else: ok = False; break
            if not ok:
                continue
            key = name + ("/%d" % k if name in seen else "")
            seen[name] = 1
            call = "o->%s(%s)" % (name, ", ".join(callargs))
            if ret == "VCOMError":
                body = "VCOMError rc = %s; r[\"rc\"] = (int)rc;" % call
            else:
                body = "VCOMError rc = 0; (void)rc; r[\"s\"] = encs(%s);" % call
            w("  if (m == \"%s\") { %s %s %s return true; }" % (key, " ".join(pre), body, " ".join(post)))
            supported += 1
        w("  return false;\n}")
    # dispatch
    w("static bool dispatch(const std::string& cls, IVWUnknown* o, const std::string& m, const json& a, Session& S, json& r) {")
    for c in classes:
        if c in skip: continue
        w("  if (cls == \"%s\") return call_%s(static_cast<%s*>(o), m, a, S, r);" % (c, c, c))
    w("  return false;\n}")
    # bind
    w("static void bindObj(const std::string& cls, IVWUnknown* o, void* t) {")
    for c, ms in classes.items():
        if any(n == "BindToObject" for _, n, _ in ms):
            w("  if (cls == \"%s\") { static_cast<%s*>(o)->BindToObject(t); return; }" % (c, c))
    w("}")
    w("static bool boundObj(const std::string& cls, IVWUnknown* o, void*& t) {")
    for c, ms in classes.items():
        if any(n == "GetBoundObject" for _, n, _ in ms):
            w("  if (cls == \"%s\") { t = static_cast<%s*>(o)->GetBoundObject(); return true; }" % (c, c))
    w("  return false;\n}")
    # meta
    w("static const std::map<std::string, Meta>& meta() { static std::map<std::string, Meta> M = {")
    for c, ms in classes.items():
        if c in skip: continue
        names = {n: (r, split_args(a)) for r, n, a in ms}
        scal, refs, lists, strs = [], [], [], []
        for n, (r, al) in names.items():
            if n == "GetBoundObject": continue
            if n.endswith("Count") and (n[:-5] + "At") in names and len(al) == 1:
                t = names[n[:-5] + "At"]
                if any("**" in x and re.search(r"\bI[A-Z]", x) for x in t[1]):
                    lists.append(n[3:-5])
                continue
            if not re.match(r"(Get|Has|Is)", n): continue
            if n.endswith("At"): continue
            if r == "MvrString" and not al: strs.append(n)
            elif len(al) == 1 and re.search(r"\bI[A-Z]\w*\s*\*\s*\*", al[0]): refs.append(n)
            elif al and all("&" in x and "const" not in x and "MvrString" not in x for x in al): scal.append(n)
            elif len(al) > 1 and re.search(r"\bI[A-Z]\w*\s*\*\s*\*", al[0]) and all("&" in x for x in al[1:]): refs.append(n)
        q = lambda l: "{" + ",".join('"%s"' % x for x in l) + "}"
        w("  {\"%s\", Meta{%s, %s, %s, %s, %s}}," % (c, q(strs), q(scal), q(refs), q(lists), "true" if "GetBoundObject" in names else "false"))
    w("}; return M; }")
    return "\n".join(o) + "\n", supported

if __name__ == "__main__":
    cl = parse(sys.argv[1])
    for c in list(cl):
        if "MVRxchange" in c: del cl[c]
    txt, n = gen(cl, set())
    open(sys.argv[2], "w").write(txt)
    print(len(cl), "interfaces", n, "methods")
