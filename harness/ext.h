// Operations beyond the reflected COM interface: files inside the case's own scratch HOME.
#pragma once
#include "core.h"
#include <dirent.h>
static std::string hexs(const std::string& b) { static const char* d = "0123456789abcdef"; std::string s; for (unsigned char c : b) { s += d[c >> 4]; s += d[c & 15]; } return s; }
static std::string unhex(const std::string& h) { std::string s; for (size_t i = 0; i + 1 < h.size(); i += 2) s += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16); return s; }
static bool slurp(const std::string& p, std::string& out) { std::ifstream f(p, std::ios::binary); if (!f) return false; out.assign(std::istreambuf_iterator<char>(f), {}); return true; }
static void lsdir(const std::string& d, const std::string& rel, json& out) {
    DIR* D = opendir(d.c_str()); if (!D) return; std::vector<std::string> v; while (dirent* e = readdir(D)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); } closedir(D);
    std::sort(v.begin(), v.end());
    for (auto& n : v) { struct stat st; std::string p = d + "/" + n; if (lstat(p.c_str(), &st)) continue; std::string r = rel.empty() ? n : rel + "/" + n; if (S_ISDIR(st.st_mode)) { out.push_back(r + "/"); lsdir(p, r, out); } else out.push_back(r); }
}
static void mkdirs(const std::string& p) { for (size_t i = 1; i < p.size(); i++) if (p[i] == '/') mkdir(p.substr(0, i).c_str(), 0700); }
// what a reader hands out as files: path -> content now on disk
static std::string sig(const std::string& b) { uint32_t c = ~0u; for (unsigned char x : b) { c ^= x; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1))); } char o[48]; snprintf(o, sizeof o, "%zu:%08x", b.size(), ~c); return o; }
static std::string pathOf(const json& r) { return r.contains("s") ? tos(r["s"]) : std::string("<null>"); }
static json fileAt(Session& S, const std::string& p) { std::string b; struct stat st; bool ok = p.size() && stat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode) && slurp(p, b); return json{{"path", unsubst(S, p)}, {"ok", ok}, {"sig", sig(b)}}; }
#ifndef VH_NO_COM
static json callExt(Session& S, Obj o, const std::string& m, const json& a) { json r = json::object(); if (!dispatch(o.cls, o.p, m, a, S, r)) return json::object(); return r; }
#endif
static std::map<std::string, std::string>& blobs() { static std::map<std::string, std::string> b; return b; }
static bool extOp(Session& S, const json& op, std::function<void(json)> log) {
    std::string k = op["op"]; std::string ev = op.value("ev", k);
    if (k == "slurp") { std::string b; bool ok = slurp(subst(S, op["path"]), b); log({{"ev", ev}, {"ok", ok}, {"hex", hexs(b)}}); return true; }
    if (k == "put") { std::string p = subst(S, op["path"]); mkdirs(p); std::ofstream f(p, std::ios::binary); f << unhex(op["hex"]); return true; }
    if (k == "mkdir") { std::string p = subst(S, op["path"]); mkdirs(p + "/"); return true; }
    if (k == "rm") { unlink(subst(S, op["path"]).c_str()); return true; }
    if (k == "ls") { json o = json::array(); lsdir(subst(S, op["path"]), "", o); log({{"ev", ev}, {"files", o}}); return true; }
    if (k == "snap") { json o = json::array(), f = json::object(); std::string d = subst(S, op["path"]); lsdir(d, "", o); for (auto& x : o) { std::string n = x, b; if (n.back() != '/') slurp(d + "/" + n, b); f[n] = sig(b); } log({{"ev", ev}, {"files", f}}); return true; }
    if (k == "mark") { json e = op; e["ev"] = ev; e.erase("op"); log(e); return true; }
#ifndef VH_NO_COM
    if (k == "addbuf") {
        Obj* o = S.find(op["on"]); if (!o) { log({{"ev", ev}, {"rc", -1}}); return true; } std::string b = unhex(op["hex"]), n = op["name"]; int rc;
        char* own = new char[b.size() + 1]; memcpy(own, b.data(), b.size());
        if (o->cls == "IGdtfFixture") rc = static_cast<IGdtfFixture*>(o->p)->AddBufferToGdtfFile(n.c_str(), own, b.size(), (GdtfDefines::ERessourceType)op.value("type", 0));
        else rc = static_cast<IMediaRessourceVectorInterface*>(o->p)->AddBufferToMvrFile(n.c_str(), own, b.size());
        memset(own, 'x', b.size()); delete[] own; log({{"ev", ev}, {"rc", rc}}); return true;                            // the caller's buffer is its own again
    }
    if (k == "attached") {
        Obj* o = S.find(op["on"]); json files = json::array(); std::string past = "?"; if (!o) { log({{"ev", ev}, {"rc", -1}}); return true; }
        bool mvr = o->cls == "IMediaRessourceVectorInterface"; Obj me = *o;
        json c = callExt(S, me, mvr ? "GetAttachedFileCount" : "GetImageRessourcesCount", json::array()); size_t n = c.value("rc", 1) == 0 ? std::stoul(tos(c["o"][0])) : 0;
        const char* at = mvr ? "GetAttachedFileCountAt" : "GetImageRessourcesPathAt";
        for (size_t i = 0; i < n; i++) files.push_back(fileAt(S, pathOf(callExt(S, me, at, json::array({std::to_string(i)})))));
        past = pathOf(callExt(S, me, at, json::array({std::to_string(n)}))) + pathOf(callExt(S, me, at, json::array({std::to_string(n + 1000)})));
        log({{"ev", ev}, {"rc", c.value("rc", 1)}, {"files", files}, {"past", past}}); return true;
    }
    if (k == "tobuf") {
        Obj* o = S.find(op["on"]); json e = {{"ev", ev}, {"rc", -1}}; if (!o) { log(e); return true; }
        IGdtfFixture* f = static_cast<IGdtfFixture*>(o->p); size_t n = 0; VCOMError rc = f->GetBufferLength(n); std::string b(n, 0);
        if (rc == 0) rc = f->ToBuffer(&b[0]); e["rc"] = (int)rc; e["hex"] = hexs(b); blobs()[op["as"]] = b; log(e); return true;
    }
    if (k == "frombuf") {
        Obj* o = S.find(op["on"]); json e = {{"ev", ev}, {"rc", -1}}; if (!o) { log(e); return true; }
        std::string b = op.contains("hex") ? unhex(op["hex"]) : blobs()[op["from"]]; char* own = new char[b.size()]; memcpy(own, b.data(), b.size());           // an exactly sized buffer of the caller's
        e["rc"] = (int)static_cast<IGdtfFixture*>(o->p)->FromBuffer(own, b.size()); memset(own, 'x', b.size()); delete[] own; log(e); return true;
    }
    if (k == "view") {
        Obj* o = S.find(op["on"]); json e = {{"ev", ev}, {"m", op["m"]}, {"file", json{{"ok", false}, {"sig", ""}, {"path", "<none>"}}}}; if (!o) { log(e); return true; }
        e["file"] = fileAt(S, pathOf(callExt(S, *o, op["m"], json::array()))); log(e); return true;
    }
    if (k == "modelbufs") {
        Obj* o = S.find(op["on"]); if (!o) { log({{"ev", ev}, {"m", "none"}, {"file", json{{"ok", false}, {"sig", ""}}}}); return true; } IGdtfModel* m = static_cast<IGdtfModel*>(o->p);
        auto one = [&](const char* name, VCOMError rc, void* p, size_t n) { log({{"ev", ev}, {"m", name}, {"file", json{{"ok", rc == 0 && p != nullptr}, {"sig", p ? sig(std::string((char*)p, n)) : ""}}}}); delete[] (char*)p; };
        { void* p = nullptr; size_t n = 0; VCOMError rc = m->GetBuffer3DS(&p, n); one("Buffer3DS", rc, p, n); }
        { void* p = nullptr; size_t n = 0; VCOMError rc = m->GetBufferSVG(&p, n); one("BufferSVG", rc, p, n); }
        { void* p = nullptr; size_t n = 0; VCOMError rc = m->GetBufferGLTF(&p, n); one("BufferGLTF", rc, p, n); }
        return true;
    }
#endif
    return false;
}
