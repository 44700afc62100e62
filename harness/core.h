// Reflection harness over the public interface of libMVRgdtf: shared by every replay driver.
#pragma once
#include "Include/VectorworksMVR.h"
#include "mvrxchange/json.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <functional>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>

using namespace VectorworksMVR;
using json = nlohmann::ordered_json;

// ---- encoding: every scalar becomes a string (TLC integers are 32 bit) -----------------------------
inline std::string num(double d) { if (d == 0) d = 0; char b[64]; snprintf(b, sizeof b, "%.10g", d); return b; }
inline json encs(const char* s) { if (!s) return json("<null>"); return json(std::string(s)); }
inline std::string encs1(bool b) { return b ? "true" : "false"; }
template<class T, class E = void> struct Enc { static json e(const T& v) { return json(std::to_string((long long)v)); } };
template<> struct Enc<bool> { static json e(bool v) { return v ? "true" : "false"; } };
template<> struct Enc<double> { static json e(double v) { return num(v); } };
template<> struct Enc<unsigned long> { static json e(unsigned long v) { return std::to_string(v); } };
template<> struct Enc<unsigned long long> { static json e(unsigned long long v) { return std::to_string(v); } };
template<> struct Enc<CieColor> { static json e(const CieColor& c) { return num(c.fx) + "," + num(c.fy) + "," + num(c.f_Y); } };
template<> struct Enc<SVector3> { static json e(const SVector3& c) { return num(c.x) + "," + num(c.y) + "," + num(c.z); } };
template<> struct Enc<STransformMatrix> { static json e(const STransformMatrix& m) {
    const double* d = &m.ux; std::string s; for (int i = 0; i < 12; i++) { if (i) s += ","; s += num(d[i]); } return s; } };
template<> struct Enc<MvrUUID> { static json e(const MvrUUID& u) { char b[64]; snprintf(b, sizeof b, "%08x%08x%08x%08x", u.a, u.b, u.c, u.d); return b; } };
template<> struct Enc<STime> { static json e(const STime& t) { char b[64]; snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d", t.fYear, t.fMonth, t.fDay, t.fHour, t.fMinute, t.fSecond); return b; } };
template<> struct Enc<SDmxAdress> { static json e(const SDmxAdress& a) { return std::to_string(a.fBreakId) + ":" + std::to_string(a.fAbsuluteAdress); } };
inline std::string safes(const char* s) { return s ? s : "<null>"; }
template<> struct Enc<SProtocol> { static json e(const SProtocol& p) { return safes(p.fGeometry) + "|" + safes(p.fName) + "|" + safes(p.fType) + "|" + safes(p.fVersion) + "|" + std::to_string((int)p.fTransmision); } };
template<> struct Enc<RGBColor> { static json e(const RGBColor& c) { return std::to_string(c.r) + "," + std::to_string(c.g) + "," + std::to_string(c.b); } };
template<> struct Enc<std::function<void(bool&)>> { static json e(const std::function<void(bool&)>&) { return nullptr; } };
template<class T> json enc(const T& v) { return Enc<T>::e(v); }

template<class T> struct ClassName { static const char* get() { return "?"; } };
struct Meta { std::vector<std::string> strs, scal, refs, lists; bool bind; };

struct Obj { std::string cls; IVWUnknown* p; };
struct Session {
    std::vector<Obj> objs;                        // 1-based handles
    std::map<std::string, size_t> names;
    std::map<size_t, std::string> keep;            // strings handed to the library
    std::vector<std::string*> strings;
    std::string home;
    template<class T> json reg(VCOMError rc, T* p) {
        if (rc != kVCOMError_NoError || !p) return json();
        objs.push_back({ClassName<T>::get(), p});
        return (unsigned)objs.size();
    }
    Obj* find(const json& v) {
        if (v.is_string()) { std::string s = v; if (s.size() && s[0] == '@') { auto it = names.find(s.substr(1)); if (it != names.end() && it->second) return &objs[it->second - 1]; } return nullptr; }
        if (v.is_number()) { size_t i = v; if (i >= 1 && i <= objs.size()) return &objs[i - 1]; }
        return nullptr;
    }
    template<class T> T* ptr(const json& a, size_t k) {
        if (k >= a.size()) return nullptr;
        Obj* o = find(a[k]); return o ? static_cast<T*>(o->p) : nullptr;
    }
    const char* str(const std::string& s) { strings.push_back(new std::string(s)); return strings.back()->c_str(); }
    void clear() { for (size_t i = objs.size(); i-- > 0;) if (objs[i].p) objs[i].p->Release(); objs.clear(); names.clear(); }
};
inline std::string subst(Session& S, std::string s) { size_t p; while ((p = s.find("$HOME")) != std::string::npos) s.replace(p, 5, S.home); return s; }
inline std::string unsubst(Session& S, std::string s) { size_t p; if (S.home.empty()) return s; while ((p = s.find(S.home)) != std::string::npos) s.replace(p, S.home.size(), "$HOME"); return s; }

inline std::string tos(const json& v) { if (v.is_string()) return v.get<std::string>(); if (v.is_null()) return ""; if (v.is_boolean()) return v.get<bool>() ? "1" : "0"; return v.dump(); }
inline std::vector<double> nums(const std::string& s) { std::vector<double> r; std::string c; for (char ch : s + ",") { if (ch == ',') { r.push_back(atof(c.c_str())); c.clear(); } else c += ch; } return r; }
inline const json& at(const json& a, size_t k) { static json n; return k < a.size() ? a[k] : n; }
template<class T> struct Dec { static T get(Session&, const json& a, size_t k) {
    std::string s = tos(at(a, k)); if (s == "true") return (T)1; if (s == "false") return (T)0;
    if (s.size() && s[0] == '-') return (T)strtoll(s.c_str(), nullptr, 10); return (T)strtoull(s.c_str(), nullptr, 10); } };
template<> struct Dec<double> { static double get(Session&, const json& a, size_t k) { return atof(tos(at(a, k)).c_str()); } };
template<> struct Dec<bool> { static bool get(Session&, const json& a, size_t k) { std::string s = tos(at(a, k)); return s == "true" || s == "1"; } };
template<> struct Dec<const char*> { static const char* get(Session& S, const json& a, size_t k) { return S.str(subst(S, tos(at(a, k)))); } };
template<> struct Dec<std::string> { static std::string get(Session& S, const json& a, size_t k) { return tos(at(a, k)); } };
template<> struct Dec<CieColor> { static CieColor get(Session&, const json& a, size_t k) { auto n = nums(tos(at(a, k))); n.resize(3); CieColor c; c.fx = n[0]; c.fy = n[1]; c.f_Y = n[2]; return c; } };
template<> struct Dec<SVector3> { static SVector3 get(Session&, const json& a, size_t k) { auto n = nums(tos(at(a, k))); n.resize(3); SVector3 c; c.x = n[0]; c.y = n[1]; c.z = n[2]; return c; } };
template<> struct Dec<STransformMatrix> { static STransformMatrix get(Session&, const json& a, size_t k) { auto n = nums(tos(at(a, k))); STransformMatrix m{1,0,0,0,1,0,0,0,1,0,0,0}; if (n.size() == 12) for (int i = 0; i < 12; i++) (&m.ux)[i] = n[i]; return m; } };
inline MvrUUID uuidOf(const std::string& s) { MvrUUID u; unsigned v[4] = {0,0,0,0}; if (s.size() == 32) sscanf(s.c_str(), "%8x%8x%8x%8x", v, v+1, v+2, v+3); u.a = v[0]; u.b = v[1]; u.c = v[2]; u.d = v[3]; return u; }
template<> struct Dec<MvrUUID> { static MvrUUID get(Session&, const json& a, size_t k) { return uuidOf(tos(at(a, k))); } };
template<> struct Dec<STime> { static STime get(Session&, const json& a, size_t k) { STime t{}; int v[6] = {0,0,0,0,0,0}; sscanf(tos(at(a, k)).c_str(), "%d-%d-%dT%d:%d:%d", v,v+1,v+2,v+3,v+4,v+5); t.fYear=v[0]; t.fMonth=v[1]; t.fDay=v[2]; t.fHour=v[3]; t.fMinute=v[4]; t.fSecond=v[5]; return t; } };
template<> struct Dec<SProtocol> { static SProtocol get(Session& S, const json& a, size_t k) { std::string s = tos(at(a, k)); std::vector<std::string> f; std::string c; for (char ch : s + "|") { if (ch == '|') { f.push_back(c); c.clear(); } else c += ch; } f.resize(5); SProtocol p; p.fGeometry = S.str(f[0]); p.fName = S.str(f[1]); p.fType = S.str(f[2]); p.fVersion = S.str(f[3]); p.fTransmision = (GdtfDefines::ETransmissionType)atoi(f[4].c_str()); return p; } };
template<> struct Dec<RGBColor> { static RGBColor get(Session&, const json& a, size_t k) { auto n = nums(tos(at(a, k))); n.resize(3); RGBColor c; c.r = n[0]; c.g = n[1]; c.b = n[2]; return c; } };
