// Replay driver: reads cases (one JSON object per line: {"case":id,"ops":[...]}) and executes each in a forked child
// with its own HOME; prints one JSON line per observation, in case order.
#include "core.h"
#include "reflect_gen.inc"
#include "ext.h"

static const std::set<std::string> kRefLists = {"IGdtfActivationGroup.Attribute", "IGdtfFeature.Attribute"};
static const std::set<std::string> kOwned = {"IGdtfFixture.GetRDM", "IGdtfFixture.GetArtNet", "IGdtfFixture.GetSACN", "IGdtfFixture.GetColorSpace",
    "IGdtfWheelSlot.GetAnimationSystem", "IGdtfMacro.GetMacroDMX", "IGdtfMacro.GetMacroVisual",
    "IMappingDefinition.GetSource", "ISceneObj.GetVideoScreenSource", "ISceneObj.GetProjectorSource"};
static const std::set<std::string> kSkip = {"IGdtfFixture.GetBufferLength"};

static json callj(Session& S, Obj o, const std::string& m, const json& a) { json r = json::object(); if (!dispatch(o.cls, o.p, m, a, S, r)) return json(); return r; }
static std::string field(const std::string& m) { return m.compare(0, 3, "Get") == 0 ? m.substr(3) : m; }
static std::string cleanStr(Session& S, const json& j) { return unsubst(S, tos(j)); }

struct Node { size_t h; int parent; std::string coll; };
struct Dumper {
    Session& S; std::vector<Node> nodes; std::map<int, json> ser;
    bool paths = false;
    Dumper(Session& s) : S(s) {}
    void children(int me) {
        Obj o = S.objs[nodes[me - 1].h - 1];
        auto it = meta().find(o.cls); if (it == meta().end()) return;
        const Meta& M = it->second;
        auto add = [&](const json& handle, const std::string& coll) {
            if (!handle.is_number()) return;
            size_t h = handle; nodes.push_back({h, me, coll}); int id = (int)nodes.size();
            bindObj(S.objs[h - 1].cls, S.objs[h - 1].p, (void*)(uintptr_t)id);
            children(id);
        };
        std::set<std::pair<std::string, bool>> order;   // collections in alphabetical order, independent of the header's order
        for (auto& l : M.lists) order.insert({l, false});
        for (auto& g : M.refs) if (kOwned.count(o.cls + "." + g)) order.insert({field(g), true});
        for (auto& e : order) {
            const std::string& l = e.first;
            if (e.second) { json r = callj(S, o, "Get" + l, json::array()); if (r.value("rc", 1) == 0 && r["o"].size() && real(r["o"][0])) add(r["o"][0], l); continue; }
            if (kRefLists.count(o.cls + "." + l)) continue;
            json c = callj(S, o, "Get" + l + "Count", json::array()); if (c.value("rc", 1) != 0) continue;
            size_t n = std::stoul(tos(c["o"][0]));
            for (size_t i = 0; i < n; i++) { json r = callj(S, o, "Get" + l + "At", json::array({std::to_string(i)})); if (r.contains("o") && r["o"].size() && r["o"][0].is_number()) add(r["o"][0], l); }
        }
    }
    // an ISource handed out for an object without a source has no type
    bool real(const json& h) { if (!h.is_number()) return false; Obj o = S.objs[h.get<size_t>() - 1]; if (o.cls != "ISource") return true; return callj(S, o, "GetType", json::array()).value("rc", 1) == 0; }
    bool applicable(const Obj& o, const std::string& m) {
        if (o.cls != "IGeometryReference" || (m != "GetFileForGeometry" && m != "GetSymDef")) return true;
        json r = callj(S, o, "GetIsSymbol", json::array()); bool sym = r.value("rc", 1) == 0 && tos(r["o"][0]) == "true";
        return sym == (m == "GetSymDef");
    }
    std::string ref(const json& h) {
        if (!h.is_number()) return "-";
        Obj o = S.objs[h.get<size_t>() - 1]; void* t = nullptr;
        if (boundObj(o.cls, o.p, t)) return "@" + std::to_string((uintptr_t)t);
        json g = callj(S, o, "GetGuid", json::array()); json n = callj(S, o, "GetName", json::array());
        if (g.contains("o")) return tos(g["o"][0]) + "/" + cleanStr(S, n["s"]);
        if (n.contains("s")) return "/" + cleanStr(S, n["s"]);
        return "?" + o.cls;
    }
    json emit(int id) {
        Obj o = S.objs[nodes[id - 1].h - 1];
        json f = json::object();
        auto it = meta().find(o.cls);
        if (it != meta().end()) {
            const Meta& M = it->second;
            for (auto& m : M.strs) { if (!applicable(o, m)) continue; if (!paths && m.find("FullPath") != std::string::npos) continue; if (kSkip.count(o.cls + "." + m)) continue; json r = callj(S, o, m, json::array()); if (r.contains("s")) f[field(m)] = cleanStr(S, r["s"]); }
            for (auto& m : M.scal) { if (kSkip.count(o.cls + "." + m)) continue; json r = callj(S, o, m, json::array()); if (!r.contains("rc")) continue; if (r["rc"] != 0) f[field(m)] = "!" + tos(r["rc"]); else { std::string s; for (auto& x : r["o"]) s += (s.size() ? "," : "") + tos(x); f[field(m)] = s; } }
            for (auto& m : M.refs) { if (!applicable(o, m)) continue; if (kOwned.count(o.cls + "." + m)) continue; json r = callj(S, o, m, json::array()); if (!r.contains("rc")) continue; if (r["rc"] != 0) f[field(m)] = "!" + tos(r["rc"]); else { std::string s = ref(r["o"][0]); for (size_t k = 1; k < r["o"].size(); k++) s += "," + tos(r["o"][k]); f[field(m)] = s; } }
            for (auto& l : M.lists) if (kRefLists.count(o.cls + "." + l)) {
                json c = callj(S, o, "Get" + l + "Count", json::array()); std::string s;
                if (c.value("rc", 1) == 0) { size_t n = std::stoul(tos(c["o"][0])); for (size_t i = 0; i < n; i++) { json r = callj(S, o, "Get" + l + "At", json::array({std::to_string(i)})); s += (s.size() ? " " : "") + (r.contains("o") && r["o"].size() ? ref(r["o"][0]) : std::string("!")); } }
                f[l + "s"] = s;
            }
        }
        special(o, f);
        return json{{"c", o.cls}, {"p", nodes[id - 1].parent}, {"k", nodes[id - 1].coll}, {"f", f}};
    }
    void special(Obj o, json& f) {
        auto list = [&](const char* cnt, const char* at) { std::string s; json c = callj(S, o, cnt, json::array()); if (c.value("rc", 1) == 0) { size_t n = std::stoul(tos(c["o"][0])); for (size_t i = 0; i < n; i++) { json r = callj(S, o, at, json::array({std::to_string(i)})); s += (s.size() ? " " : "") + (r.value("rc", 1) == 0 ? tos(r["o"][0]) : "!" + tos(r["rc"])); } } else s = "!" + tos(c["rc"]); return s; };
        if (o.cls == "ISceneObj") { f["Adresses"] = list("GetAdressCount", "GetAdressAt"); f["Protocols"] = list("GetProtocolsCount", "GetProtocolAt"); }
        if (o.cls == "IGdtfGamut") f["Points"] = list("GetPointCount", "GetPointAt");
        if (o.cls == "ISceneDataProvider") { json c = callj(S, o, "GetKeyValueCount", json::array()); std::string s; size_t n = std::stoul(tos(c["o"][0])); for (size_t i = 0; i < n; i++) { json a = json::array({std::to_string(i)}); s += (s.size() ? "|" : "") + tos(callj(S, o, "GetKeyAt", a)["s"]) + "=" + tos(callj(S, o, "GetValueAt", a)["s"]); } f["KeyValues"] = s; }
        if (o.cls == "IGdtfDmxMode") {
            std::string b = list("GetBreakCount", "GetBreakAt"); f["Breaks"] = b; std::string s, cur;
            for (char ch : b + " ") { if (ch == ' ') { if (cur.size() && cur[0] != '!') { json r = callj(S, o, "GetFootprintForBreak", json::array({cur})); s += (s.size() ? " " : "") + cur + ":" + (r.value("rc", 1) == 0 ? tos(r["o"][0]) : "!" + tos(r["rc"])); } cur.clear(); } else cur += ch; }
            f["Footprints"] = s;
            json c = callj(S, o, "GetBreakCount", json::array()); f["PastBreaks"] = tos(callj(S, o, "GetBreakAt", json::array({tos(c["o"][0])}))["rc"]);
            std::string none; for (const char* x : {"0", "1", "2", "3", "7", "8", "640"}) if ((" " + b + " ").find(" " + std::string(x) + " ") == std::string::npos) { json r = callj(S, o, "GetFootprintForBreak", json::array({x})); none += (none.size() ? " " : "") + tos(r["o"][0]); }
            f["NoFootprints"] = none;
        }
    }
    void sceneTree(Obj root, const json& first, int parent) {
        json cur = first; int guard = 0;
        while (cur.is_number() && guard++ < 100000) {
            size_t h = cur; nodes.push_back({h, parent, "obj"}); int id = (int)nodes.size();
            children(id);
            VCOMPtr<ISceneObj> dummy;
            json ch = callj(S, root, "GetFirstChild", json::array({h})); if (ch.value("rc", 1) == 0 && ch["o"][0].is_number()) sceneTree(root, ch["o"][0], id);
            json nx = callj(S, root, "GetNextObject", json::array({h})); cur = (nx.value("rc", 1) == 0) ? nx["o"][0] : json();
        }
    }
    json run(const std::string& name) {
        size_t h = S.names[name]; Obj o = S.objs[h - 1];
        nodes.push_back({h, 0, "root"}); children(1);
        if (o.cls == "IMediaRessourceVectorInterface") { json fl = callj(S, o, "GetFirstLayer", json::array()); if (fl.value("rc", 1) == 0) sceneTree(o, fl["o"][0], 1); }
        json out = json::array();
        for (int i = 1; i <= (int)nodes.size(); i++) { size_t before = S.objs.size(); out.push_back(emit(i)); (void)before; }
        return out;
    }
};

static void runOp(Session& S, const json& op, std::function<void(json)> log) {
    std::string k = op["op"];
    if (k == "new") {
        IVWUnknown* p = nullptr; std::string i = op["iface"]; VCOMError rc = 1;
        if (i == "MVR") { rc = VWQueryInterface(IID_MediaRessourceVectorInterface, &p); if (!rc) S.objs.push_back({"IMediaRessourceVectorInterface", p}); }
        if (i == "GDTF") { rc = VWQueryInterface(IID_IGdtfFixture, &p); if (!rc) S.objs.push_back({"IGdtfFixture", p}); }
        if (i == "UTIL") { rc = VWQueryInterface(IID_IUtility, &p); if (!rc) S.objs.push_back({"IUtility", p}); }
        S.names[op["as"]] = rc ? 0 : S.objs.size();
        return;
    }
    if (k == "call") {
        Obj* o = S.find(op["on"]);
        json e = {{"ev", op.value("ev", std::string("call"))}, {"m", op["m"]}};
        if (op.contains("i")) e["i"] = op["i"];
        if (!o) { e["rc"] = -1; e["m"] = op["m"]; log(e); return; }
        json r = json::object();
        if (!dispatch(o->cls, o->p, op["m"], op.value("a", json::array()), S, r)) { e["rc"] = -2; log(e); return; }
        if (op.contains("as")) { size_t h = 0; if (r.contains("o")) for (auto& x : r["o"]) if (x.is_number()) h = x; S.names[op["as"]] = h; }
        e["rc"] = r.value("rc", 0);
        if (r.contains("s")) e["s"] = cleanStr(S, r["s"]);
        if (r.contains("o")) { json oo = json::array(); for (auto& x : r["o"]) { if (x.is_number()) { Dumper d(S); oo.push_back(op.value("byref", false) ? d.ref(x) : std::string("obj")); } else oo.push_back(tos(x)); } e["o"] = oo; }
        if (!op.value("quiet", false)) log(e);
        return;
    }
    if (k == "release") { auto it = S.names.find(op["on"].get<std::string>().substr(1)); if (it != S.names.end() && it->second) { Obj& o = S.objs[it->second - 1]; uint32_t n = o.p->Release(); o.p = nullptr; it->second = 0; if (op.contains("ev")) log({{"ev", op["ev"]}, {"n", n}}); } return; }
    if (k == "dump") { Dumper d(S); d.paths = op.value("paths", false); json e = {{"ev", op.value("ev", std::string("dump"))}, {"nodes", d.run(op["on"].get<std::string>().substr(1))}}; log(e); return; }
    if (!extOp(S, op, log)) log({{"ev", "badop"}, {"op", k}});
}

#include "runner.h"
int main(int argc, char** argv) { return caseMain(argc, argv, 30, runOp); }
