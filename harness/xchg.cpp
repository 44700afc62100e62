// MVR-xchange replay driver: packets, sessions over loopback TCP, stations, multicast groups in a network namespace.
#define VH_NO_COM
#include "ext.h"
#include "mvrxchange/mvrxchange_message.h"
#include "mvrxchange/mvrxchange_server.h"
#include "mvrxchange/CMVRxchangeService.h"
#include <thread>
#include <mutex>
#include <atomic>
#include <future>
#include <sys/syscall.h>
#include <condition_variable>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>
#include <sched.h>
#include <fcntl.h>
using Msg = IMVRxchangeService::IMVRxchangeMessage;
using Ty = IMVRxchangeService::MVRxchangeMessageType;
using MVRxchangeNetwork::MVRxchangePacket;

static const std::vector<std::pair<std::string, Ty>> kTypes = {{"UNDEFINED", Ty::MVR_UNDEFINED}, {"JOIN", Ty::MVR_JOIN}, {"LEAVE", Ty::MVR_LEAVE}, {"COMMIT", Ty::MVR_COMMIT}, {"REQUEST", Ty::MVR_REQUEST},
    {"JOIN_RET", Ty::MVR_JOIN_RET}, {"LEAVE_RET", Ty::MVR_LEAVE_RET}, {"COMMIT_RET", Ty::MVR_COMMIT_RET}, {"REQUEST_RET", Ty::MVR_REQUEST_RET}, {"NEW_SESSION_HOST", Ty::MVR_NEW_SESSION_HOST}};
static std::string tname(Ty t) { for (auto& p : kTypes) if (p.second == t) return p.first; return "?" + std::to_string((int)t); }
static Ty tof(const std::string& s) { for (auto& p : kTypes) if (p.first == s) return p.second; return Ty::MVR_UNDEFINED; }
static std::string u2s(const MvrUUID& u) { return Enc<MvrUUID>::e(u); }
static uint64_t n64(const json& o, const char* k) { return strtoull(o.value(k, std::string("0")).c_str(), nullptr, 10); }
static std::string S(const json& o, const char* k) { return o.value(k, std::string()); }
static uint32_t crc(const char* p, size_t n) { static uint32_t T[256]; static bool init = false; if (!init) { for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1; T[i] = c; } init = true; }
    uint32_t c = ~0u; for (size_t i = 0; i < n; i++) c = T[(c ^ (unsigned char)p[i]) & 255] ^ (c >> 8); return ~c; }
static std::string token(const char* p, size_t n) { char b[64]; snprintf(b, sizeof b, "%zu:%08x", n, crc(p, n)); return b; }
// "gen:LEN:SEED" is a reproducible buffer, anything else is hexadecimal
static std::string content(const std::string& s) {
    if (s.compare(0, 4, "gen:")) return unhex(s);
    size_t n = strtoull(s.c_str() + 4, nullptr, 10); unsigned seed = atoi(s.c_str() + s.find(':', 4) + 1);
    std::string r(n, '\0'); for (size_t i = 0; i < n; i++) r[i] = (char)((i * 31 + (i >> 8) * 17 + seed) & 255); return r;
}
static std::string fileOf(const std::string& u) { int a = strtoul(u.substr(0, 2).c_str(), nullptr, 16), b = strtoul(u.substr(2, 2).c_str(), nullptr, 16); return content("gen:" + std::to_string(1 + a * a * 8) + ":" + std::to_string(b)); }
static void commitOf(const json& o, IMVRxchangeService::MVR_COMMIT_MESSAGE& c) {
    c.FileName = S(o, "fname").c_str(); c.Comment = S(o, "comment").c_str(); c.VersionMajor = n64(o, "maj"); c.VersionMinor = n64(o, "min"); c.FileSize = n64(o, "size");
    c.FileUUID = uuidOf(S(o, "file")); c.StationUUID = uuidOf(S(o, "st")); for (auto& e : o.value("for", json::array())) c.ForStationsUUID.push_back(uuidOf(e));
}
static json commitTo(const IMVRxchangeService::MVR_COMMIT_MESSAGE& c) {
    json f = json::array(); for (auto& e : c.ForStationsUUID) f.push_back(u2s(e));
    return {{"fname", c.FileName.fBuffer}, {"comment", c.Comment.fBuffer}, {"maj", std::to_string(c.VersionMajor)}, {"min", std::to_string(c.VersionMinor)}, {"size", std::to_string(c.FileSize)}, {"file", u2s(c.FileUUID)}, {"st", u2s(c.StationUUID)}, {"for", f}};
}
static void msgOf(Session& SS, const json& o, Msg& m) {
    std::string t = S(o, "t"); m.Type = tof(t);
    if (t == "JOIN" || t == "JOIN_RET") { m.JOIN.Provider = S(o, "prov").c_str(); m.JOIN.StationName = S(o, "name").c_str(); m.JOIN.StationUUID = uuidOf(S(o, "st")); m.JOIN.VersionMajor = n64(o, "maj"); m.JOIN.VersionMinor = n64(o, "min");
        for (auto& c : o.value("commits", json::array())) { m.JOIN.Commits.emplace_back(); commitOf(c, m.JOIN.Commits.back()); } }
    if (t == "LEAVE") m.LEAVE.FromStationUUID = uuidOf(S(o, "st"));
    if (t == "COMMIT") { commitOf(o, m.COMMIT); }
    if (t == "REQUEST") { m.REQUEST.FileUUID = uuidOf(S(o, "file")); for (auto& e : o.value("from", json::array())) m.REQUEST.FromStationUUID.push_back(uuidOf(e)); }
    m.RetIsOK = o.value("ok", std::string("true")) == "true"; m.RetError = S(o, "err").c_str();
    if (o.contains("buf")) { std::string b = content(o["buf"]); m.BufferToFile = new char[b.size() ? b.size() : 1]; memcpy(m.BufferToFile, b.data(), b.size()); m.BufferToFileLength = b.size(); }
    if (o.contains("path")) m.PathToFile = subst(SS, o["path"]).c_str();
}
static json msgTo(const Msg& m) {
    json o = {{"t", tname(m.Type)}, {"ok", m.RetIsOK ? "true" : "false"}, {"err", m.RetError.fBuffer}};
    if (m.Type == Ty::MVR_JOIN || m.Type == Ty::MVR_JOIN_RET) { json cs = json::array(); for (auto& c : m.JOIN.Commits) cs.push_back(commitTo(c));
        o["prov"] = m.JOIN.Provider.fBuffer; o["name"] = m.JOIN.StationName.fBuffer; o["st"] = u2s(m.JOIN.StationUUID); o["maj"] = std::to_string(m.JOIN.VersionMajor); o["min"] = std::to_string(m.JOIN.VersionMinor); o["commits"] = cs; }
    if (m.Type == Ty::MVR_LEAVE) o["st"] = u2s(m.LEAVE.FromStationUUID);
    if (m.Type == Ty::MVR_COMMIT) { json c = commitTo(m.COMMIT); for (auto it = c.begin(); it != c.end(); ++it) o[it.key()] = it.value(); }
    if (m.Type == Ty::MVR_REQUEST) { json f = json::array(); for (auto& e : m.REQUEST.FromStationUUID) f.push_back(u2s(e)); o["file"] = u2s(m.REQUEST.FileUUID); o["from"] = f; }
    if (m.Type == Ty::MVR_REQUEST_RET) o["buf"] = m.BufferToFile ? token(m.BufferToFile, m.BufferToFileLength) : std::string("none");
    return o;
}
static uint64_t be(const char* p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | (unsigned char)p[i]; return v; }
static std::string tobe(uint64_t v, int n) { std::string s(n, '\0'); for (int i = n; i-- > 0; v >>= 8) s[i] = (char)(v & 255); return s; }
// what is on the wire, read without the library
static json wire(const char* p, size_t n) {
    if (n < MVRxchangePacket::total_header_length) return {{"short", std::to_string(n)}};
    json o = {{"flag", std::to_string(be(p, 4))}, {"version", std::to_string(be(p + 4, 4))}, {"number", std::to_string(be(p + 8, 4))}, {"count", std::to_string(be(p + 12, 4))}, {"type", std::to_string(be(p + 16, 4))}, {"len", std::to_string(be(p + 20, 8))}};
    size_t h = MVRxchangePacket::total_header_length; o["got"] = std::to_string(n - h);
    if (be(p + 16, 4) == 0) o["body"] = std::string(p + h, n - h); else o["buf"] = token(p + h, n - h);
    return o;
}
// {"hex"} raw, or header fields and a body
static std::string packetOf(const json& o) {
    if (o.contains("hex")) return unhex(o["hex"]);
    std::string body = o.contains("body") ? o["body"].get<std::string>() : content(o.value("buf", std::string()));
    uint64_t len = o.contains("len") ? n64(o, "len") : body.size();
    return tobe(o.contains("flag") ? n64(o, "flag") : 778682, 4) + tobe(1, 4) + tobe(0, 4) + tobe(1, 4) + tobe(n64(o, "type"), 4) + tobe(len, 8) + body;
}

// a machine of its own on the same cable: a thread in its own network namespace, which the library's threads inherit
struct Host {
    std::thread th; std::mutex mx; std::condition_variable cv; std::function<void()> job; bool busy = false; int tid = 0;
    Host() { busy = true; th = std::thread([this] { unshare(CLONE_NEWNET); tid = (int)syscall(SYS_gettid); { std::lock_guard<std::mutex> l(mx); busy = false; } cv.notify_all();
        for (;;) { std::function<void()> j; { std::unique_lock<std::mutex> l(mx); cv.wait(l, [this] { return (bool)job; }); j = job; } j(); { std::lock_guard<std::mutex> l(mx); job = nullptr; busy = false; } cv.notify_all(); } }); th.detach(); wait(); }
    void wait() { std::unique_lock<std::mutex> l(mx); cv.wait(l, [this] { return !busy; }); }
    void run(std::function<void()> f) { { std::unique_lock<std::mutex> l(mx); cv.wait(l, [this] { return !busy; }); busy = true; job = f; } cv.notify_all(); }
    void call(std::function<void()> f) { std::promise<void> p; run([&] { std::thread([&] { f(); p.set_value(); }).detach(); }); p.get_future().wait(); }
};
static std::map<std::string, Host*> hosts;
struct Station {
    Host* at = nullptr;
    void call(std::function<void()> f) { if (at) at->call(f); else f(); }
    CMVRxchangeServiceImpl* svc = nullptr; MVRxchangeNetwork::MVRxchangeServer* srv = nullptr; bool started = false, echo = false; std::string mode;
    std::map<std::string, json> reply; json args; Session* S = nullptr;
    std::mutex mx; std::vector<json> calls, rets;
    uint16_t port() { return srv ? srv->GetPort() : 0; }
};
struct Fake { int fd = -1; uint16_t port = 0; std::thread th; std::mutex mx; std::vector<std::string> got; std::vector<std::string> chunks; int delay = 0; std::string end; };
static std::map<std::string, Station*> stations;
static std::map<std::string, Fake*> fakes;
static std::map<std::string, int> conns;
static std::map<std::string, std::string> streams;   // what is still to be sent on a connection

static Msg onIn(const Msg& in, void* ctx) {
    Station* s = (Station*)ctx; json j = msgTo(in); Msg out;
    { std::lock_guard<std::mutex> l(s->mx); s->calls.push_back(j); }
    if (s->echo) { // answers that say which message they answer
        std::string t = j["t"], id; bool ok = in.RetIsOK;
        if (t == "LEAVE") { out.Type = Ty::MVR_LEAVE_RET; out.RetIsOK = true; out.RetError = ok ? u2s(in.LEAVE.FromStationUUID).c_str() : "bad"; }
        else if (t == "COMMIT") { out.Type = Ty::MVR_COMMIT_RET; out.RetIsOK = false; out.RetError = ok ? u2s(in.COMMIT.FileUUID).c_str() : "bad"; }
        else if (t == "REQUEST") { out.Type = Ty::MVR_REQUEST_RET; out.RetIsOK = ok; if (!ok) out.RetError = "bad"; else { std::string b = fileOf(u2s(in.REQUEST.FileUUID));
            if (s->mode == "gone") { out.PathToFile = (s->S->home + "/no/such.mvr").c_str(); return out; }
            if (s->mode == "path") { static std::atomic<int> seq{0}; std::string p = s->S->home + "/file" + std::to_string(seq++) + ".mvr"; std::ofstream(p, std::ios::binary) << b; out.PathToFile = p.c_str(); return out; }
            out.BufferToFile = new char[b.size()]; memcpy(out.BufferToFile, b.data(), b.size()); out.BufferToFileLength = b.size(); } }
        return out; }
    auto it = s->reply.find(j["t"]); if (it != s->reply.end()) msgOf(*s->S, it->second, out);
    return out;
}
static void onRet(const Msg& out, const Msg& in, void* ctx) { Station* s = (Station*)ctx; std::lock_guard<std::mutex> l(s->mx); s->rets.push_back({{"cb", "global"}, {"sent", tname(out.Type)}, {"label", out.PathToFile.fBuffer}, {"msg", msgTo(in)}}); }
static void onRetC(const Msg& out, const Msg& in, void* ctx) { Station* s = (Station*)ctx; std::lock_guard<std::mutex> l(s->mx); s->rets.push_back({{"cb", "custom"}, {"sent", tname(out.Type)}, {"label", out.PathToFile.fBuffer}, {"msg", msgTo(in)}}); }
static void msleep(int ms) { usleep(ms * 1000); }

static void serve(Fake* f) {
    for (;;) {
        int c = accept(f->fd, nullptr, nullptr); if (c < 0) return;
        char b[65536]; size_t need = 28; std::string got;
        for (;;) { if (got.size() >= 28) need = 28 + be(got.data() + 20, 8); if (got.size() >= need) break; ssize_t n = read(c, b, sizeof b); if (n <= 0) break; got.append(b, n); }
        { std::lock_guard<std::mutex> l(f->mx); f->got.push_back(got); }
        for (auto& ch : f->chunks) { size_t o = 0; while (o < ch.size()) { ssize_t n = send(c, ch.data() + o, ch.size() - o, MSG_NOSIGNAL); if (n <= 0) break; o += n; } if (f->delay) msleep(f->delay); }
        if (f->end == "rst") { linger l{1, 0}; setsockopt(c, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
        close(c);
    }
}
static int dial(uint16_t port) { int fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (connect(fd, (sockaddr*)&a, sizeof a)) { close(fd); return -1; } int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); return fd; }
static size_t sendAll(int fd, const char* p, size_t n) { size_t o = 0; while (o < n) { ssize_t k = send(fd, p + o, n - o, MSG_NOSIGNAL); if (k <= 0) break; o += k; } return o; }
static Station* st(const json& op, const char* k = "on") { auto it = stations.find(op.value(k, std::string())); return it == stations.end() ? nullptr : it->second; }

static void runOp(Session& SS, const json& op, std::function<void(json)> log) {
    std::string k = op["op"], ev = op.value("ev", k);
    if (k == "encode") { Msg m; msgOf(SS, op["msg"], m); MVRxchangePacket p; p.FromExternalMessage(m); log({{"ev", ev}, {"wire", wire(p.GetData(), p.GetLength())}});
        MVRxchangePacket q; if (p.GetLength() < 30u << 20) memcpy(q.GetData(), p.GetData(), p.GetLength()); else { memcpy(q.GetData(), p.GetData(), 28); } bool ok = q.DecodeHeader(); if (p.GetLength() >= 30u << 20 && ok) memcpy(q.GetBody(), p.GetBody(), p.GetBodyLength());
        Msg r; q.ToExternalMessage(r); log({{"ev", "decoded"}, {"header", ok ? "true" : "false"}, {"msg", msgTo(r)}}); delete[] r.BufferToFile; return; }
    if (k == "decode") { std::string b = packetOf(op["packet"]); MVRxchangePacket q; memcpy(q.GetData(), b.data(), b.size()); bool ok = q.DecodeHeader(); Msg r; q.ToExternalMessage(r); log({{"ev", ev}, {"header", ok ? "true" : "false"}, {"msg", msgTo(r)}}); delete[] r.BufferToFile; return; }
    // ---- a station whose server listens on loopback, without service discovery
    if (k == "station") { Station* s = new Station; s->S = &SS; s->svc = new CMVRxchangeServiceImpl; json rep = op.value("reply", json::object()); for (auto it = rep.begin(); it != rep.end(); ++it) s->reply[it.key()] = it.value();
        IMVRxchangeService::OnMessageArgs a; if (op.value("callback", true)) a.IncomingCallback = onIn; a.ReturningCallback = onRet; a.Context = s; s->svc->OnMessage(a);
        if (op.value("listen", true)) s->srv = new MVRxchangeNetwork::MVRxchangeServer(s->svc); s->echo = op.value("echo", false); s->mode = S(op, "mode"); if (op.contains("at")) s->at = hosts[op["at"]]; stations[op["as"]] = s; return; }
    if (k == "stop") { Station* s = st(op); delete s->srv; s->srv = nullptr; return; }
    if (k == "fake") { Fake* f = new Fake; f->fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); bind(f->fd, (sockaddr*)&a, sizeof a); listen(f->fd, 8); socklen_t l = sizeof a; getsockname(f->fd, (sockaddr*)&a, &l); f->port = ntohs(a.sin_port);
        std::string all = packetOf(op["packet"]); if (op.contains("cut")) all.resize(std::min(all.size(), (size_t)n64(op, "cut"))); size_t o = 0; for (auto& c : op.value("chunks", json::array())) { size_t n = std::min<size_t>(strtoull(c.get<std::string>().c_str(), nullptr, 10), all.size() - o); f->chunks.push_back(all.substr(o, n)); o += n; } if (o < all.size()) f->chunks.push_back(all.substr(o));
        f->delay = op.value("delay", 2); f->end = op.value("end", std::string("close")); f->th = std::thread(serve, f); fakes[op["as"]] = f; return; }
    if (k == "got") { Fake* f = fakes[op["on"]]; for (int i = 0; i < 500; i++) { { std::lock_guard<std::mutex> l(f->mx); if (f->got.size() >= n64(op, "atleast")) break; } msleep(10); } std::lock_guard<std::mutex> l(f->mx); json a = json::array(); for (auto& g : f->got) a.push_back(wire(g.data(), g.size())); f->got.clear(); log({{"ev", ev}, {"on", op["on"]}, {"list", a}}); return; }
    if (k == "member") { Station* s = st(op); MVRxchangeGroupMember m; std::string t = op["to"]; uint16_t port = 1; if (stations.count(t)) port = stations[t]->port(); else if (fakes.count(t)) port = fakes[t]->port; 
        for (int i = 0; i < op.value("ips", 1); i++) m.IP.push_back(i == 0 ? "127.0.0.1" : ("127.0.0." + std::to_string(i + 1)).c_str()); m.Port = port; m.Name = t.c_str(); m.stationUUID = uuidOf(op["uuid"]); std::lock_guard<std::mutex> l(s->svc->fMvrGroupMutex); s->svc->fMVRGroup.push_back(m); return; }
    // one message, or several at the same time from threads of their own; PathToFile tells the callbacks which one
    if (k == "sendmsg") { Station* s = st(op); auto& L = op["list"]; std::vector<std::string> rcs(L.size()); std::vector<IMVRxchangeService::SendMessageArgs> A(L.size());
        for (size_t i = 0; i < L.size(); i++) { msgOf(SS, L[i]["msg"], A[i].Message); A[i].Message.PathToFile = S(L[i], "label").c_str(); if (L[i].value("custom", false)) { A[i].CustomReturnCallback = onRetC; A[i].CustomReturnContext = s; } }
        if (L.size() == 1) s->call([&] { rcs[0] = std::to_string((int)s->svc->Send_message(A[0])); });
        else { std::vector<std::thread> T; for (size_t i = 0; i < L.size(); i++) T.emplace_back([&, i] { rcs[i] = std::to_string((int)s->svc->Send_message(A[i])); }); for (auto& t : T) t.join(); }
        log({{"ev", ev}, {"rcs", rcs}}); return; }
    if (k == "calls" || k == "rets") { Station* s = st(op); if (op.contains("atleast")) for (int i = 0; i < 500; i++) { { std::lock_guard<std::mutex> l(s->mx); if ((k == "calls" ? s->calls : s->rets).size() >= n64(op, "atleast")) break; } msleep(10); } if (op.contains("wait")) msleep(op["wait"]); std::lock_guard<std::mutex> l(s->mx); auto& v = k == "calls" ? s->calls : s->rets; json a = json::array(); for (auto& x : v) a.push_back(x); if (op.value("clear", true)) v.clear(); log({{"ev", ev}, {"on", op["on"]}, {"list", a}}); return; }
    // waits until the group is the wanted one, but not forever
    if (k == "group") { Station* s = st(op); if (op.contains("want")) { std::multiset<std::pair<std::string, std::string>> w, g; for (auto& x : op["want"]) w.emplace(x[0].get<std::string>(), x[1].get<std::string>()); for (int i = 0; i < 1500; i++) { g.clear(); { std::lock_guard<std::mutex> l(s->svc->fMvrGroupMutex); for (auto& m : s->svc->fMVRGroup) g.emplace(u2s(m.stationUUID), m.Name.GetCharPtr()); } if (g == w) break; msleep(10); } } std::lock_guard<std::mutex> l(s->svc->fMvrGroupMutex); json a = json::array(); for (auto& m : s->svc->fMVRGroup) a.push_back({{"uuid", u2s(m.stationUUID)}, {"name", m.Name.GetCharPtr()}, {"ips", std::to_string(m.IP.size())}}); log({{"ev", ev}, {"on", op["on"]}, {"list", a}}); return; }
    // ---- raw clients of a station's server
    if (k == "dial") { int fd = dial(st(op)->port()); conns[op["as"]] = fd; streams[op["as"]] = packetOf(op["packet"]); if (fd < 0) log({{"ev", "refused"}, {"as", op["as"]}}); return; }
    if (k == "push") { std::string c = op["on"]; std::string& s = streams[c]; size_t n = op.contains("n") ? std::min<size_t>(s.size(), n64(op, "n")) : s.size(); sendAll(conns[c], s.data(), n); s.erase(0, n); if (op.contains("wait")) msleep(op["wait"]); return; }
    if (k == "shut") { shutdown(conns[op["on"]], SHUT_WR); return; }
    if (k == "hang") { int fd = conns[op["on"]]; if (op.value("rst", false)) { linger l{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } close(fd); if (op.contains("wait")) msleep(op["wait"]); return; }
    if (k == "recv") { int fd = conns[op["on"]]; std::string b; char t[65536]; std::string how = "timeout"; int left = op.value("ms", 4000);
        for (;;) { pollfd p{fd, POLLIN, 0}; int r = poll(&p, 1, left); if (r <= 0) break; ssize_t n = read(fd, t, sizeof t); if (n == 0) { how = "eof"; break; } if (n < 0) { how = "reset"; break; } b.append(t, n); }
        log({{"ev", ev}, {"on", op["on"]}, {"how", how}, {"wire", wire(b.data(), b.size())}}); return; }
    if (k == "sleep") { msleep(op["ms"]); return; }
    // ---- real groups: a network namespace of its own, discovery by multicast
    if (k == "netns") { uid_t u = getuid(); gid_t g = getgid(); int r = unshare(CLONE_NEWUSER | CLONE_NEWNET); if (r == 0) { auto wr = [](const char* p, std::string s) { int f = open(p, O_WRONLY); if (f >= 0) { ssize_t n = write(f, s.data(), s.size()); (void)n; close(f); } }; wr("/proc/self/setgroups", "deny"); wr("/proc/self/uid_map", "0 " + std::to_string(u) + " 1"); wr("/proc/self/gid_map", "0 " + std::to_string(g) + " 1");
            r = op.value("lo", false) ? system("ip link set lo up") : 0; }
        log({{"ev", ev}, {"ok", r == 0 ? "true" : "false"}}); return; }
    if (k == "host") { Host* h = new Host; std::string n = op["n"], nm = op["as"]; hosts[nm] = h; if (hosts.size() == 1 && system("ip link set lo up && ip link add br0 type bridge && ip link set br0 addrgenmode none up && ip addr add 10.77.0.200/24 dev br0 && ip route add 224.0.0.0/4 dev br0")) { log({{"ev", "netns"}, {"ok", "bridge"}}); return; }
        int r = system(("ip link add v" + n + " type veth peer name e" + n + " && ip link set e" + n + " netns " + std::to_string(h->tid) + " && ip link set v" + n + " addrgenmode none master br0 up").c_str());
        int q = -1; h->call([&] { q = system(("ip link set lo up && ip link set e" + n + " addrgenmode none up && ip addr add 10.77.0." + n + "/24 dev e" + n + " && ip route add 224.0.0.0/4 dev e" + n).c_str()); });
        if (r || q) log({{"ev", "netns"}, {"ok", "host"}}); return; }
    if (k == "unplug") { std::string n = op["n"]; int q = -1; hosts[op["on"]]->call([&] { q = system(("ip link del e" + n).c_str()); }); if (q) log({{"ev", "netns"}, {"ok", "unplug"}}); return; }
    if (k == "connect") { auto& L = op["list"]; std::vector<std::string> rcs(L.size());
        auto go = [&](size_t i) { const json& o = L[i]; Station* s = st(o); msleep(150 * i); IMVRxchangeService::ConnectToLocalServiceArgs a; a.Service = S(o, "service").c_str(); a.StationName = S(o, "name").c_str(); a.Provider = S(o, "prov").c_str(); a.StationUUID = uuidOf(S(o, "uuid")); a.VersionMajor = 1; a.VersionMinor = 6; for (auto& c : o.value("commits", json::array())) { a.InitialFiles.emplace_back(); commitOf(c, a.InitialFiles.back()); } s->call([&] { rcs[i] = std::to_string((int)s->svc->ConnectToLocalService(a)); }); };
        if (L.size() == 1) go(0); else { std::vector<std::thread> T; for (size_t i = 0; i < L.size(); i++) T.emplace_back(go, i); for (auto& t : T) t.join(); }
        log({{"ev", ev}, {"rcs", rcs}}); return; }
    if (k == "leave") { auto& L = op["list"]; std::vector<std::string> rcs(L.size());
        auto go = [&](size_t i) { Station* s = stations[L[i].get<std::string>()]; s->call([&] { rcs[i] = std::to_string((int)s->svc->LeaveLocalService()); }); };
        if (L.size() == 1) go(0); else { std::vector<std::thread> T; for (size_t i = 0; i < L.size(); i++) T.emplace_back(go, i); for (auto& t : T) t.join(); }
        log({{"ev", ev}, {"rcs", rcs}}); return; }
    // how many lookups are heard on the network
    if (k == "hear") { int fd = socket(AF_INET, SOCK_DGRAM, 0); int one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, &one, sizeof one); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(5353); bind(fd, (sockaddr*)&a, sizeof a);
        ip_mreq m{}; m.imr_multiaddr.s_addr = inet_addr("224.0.0.251"); m.imr_interface.s_addr = inet_addr("10.77.0.200"); setsockopt(fd, IPPROTO_IP, IP_ADD_MEMBERSHIP, &m, sizeof m);
        std::set<int> from; auto t0 = std::chrono::steady_clock::now(); int ms = op["ms"]; char b[9000];
        for (;;) { int left = ms - (int)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count(); if (left <= 0) break; pollfd p{fd, POLLIN, 0}; if (poll(&p, 1, left) <= 0) break; sockaddr_in f{}; socklen_t l = sizeof f; ssize_t n = recvfrom(fd, b, sizeof b, 0, (sockaddr*)&f, &l); if (n > 12 && !(b[2] & 0x80)) from.insert(ntohs(f.sin_port)); }
        close(fd); log({{"ev", ev}, {"n", std::to_string(from.size())}}); return; }
    // somebody else's service of the same type
    if (k == "foreign") { auto* m = new mdns_cpp::mDNS; m->setServiceHostname(S(op, "host")); m->setServicePort(n64(op, "port")); m->setServiceIP(inet_addr("10.77.0.200")); m->setServiceName("_mvrxchange._tcp.local."); m->setServiceTxtRecord(unhex(op["txt"])); m->startService(); msleep(100); return; }
    if (k == "query") { size_t n = 0; Station* s = st(op); VCOMError rc; s->call([&] { for (int i = 0; i < op.value("times", 1); i++) rc = s->svc->QueryLocalServices(n); }); json a = json::array(); for (size_t i = 0; i < n; i++) { IMVRxchangeService::ConnectToLocalServiceArgs x; s->svc->GetLocalServiceAt(i, x); a.push_back({{"service", x.Service.fBuffer}, {"name", x.StationName.fBuffer}, {"uuid", u2s(x.StationUUID)}, {"ips", std::to_string(x.IPv4_list.size())}}); }
        json e = {{"ev", ev}, {"rc", std::to_string((int)rc)}, {"list", a}}; IMVRxchangeService::ConnectToLocalServiceArgs x; e["past"] = std::to_string((int)s->svc->GetLocalServiceAt(n, x)); log(e); return; }
    if (k == "destroy") { Station* s = st(op); delete s->svc; s->svc = nullptr; return; }
    if (!extOp(SS, op, log)) log({{"ev", "badop"}, {"op", k}});
}
#include "runner.h"
int main(int argc, char** argv) { return caseMain(argc, argv, 90, runOp); }
