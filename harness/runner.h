// Runs every case in a process of its own, inside its own HOME, and records what it logged and how it ended.
#pragma once
#include "core.h"
#include <pwd.h>
#include <grp.h>
#include <sys/resource.h>
// the library keeps its files under the user's home as the system reports it: every case has a home of its own
extern "C" struct passwd* getpwuid(uid_t u) { static struct passwd p; static char name[] = "case"; p.pw_name = name; p.pw_uid = u; p.pw_dir = getenv("HOME"); return &p; }
static void rmtree(const std::string& d) { std::string c = "rm -rf -- '" + d + "'"; if (d.size() > 8 && d.find("/vh_") != std::string::npos) { int r = system(c.c_str()); (void)r; } }

using OpFn = void (*)(Session&, const json&, std::function<void(json)>);
static void child(const json& c, std::string home, FILE* out, int secs, OpFn runOp) {
    if (c.value("sealed", false)) {                       // five folders deep and without rights: whatever escapes stays in the scratch folder
        std::vector<std::string> ds{home}; for (const char* d : {"l1", "l2", "l3", "home"}) { home += std::string("/") + d; mkdir(home.c_str(), 0700); ds.push_back(home); }
        if (geteuid() == 0) { for (auto& d : ds) if (chown(d.c_str(), 65534, 65534)) _exit(3); if (setgroups(0, nullptr) || setgid(65534) || setuid(65534)) _exit(3); }
    }
    setenv("HOME", home.c_str(), 1); setenv("TMPDIR", home.c_str(), 1);
    if (chdir(home.c_str())) {}
    alarm(secs);
    rlimit mem{3ul << 30, 3ul << 30}, fil{512ul << 20, 512ul << 20}; setrlimit(RLIMIT_FSIZE, &fil);
#ifndef VH_ASAN
    setrlimit(RLIMIT_AS, &mem);
#endif
     // a runaway case ends, not the machine
    FILE* devnull = freopen("/dev/null", "w", stdout); (void)devnull;
    FILE* dn2 = freopen("/dev/null", "w", stderr); (void)dn2;
    Session S; S.home = home;
    json id = c["case"];
    auto log = [&](json e) { e["case"] = id; std::string s = e.dump(-1, ' ', true, json::error_handler_t::replace); fputs(s.c_str(), out); fputc('\n', out); fflush(out); };
    try { for (auto& op : c["ops"]) runOp(S, op, log); }
    catch (std::exception& x) { log({{"ev", "exception"}, {"what", std::string(x.what()).substr(0, 200)}}); }
    log({{"ev", "end"}});
    fflush(out);
    _exit(0);
}

inline int caseMain(int argc, char** argv, int secs, OpFn runOp) {
    if (argc < 3) { fprintf(stderr, "usage: driver CASES OUT [jobs]\n"); return 2; }
    std::ifstream in(argv[1]); std::vector<std::string> lines; std::string l;
    while (std::getline(in, l)) if (l.size()) lines.push_back(l);
    int jobs = argc > 3 ? atoi(argv[3]) : 8;
    std::string base = std::string(getenv("VH_TMP") ? getenv("VH_TMP") : "/tmp") + "/vh_" + std::to_string(getpid());
    mkdir(base.c_str(), 0711); chmod(base.c_str(), 0711);
    std::map<pid_t, size_t> running; std::vector<int> status(lines.size(), 0);
    size_t next = 0, hung = 0; std::vector<char> ran(lines.size(), 0);   // enough hung cases decide; the rest is skipped
    auto outp = [&](size_t i) { return base + "/o" + std::to_string(i); };
    auto homep = [&](size_t i) { return base + "/h" + std::to_string(i); };
    while (next < lines.size() || running.size()) {
        while (next < lines.size() && (int)running.size() < jobs) {
            if (hung >= 12) { next = lines.size(); break; }
            size_t i = next++; ran[i] = 1;
            mkdir(homep(i).c_str(), 0700);
            pid_t p = fork();
            if (p == 0) { FILE* f = fopen(outp(i).c_str(), "w"); child(json::parse(lines[i]), homep(i), f, secs, runOp); _exit(0); }
            running[p] = i;
        }
        if (running.empty()) break;
        int st = 0; pid_t p = wait(&st);
        if (p > 0 && running.count(p)) { size_t i = running[p]; status[i] = st; running.erase(p); if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) hung++; rmtree(homep(i)); }
    }
    std::ofstream out(argv[2]);
    for (size_t i = 0; i < lines.size(); i++) {
        if (!ran[i]) { json c = json::parse(lines[i]); json e = {{"ev", "skipped"}, {"case", c["case"]}}; out << e.dump() << "\n"; continue; }
        std::ifstream f(outp(i)); std::string s; while (std::getline(f, s)) out << s << "\n";
        if (status[i] != 0) { json c = json::parse(lines[i]); json e = {{"ev", WIFSIGNALED(status[i]) && WTERMSIG(status[i]) == SIGALRM ? "hang" : "crash"}, {"sig", WIFSIGNALED(status[i]) ? WTERMSIG(status[i]) : WEXITSTATUS(status[i])}, {"case", c["case"]}}; out << e.dump() << "\n"; }
    }
    out.close();
    rmtree(base);
    return 0;
}
