// Stateless exhaustive explorer. A "space" is a body that draws every nondeterministic decision with
// Mc::choose(n). The explorer runs the body once per choice sequence, depth first, until the whole
// tree is covered. Nothing is sampled. Worker i of k executes the executions whose index is i mod k.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <ctime>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

namespace mc {

typedef std::uint64_t u64;

struct Violation : std::runtime_error { Violation(const std::string &s) : std::runtime_error(s) {} };
struct NotMine {};
struct Reject {};   // the drawn input is not well formed: not an execution

// Shared with the driver: tells which execution is running when the worker dies or hangs.
struct Progress { volatile u64 ticks; volatile u64 executed; volatile int space; volatile int n; volatile int ch[1 << 16]; };

class HashSet {  // open addressing, exact on 64-bit hashes, bounded
    std::vector<u64> t; u64 cnt = 0; bool zero = false;
    static const u64 LIMIT = 1ull << 22;
    void grow() { std::vector<u64> o; o.swap(t); t.assign(o.size() * 2, 0); for (u64 x : o) if (x) put(x); }
    void put(u64 x) { u64 m = t.size() - 1, i = (x * 0x9E3779B97F4A7C15ull) >> 20 & m; while (t[i]) { if (t[i] == x) return; i = (i + 1) & m; } t[i] = x; }
public:
    bool full = false;
    HashSet() : t(1 << 12, 0) {}
    bool add(u64 x) {
        if (!x) { bool r = !zero; zero = true; if (r) cnt++; return r; }
        u64 m = t.size() - 1, i = (x * 0x9E3779B97F4A7C15ull) >> 20 & m;
        while (t[i]) { if (t[i] == x) return false; i = (i + 1) & m; }
        if (cnt >= LIMIT) { full = true; return false; }
        t[i] = x; cnt++;
        if (cnt * 2 > t.size()) grow();
        return true;
    }
    u64 size() const { return cnt; }
};

inline u64 mix(u64 h, u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
inline u64 mixs(u64 h, const std::string &s) { for (unsigned char c : s) h = mix(h, c); return h; }

class Mc {
public:
    std::vector<int> pre;      // decisions to replay
    std::vector<int> cur, ar;  // decisions taken in this execution and their arities
    size_t pos = 0;
    u64 index = 0;             // index of this execution among those that reached mine()
    int worker = 0, workers = 1;
    bool replay = false, thorough = false, verbose = false;
    Progress *pr = nullptr;
    // measured
    u64 executions = 0, transitions = 0, traces = 0, rejected = 0;
    HashSet states, outcomes;
    std::vector<std::string> samples;
    u64 h = 0;

    int choose(int n) {
        if (n <= 0) throw Reject();
        int v = 0;
        if (pos < pre.size()) { v = pre[pos]; if (v < 0 || v >= n) { std::fprintf(stderr, "replay divergence at decision %zu: %d of %d\n", pos, v, n); std::exit(3); } }
        if (pos < 1 << 16) pr->ch[pos] = v;
        cur.push_back(v); ar.push_back(n); pos++;
        pr->n = (int)pos;
        return v;
    }
    template <class T> const T &pick(const std::vector<T> &v) { return v[choose((int)v.size())]; }
    // Called once all inputs are drawn (later decisions belong to the execution itself).
    void mine() {
        bool ok = replay || (index % workers) == (u64)worker;
        index++;
        if (!ok) throw NotMine();
        executions++; pr->ticks++; pr->executed = executions;
        h = 1469598103934665603ull;
        for (int c : cur) h = mix(h, c + 1);
    }
    void op(u64 n = 1) { transitions += n; pr->ticks++; }     // real API calls
    void trace() { traces++; }                                // one complete history compared with the model
    void state(u64 x) { states.add(mix(h, x)); }               // a state: input + abstraction of what is observable
    void outcome(u64 x) { outcomes.add(x); }
    void sample(const std::string &s) {
        if (samples.size() < 4 && (executions == 1 || (executions & (executions - 1)) == 0) && executions >= samples.size() * samples.size() * 50) samples.push_back(s.substr(0, 600));
    }
    void fail(const std::string &s) { throw Violation(s); }
    template <class F> void check(bool ok, F msg) { if (!ok) fail(msg()); }
};

struct Space { std::string name; std::string bound; bool thoroughOnly; std::function<void(Mc &)> body; };

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}

// usage: prog --tier quick|thorough --worker i --workers k --progress FILE --out FILE [--deadline s]
//        prog --replay SPACE c0,c1,... --out FILE --progress FILE [--tier t]
inline int run(int argc, char **argv, std::vector<Space> spaces) {
    Mc m; std::string tier = "quick", prog, outf, rs, rc; double deadline = 1e9; bool rep = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = nx(); else if (a == "--worker") m.worker = atoi(nx().c_str()); else if (a == "--workers") m.workers = atoi(nx().c_str());
        else if (a == "--progress") prog = nx(); else if (a == "--out") outf = nx(); else if (a == "--deadline") deadline = atof(nx().c_str());
        else if (a == "--replay") { rep = true; rs = nx(); rc = nx(); } else if (a == "--verbose") m.verbose = true;
        else if (a == "--list") { for (auto &s : spaces) std::printf("%s\n", s.name.c_str()); return 0; }
    }
    m.thorough = tier == "thorough";
    if (!prog.empty()) {
        int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Progress))) { perror("progress"); return 3; }
        m.pr = (Progress *)mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    } else m.pr = (Progress *)mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now();
    std::string viol, vspace, vcase; std::ostringstream sp; bool capped = false; bool first = true;
    for (size_t s = 0; s < spaces.size() && viol.empty(); s++) {
        Space &S = spaces[s];
        if (rep ? S.name != rs : (S.thoroughOnly && !m.thorough)) continue;
        m.pr->space = (int)s; m.pre.clear(); m.index = 0; m.replay = rep;
        if (rep) { std::stringstream q(rc); std::string x; while (std::getline(q, x, ',')) if (!x.empty()) m.pre.push_back(atoi(x.c_str())); }
        u64 e0 = m.executions, r0 = m.rejected, i0 = 0; bool done = false; u64 loops = 0; double ts = now();
        while (true) {
            m.cur.clear(); m.ar.clear(); m.pos = 0; m.pr->n = 0;
            try { S.body(m); }
            catch (NotMine &) {}
            catch (Reject &) { m.rejected++; }
            catch (Violation &v) { viol = v.what(); }
            catch (std::bad_alloc &) { viol = "memory exhausted (std::bad_alloc)"; }
            catch (std::exception &e) { viol = std::string("unexpected exception: ") + e.what(); }
            if (!viol.empty()) { vspace = S.name; std::ostringstream o; for (size_t i = 0; i < m.cur.size(); i++) o << (i ? "," : "") << m.cur[i]; vcase = o.str(); break; }
            if (rep) { done = true; break; }
            int k = (int)m.cur.size() - 1;
            while (k >= 0 && m.cur[k] + 1 >= m.ar[k]) k--;
            if (k < 0) { done = true; break; }
            m.pre.assign(m.cur.begin(), m.cur.begin() + k + 1); m.pre[k]++;
            if ((++loops & 255) == 0 && now() - t0 > deadline) { capped = true; break; }
        }
        (void)i0;
        sp << (first ? "" : ",") << "{\"name\":" << jstr(S.name) << ",\"bound\":" << jstr(S.bound) << ",\"executions\":" << m.executions - e0
           << ",\"rejected\":" << m.rejected - r0 << ",\"index\":" << m.index << ",\"complete\":" << (done ? "true" : "false") << ",\"wall_s\":" << now() - ts << "}";
        first = false;
        if (capped) break;
    }
    std::ostringstream o;
    o << "{\"executions\":" << m.executions << ",\"transitions\":" << m.transitions << ",\"traces\":" << m.traces << ",\"states\":" << m.states.size()
      << ",\"outcomes\":" << m.outcomes.size() << ",\"states_full\":" << (m.states.full ? "true" : "false") << ",\"capped\":" << (capped ? "true" : "false") << ",\"spaces\":[" << sp.str() << "],\"samples\":[";
    for (size_t i = 0; i < m.samples.size(); i++) o << (i ? "," : "") << jstr(m.samples[i]);
    o << "]";
    if (!viol.empty()) o << ",\"violation\":{\"space\":" << jstr(vspace) << ",\"choices\":" << jstr(vcase) << ",\"message\":" << jstr(viol) << "}";
    o << "}\n";
    if (!outf.empty()) { FILE *f = fopen(outf.c_str(), "w"); if (!f) return 3; fputs(o.str().c_str(), f); fclose(f); } else fputs(o.str().c_str(), stdout);
    if (!viol.empty()) std::fprintf(stderr, "VIOLATION in %s [%s]: %s\n", vspace.c_str(), vcase.c_str(), viol.c_str());
    return viol.empty() ? 0 : 1;
}

} // namespace mc
