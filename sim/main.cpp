#include "kernel.hpp"

#include <cstdarg>
#include <cstdlib>
#include <ctime>
#include <exception>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace sim {

void fail(const std::string& cls, const char* fmt, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    K.in_op = false;
    throw Violation{cls, buf};
}

std::string hex(const Bytes& b, std::size_t max) {
    static const char* d = "0123456789abcdef";
    std::string s = std::to_string(b.size()) + ":";
    for (std::size_t i = 0; i < b.size() && i < max; ++i) {
        s += d[b[i] >> 4];
        s += d[b[i] & 15];
    }
    if (b.size() > max) s += "...";
    return s;
}

std::string to_text(const Step& s) {
    std::string t = s.op;
    for (i64 v : s.a) t += " " + std::to_string(v);
    if (!s.f.empty()) {
        t += " |";
        for (const Fault& f : s.f) {
            t += ' ';
            t += f.kind;
            if (f.kind == 'S' || f.kind == 'X' || f.kind == 'T' || f.kind == 'K' || f.kind == 'Z') t += std::to_string(f.n);
        }
    }
    return t;
}
std::string to_text(const Plan& p) {
    std::string t = "prop " + p.prop + "\nseed " + std::to_string(p.seed) + "\n";
    for (const Step& s : p.steps) t += to_text(s) + "\n";
    return t;
}
bool parse(const std::string& text, Plan& out, std::string& err) {
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream ls(line);
        std::string w;
        ls >> w;
        if (w == "prop") { ls >> out.prop; continue; }
        if (w == "seed") { ls >> out.seed; continue; }
        Step s;
        s.op = w;
        bool faults = false;
        while (ls >> w) {
            if (w == "|") { faults = true; continue; }
            if (faults) s.f.push_back({w[0], w.size() > 1 ? std::atoll(w.c_str() + 1) : 0});
            else s.a.push_back(std::atoll(w.c_str()));
        }
        out.steps.push_back(s);
    }
    if (out.prop.empty()) { err = "no property"; return false; }
    return true;
}

namespace {

std::vector<const Part*>& registry() {
    static auto& r = *new std::vector<const Part*>;
    return r;
}
std::vector<const Part*> parts_of(const std::string& prop) {
    std::vector<const Part*> v;
    for (const Part* p : registry()) {
        std::istringstream in(p->props);
        std::string w;
        while (in >> w) if (w == prop) v.push_back(p);
    }
    for (std::size_t i = 0; i < v.size(); ++i)        // independent of link order
        for (std::size_t j = i + 1; j < v.size(); ++j)
            if (std::strcmp(v[j]->file, v[i]->file) < 0) std::swap(v[i], v[j]);
    return v;
}

struct Composite : Scenario {
    std::vector<Scenario*> sub;
    void generate(Rng& r, Plan& p) override {
        i64 k = (i64) r.below(sub.size());
        p.steps.push_back({"part", {k}, {}});
        sub[(std::size_t) k]->generate(r, p);
    }
    void execute(const Plan& p) override {
        Plan q;
        q.prop = p.prop;
        q.seed = p.seed;
        std::size_t k = 0;
        for (const Step& s : p.steps) {
            if (s.op == "part") k = (std::size_t) s.arg(0);
            else q.steps.push_back(s);
        }
        if (k < sub.size()) sub[k]->execute(q);
    }
};

} // namespace

Part::Part(const char* f, const char* p, Scenario* (*m)(const std::string&), const char* r, const char* s)
    : file{f}, props{p}, make{m}, real{r}, stub{s} {
    registry().push_back(this);
}
Scenario* scenario_for(const std::string& prop) {
    auto v = parts_of(prop);
    if (v.empty()) return nullptr;
    if (v.size() == 1) return v[0]->make(prop);
    auto* c = new Composite;
    for (auto* p : v) c->sub.push_back(p->make(prop));
    return c;
}
std::string real_components(const std::string& prop) {
    std::string s;
    for (auto* p : parts_of(prop)) s += (s.empty() ? "" : "; ") + std::string(p->real);
    return s;
}
std::string stub_components(const std::string& prop) {
    std::string s;
    for (auto* p : parts_of(prop)) s += (s.empty() ? "" : "; ") + std::string(p->stub);
    return s;
}

namespace {

struct Outcome { bool ok = true; Violation v; u64 trace = 0, shape = 0, events = 0; };

Outcome execute(Scenario& sc, const Plan& p) {
    Outcome o;
    K.reset();
    K.active = true;
    try {
        sc.execute(p);
    } catch (const Violation& v) {
        o.ok = false;
        o.v = v;
    } catch (const std::exception& e) {
        o.ok = false;
        o.v = {"unexpected-exception", std::string("an operation threw ") + e.what()};
    }
    K.in_op = false;
    K.active = false;
    pause_depth = 0;
    preempt_hook = nullptr;
    o.trace = K.trace;
    o.shape = K.shape;
    o.events = K.run_events;
    return o;
}

double now_s() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double) t.tv_sec + (double) t.tv_nsec * 1e-9;
}

std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if ((unsigned char) c < 32) o += ' ';
        else o += c;
    }
    return o + "\"";
}
std::string jmap(const std::map<std::string, u64>& m) {
    std::string o = "{";
    for (auto& [k, v] : m) {
        if (o.size() > 1) o += ",";
        o += jstr(k) + ":" + std::to_string(v);
    }
    return o + "}";
}

Plan make_plan(Scenario& sc, const std::string& prop, u64 seed) {
    Plan p;
    p.prop = prop;
    p.seed = seed;
    Rng r(seed);
    r.next();
    sc.generate(r, p);
    return p;
}

u64 seed_of(u64 base, u64 index) { return mix(mix(base, 0xC0FFEE), index) & 0x7fffffffffffffffull; }

// hist <prop> <base> <first> <stride> <from> <to>: the runs of a worker, in one
// process, for violations that depend on what earlier runs left behind
int cmd_hist(char** a) {
    std::string prop = a[0];
    u64 base = std::strtoull(a[1], nullptr, 10), first = std::strtoull(a[2], nullptr, 10),
        stride = std::strtoull(a[3], nullptr, 10), from = std::strtoull(a[4], nullptr, 10),
        to = std::strtoull(a[5], nullptr, 10);
    Scenario* sc = scenario_for(prop);
    if (!sc) return 2;
    for (u64 i = from; i <= to; ++i) {
        u64 seed = seed_of(base, first + i * stride);
        Plan p = make_plan(*sc, prop, seed);
        for (int k = 0; k < (i % 61 == 0 ? 2 : 1); ++k) {
            Outcome o = execute(*sc, p);
            if (!o.ok) {
                std::printf("violation %s: %s\n", o.v.cls.c_str(), o.v.msg.c_str());
                std::fflush(stdout);
                return 10;
            }
        }
    }
    std::printf("ok\n");
    return 0;
}

// run <prop> <base> <first> <stride> <seconds> <maxruns> <progress> <out>
int cmd_run(char** a) {
    std::string prop = a[0];
    u64 base = std::strtoull(a[1], nullptr, 10);
    u64 first = std::strtoull(a[2], nullptr, 10), stride = std::strtoull(a[3], nullptr, 10);
    double seconds = std::atof(a[4]);
    u64 maxruns = std::strtoull(a[5], nullptr, 10);
    Scenario* sc = scenario_for(prop);
    if (!sc) { std::fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
    int pfd = open(a[6], O_RDWR | O_CREAT, 0600);
    if (pfd < 0 || ftruncate(pfd, 4096) != 0) return 2;
    volatile u64* prog = static_cast<volatile u64*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, pfd, 0));
    std::unordered_set<u64> shapes, traces;
    std::vector<std::string> samples;
    u64 nontrivial = 0, determinism = 0, diverged = 0;
    double t0 = now_s();
    for (u64 i = 0; i < maxruns; ++i) {
        if ((i & 15) == 0 && now_s() - t0 > seconds) break;
        u64 seed = seed_of(base, first + i * stride);
        prog[0] = seed;
        prog[1] = i + 1;
        Plan p = make_plan(*sc, prop, seed);
        Outcome o = execute(*sc, p);
        ++stats.runs;
        stats.blocks += blocks_run;
        if (!o.ok) {
            std::string out = "{\"violation\":{\"seed\":" + std::to_string(seed) + ",\"cls\":" + jstr(o.v.cls)
                + ",\"msg\":" + jstr(o.v.msg) + "}}";
            std::ofstream(a[7]) << out;
            return 10;
        }
        if (p.steps.size() >= 3 && o.events > 0) {
            ++nontrivial;
            if (shapes.size() < 3000000) shapes.insert(o.shape);
            if (traces.size() < 3000000) traces.insert(o.trace);
            if (samples.size() < 2 && p.steps.size() < 24) samples.push_back(to_text(p));
        }
        if (i % 61 == 0) {
            Stats keep = stats;
            Outcome o2 = execute(*sc, p);
            stats = keep;
            ++determinism;
            if (o2.trace != o.trace) ++diverged;
            if (!o2.ok) {
                std::string out = "{\"violation\":{\"seed\":" + std::to_string(seed) + ",\"cls\":" + jstr(o2.v.cls)
                    + ",\"msg\":" + jstr(o2.v.msg) + "}}";
                std::ofstream(a[7]) << out;
                return 10;
            }
        }
    }
    std::string out = "{\"runs\":" + std::to_string(stats.runs) + ",\"ops\":" + std::to_string(stats.ops)
        + ",\"syscalls\":" + std::to_string(stats.syscalls) + ",\"allocs\":" + std::to_string(stats.allocs)
        + ",\"blocks\":" + std::to_string(stats.blocks) + ",\"switches\":" + std::to_string(stats.switches)
        + ",\"sim_time_us\":" + std::to_string(stats.sim_time_us)
        + ",\"nontrivial\":" + std::to_string(nontrivial) + ",\"reruns_identical\":" + std::to_string(determinism)
        + ",\"reruns_diverged\":" + std::to_string(diverged)
        + ",\"distinct_traces\":" + std::to_string(traces.size())
        + ",\"faults\":" + jmap(stats.faults) + ",\"probes\":" + jmap(stats.probes) + ",\"opcount\":" + jmap(stats.opcount)
        + ",\"real\":" + jstr(real_components(prop)) + ",\"stub\":" + jstr(stub_components(prop)) + ",\"samples\":[";
    for (std::size_t i = 0; i < samples.size(); ++i) out += (i ? "," : "") + jstr(samples[i]);
    out += "]}";
    std::ofstream(a[7]) << out;
    std::ofstream sh(std::string(a[7]) + ".shapes", std::ios::binary);
    for (u64 s : shapes) sh.write(reinterpret_cast<const char*>(&s), 8);
    return 0;
}

int cmd_replay(const char* file, bool verbose) {
    std::ifstream in(file);
    std::stringstream ss;
    ss << in.rdbuf();
    Plan p;
    std::string err;
    if (!parse(ss.str(), p, err)) { std::fprintf(stderr, "%s\n", err.c_str()); return 2; }
    Scenario* sc = scenario_for(p.prop);
    if (!sc) return 2;
    K.log_on = verbose;
    Outcome o = execute(*sc, p);
    if (verbose) for (auto& l : K.log) std::printf("%s\n", l.c_str());
    std::printf("trace %016llx\n", (unsigned long long) o.trace);
    if (o.ok) { std::printf("ok\n"); return 0; }
    std::printf("violation %s: %s\n", o.v.cls.c_str(), o.v.msg.c_str());
    std::fflush(stdout);
    return 10;
}

} // namespace
} // namespace sim

int main(int argc, char** argv) {
    using namespace sim;
    block_budget = 600'000'000;
    if (argc == 10 && !std::strcmp(argv[1], "run")) {
        int r = cmd_run(argv + 2);
        std::fflush(nullptr);
        _exit(r);
    }
    if (argc == 4 && !std::strcmp(argv[1], "gen")) {
        Scenario* sc = scenario_for(argv[2]);
        if (!sc) return 2;
        Plan p = make_plan(*sc, argv[2], std::strtoull(argv[3], nullptr, 10));
        std::printf("%s", to_text(p).c_str());
        return 0;
    }
    if (argc >= 3 && !std::strcmp(argv[1], "replay")) {
        int r = cmd_replay(argv[2], argc > 3);
        std::fflush(nullptr);
        _exit(r);
    }
    if (argc == 8 && !std::strcmp(argv[1], "hist")) {
        int r = cmd_hist(argv + 2);
        std::fflush(nullptr);
        _exit(r);
    }
    std::fprintf(stderr, "usage: sim run|gen|replay ...\n");
    return 2;
}
