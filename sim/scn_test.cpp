// The test module: C24.
#include <cmp/core/test_module.hpp>

#include <csetjmp>
#include <deque>
#include <memory>
#include <optional>
#include <streambuf>
#include "kernel.hpp"

namespace sim {
namespace {

constexpr int NFN = 24;

// ---- the simulated console: buffered like a terminal, pipe or file ------------
struct Console : std::streambuf {
    std::string delivered;            // survives the death of the process
    std::vector<char> buf;
    i64 room = -1;                    // bytes the device still takes, -1 = any number
    bool refused = false;
    explicit Console(std::size_t cap) : buf(cap ? cap : 1) { setp(buf.data(), buf.data() + buf.size()); }
    bool push() {
        std::size_t n = (std::size_t) (pptr() - pbase());
        std::size_t take = n;
        if (room >= 0 && (i64) take > room) take = (std::size_t) room;
        delivered.append(pbase(), take);
        if (room >= 0) room -= (i64) take;
        setp(buf.data(), buf.data() + buf.size());
        ++K.run_events;
        if (take < n) {
            if (!refused) ++stats.faults["console_refused"];
            refused = true;
            return false;
        }
        return true;
    }
    int_type overflow(int_type c) override {
        if (!push()) return traits_type::eof();
        if (!traits_type::eq_int_type(c, traits_type::eof())) { *pptr() = traits_type::to_char_type(c); pbump(1); }
        return traits_type::not_eof(c);
    }
    int sync() override { return push() ? 0 : -1; }
};

const char* const NAMES[] = {"a", "constructor", "", "test with spaces", "100 %s %n", "it's", "\xc3\xa4\xe2\x82\xac", "x' starting.", "a very long name of a test, longer than any small buffer would hold"};
constexpr int NNAME = sizeof NAMES / sizeof *NAMES;

struct Script { int name = 0; bool result = true; std::vector<std::pair<int, i64>> steps; };

struct TestScenario;
TestScenario* cur = nullptr;
bool run_script(int fn);

struct Module : cmp::test_module<Module> {
    using base = cmp::test_module<Module>;
    using base::base;
    template <int N> bool t() { return run_script(N); }
};
template <int... N> Module::test_function_pointer fn_at(int i, std::integer_sequence<int, N...>) {
    static const Module::test_function_pointer f[] = {&Module::t<N>...};
    return f[i];
}

struct TestScenario : Scenario {
    using Dummy = Module::dummy;
    using Message = Module::message;

    Script script[NFN];
    std::vector<int> tests;
    Module* mod = nullptr;
    Console *out = nullptr, *err = nullptr;
    // model
    std::string want_out, want_err;
    std::size_t sure = 0;             // what must have been delivered by now
    int started = 0;                  // tests begun in this run
    int failed = 0, good = 0;
    unsigned stage = 0;
    std::string report;
    std::deque<Message> queue;
    struct D { std::unique_ptr<Dummy> d; int v; };
    std::vector<D> dummies;
    std::optional<Violation> bad;
    sigjmp_buf death;

    void note(const char* cls, const std::string& msg) { if (!bad) bad = Violation{cls, msg}; }
    bool open() const { return !out->refused; }
    void delivered_check(const char* when) {
        if (want_out.compare(0, out->delivered.size(), out->delivered) != 0)
            note("report", std::string("the report differs from what happened ") + when + ": " + tail(out->delivered) + " ... expected " + tail(want_out));
        if (open() && out->delivered.size() < sure)
            note("report-late", std::string(when) + " " + std::to_string(sure - out->delivered.size()) + " bytes of the report are not delivered: " + want_out.substr(out->delivered.size(), sure - out->delivered.size()));
    }
    static std::string tail(const std::string& s) { return s.size() > 160 ? s.substr(s.size() - 160) : s; }
    std::string num(int i) const {
        std::string n = std::to_string(i), total = std::to_string(tests.size());
        return std::string(total.size() - n.size(), '0') + n;
    }

    bool body(int fn) {
        const Script& s = script[fn];
        ++K.run_events;
        if (started < (int) tests.size() && tests[(std::size_t) started] != fn)
            note("order", "test function " + std::to_string(fn) + " ran as number " + std::to_string(started + 1) + ", registered there is " + std::to_string(tests[(std::size_t) started]));
        if (started >= (int) tests.size()) { note("order", "more tests ran than were registered"); return true; }
        ++started;
        if (mod->get_message_count() != queue.size()) note("messages", "messages of an earlier test are left over");
        const char* name = NAMES[s.name];
        mod->start_test(name);
        stage = 0;
        want_out += "Test #" + num(started) + " - '" + name + "' starting.\n";
        sure = want_out.size();
        delivered_check("after a test was announced");
        for (auto [kind, a] : s.steps) step(kind, a);
        want_out += "Test #" + num(started) + " - '" + name + "' " + (s.result ? "succeeded" : "failed") + " with " + std::to_string(stage) + (stage == 1 ? " successful stage.\n" : " successful stages.\n");
        want_out += std::string(6 + num(started).size(), '=') + "\n";
        sure = want_out.size();
        if (s.result) ++good;
        else {
            ++failed;
            report += "Test #" + std::to_string(started) + " - '" + name + "' failed on stage " + std::to_string(stage + 1) + "\n";
        }
        queue.clear();
        return s.result;
    }
    void step(int kind, i64 a) {
        K.shape = mix(K.shape, (u64) kind);
        std::size_t n = dummies.size(), i = n ? (std::size_t) a % n : 0;
        switch (kind) {
            case 0:
                mod->end_stage();
                want_out += "Stage " + std::to_string(++stage) + " completed successfully.\n";
                sure = want_out.size();
                delivered_check("after a stage");
                break;
            case 1: mod->log_info() << "value " << a << '\n'; want_out += "info: value " + std::to_string(a) + "\n"; break;
            case 2: mod->log_error() << "code " << a << '\n'; want_err += "error: code " + std::to_string(a) + "\n"; break;
            case 3: {
                int v = (int) a;
                if (a % 4 == 0) { dummies.push_back({std::make_unique<Dummy>(mod), 0}); }
                else dummies.push_back({std::make_unique<Dummy>(mod, v), v});
                queue.push_back(Message::constructor_called);
                break;
            }
            case 4:
                if (!n) break;
                { auto d = std::make_unique<Dummy>(std::as_const(*dummies[i].d)); int v = dummies[i].v; dummies.push_back({std::move(d), v}); }
                queue.push_back(Message::copy_constructor_called);
                break;
            case 5:
                if (!n) break;
                { auto d = std::make_unique<Dummy>(std::move(*dummies[i].d)); int v = dummies[i].v; dummies[i].v = 0; dummies.push_back({std::move(d), v}); }
                queue.push_back(Message::move_constructor_called);
                break;
            case 6:
                if (!n) break;
                dummies.erase(dummies.begin() + (std::ptrdiff_t) i);
                queue.push_back(Message::destructor_called);
                break;
            case 7: if (n) { dummies[i].d->set_value((int) a); dummies[i].v = (int) a; } break;
            case 8:
                for (D& d : dummies) if (d.d->get_value() != d.v) { note("dummy", "a dummy has the value " + std::to_string(d.d->get_value()) + ", expected " + std::to_string(d.v)); break; }
                break;
            case 9: {
                Message m = mod->pop_message(), w = Message::empty;
                if (!queue.empty()) { w = queue.front(); queue.pop_front(); }
                if (m != w) note("messages", "message " + std::to_string((int) m) + " instead of " + std::to_string((int) w));
                break;
            }
            case 10: break;
            case 11: {
                Message m = (Message) (1 + a % 4);
                mod->push_message(m);
                queue.push_back(m);
                break;
            }
            case 12: mod->clear_message_queue(); queue.clear(); break;
            case 13:
                ++stats.faults["process_death"];
                siglongjmp(death, 1);
        }
        if (mod->get_message_count() != queue.size())
            note("messages", std::to_string(mod->get_message_count()) + " messages waiting, expected " + std::to_string(queue.size()));
    }

    struct Redirect {
        std::streambuf *o, *e;
        std::ios_base::iostate os, es;
        Redirect(Console& a, Console& b) : o{std::cout.rdbuf(&a)}, e{std::cerr.rdbuf(&b)} { std::cout.clear(); std::cerr.clear(); }
        ~Redirect() { std::cout.rdbuf(o); std::cerr.rdbuf(e); cur = nullptr; }
    };

    void execute(const Plan& p) override {
        std::size_t cap = 64;
        for (int i = 0; i < NFN; ++i) script[i] = Script{};
        tests.clear(); queue.clear(); dummies.clear(); bad.reset();
        want_out.clear(); want_err.clear(); sure = 0;
        std::vector<Module::test_function_pointer> fns;
        for (const Step& s : p.steps) {
            int fn = (int) ((u64) s.arg(0) % NFN);
            if (s.op == "buf") cap = (std::size_t) s.arg(0);
            if (s.op == "name") script[fn].name = (int) ((u64) s.arg(1) % NNAME);
            if (s.op == "result") script[fn].result = s.arg(1);
            if (s.op == "do") script[fn].steps.push_back({(int) s.arg(1), s.arg(2)});
            if (s.op == "test") { tests.push_back(fn); fns.push_back(fn_at(fn, std::make_integer_sequence<int, NFN>{})); }
        }
        Console co{cap}, ce{1};
        out = &co; err = &ce;
        cur = this;
        alignas(Module) static unsigned char room[sizeof(Module)];
        bool alive = true;
        {
            Redirect redirect(co, ce);
            mod = new (room) Module(fns);
            int runs = 0;
            for (const Step& s : p.steps) {
                if (s.op == "room") { co.room = s.arg(0); K.shape = mix(K.shape, 77); }
                if (s.op == "up") {              // the console works again and the program carries on
                    co.room = -1;
                    co.refused = false;
                    std::cout.clear();
                    want_out = co.delivered;
                    // what the stream kept back while the console was gone is not claimed
                    co.push();
                    want_out = co.delivered;
                    sure = want_out.size();
                }
                // "run" is a run of a new module, "again" another one of the same module
                if (s.op != "run" && s.op != "again") continue;
                if (runs && s.op == "run") {
                    dummies.clear();
                    queue.clear();
                    mod->~Module();
                    mod = new (room) Module(fns);
                }
                if (runs++) probe(s.op == "run" ? "next_module" : "module_run_again");
                started = failed = good = 0;
                report.clear();
                Op o(s);
                if (sigsetjmp(death, 1)) {
                    alive = false;
                    K.in_op = false;
                    delivered_check("when the process died");
                    if (open()) probe("died_with_working_console");
                    break;
                }
                int r = mod->run_tests();
                K.mixv((u64) r);
                if (started != (int) tests.size()) note("order", std::to_string(started) + " of " + std::to_string(tests.size()) + " tests ran");
                if (r != failed) note("verdict", "run_tests returned " + std::to_string(r) + " with " + std::to_string(failed) + " failed tests");
                want_out += "Successful tests: " + std::to_string(good) + "\nFailed tests: " + std::to_string(failed) + "\n\n" + report;
                sure = want_out.size();
                delivered_check("after the run");
                if (mod->get_message_count() != 0) note("messages", "messages are left over after the run");
                if (ce.delivered != want_err) note("report", "standard error: " + tail(ce.delivered) + " expected " + tail(want_err));
                K.shape = mix(K.shape, (u64) (failed ? 2 : 0) + (open() ? 1 : 0));
                if (bad) break;
            }
            dummies.clear();
            if (alive) mod->~Module();
        }
        if (bad) throw *bad;
    }

    void generate(Rng& r, Plan& p) override {
        static const i64 caps[] = {1, 2, 5, 16, 64, 200, 1024, 8192};
        p.steps.push_back({"buf", {caps[r.below(8)]}, {}});
        int n = r.chance(1, 30) ? 0 : (int) r.range(1, 14);
        bool many = r.chance(1, 20), talk = r.chance(2, 3), dum = r.chance(2, 3);
        bool dies = r.chance(1, 3), mayfail = r.chance(4, 5);
        int nf = n < NFN ? n : NFN;
        for (int i = 0; i < nf; ++i) {
            p.steps.push_back({"name", {i, (i64) r.below(NNAME)}, {}});
            if (mayfail && r.chance(1, 3)) p.steps.push_back({"result", {i, 0}, {}});
            int len = (int) (r.chance(1, 4) ? 0 : r.range(1, 8));
            for (int k = 0; k < len; ++k) {
                i64 kind;
                if (talk && r.chance(1, 2)) kind = r.chance(1, 2) ? 0 : r.range(1, 2);
                else if (dum) kind = r.range(3, 12);
                else kind = r.range(9, 12);
                if (kind == 12 && r.chance(3, 4)) kind = 9;
                p.steps.push_back({"do", {i, kind, (i64) r.below(1000)}, {}});
            }
        }
        if (dies && nf) p.steps.push_back({"do", {(i64) r.below((u64) nf), 13, 0}, {}});
        int total = many && n ? (int) r.range(90, 230) : n;
        for (int i = 0; i < total; ++i) p.steps.push_back({"test", {i < nf && r.chance(5, 6) ? i : (i64) r.below((u64) nf)}, {}});
        bool fault = r.chance(1, 3);
        int runs = r.chance(1, 4) ? (int) r.range(2, 3) : 1;
        for (int i = 0; i < runs; ++i) {
            if (fault && r.chance(1, 2)) p.steps.push_back({"room", {r.chance(1, 3) ? r.range(0, 20) : r.range(0, 2000)}, {}});
            p.steps.push_back({"run", {}, {}});
            if (fault && r.chance(2, 3)) p.steps.push_back({"up", {}, {}});
        }
    }
};

bool run_script(int fn) { return cur->body(fn); }

const Part registered{
    "test", "C24", [](const std::string&) -> Scenario* { return new TestScenario; },
    "cmp::test_module and its dummies (instantiated from /repo's header), std::ostream formatting of the standard library",
    "console (buffered, may stop taking output), death of the process inside a test, the tests themselves"};

} // namespace
} // namespace sim
