// Runs the registered properties: generates cases over several worker processes, shrinks a failure, confirms it three
// times, writes the replay file and the coverage record.
#include "pbt.hpp"

#include <algorithm>
#include <csignal>
#include <fstream>
#include <iostream>
#include <iterator>
#include <set>
#include <unordered_set>

#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include "known.hpp"

namespace pbt
{
std::function<void(const char *)> &commit_hook()
{
    static std::function<void(const char *)> h;
    return h;
}
std::vector<Test> &registry()
{
    static std::vector<Test> r;
    return r;
}
std::vector<KnownTest> &known_registry()
{
    static std::vector<KnownTest> r;
    return r;
}
std::set<std::string> &known_listed()
{
    static std::set<std::string> r;
    return r;
}
} // namespace pbt

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char *__asan_default_options()
{
    return "abort_on_error=1:handle_abort=0:handle_segv=1:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=500";
}
extern "C" const char *__ubsan_default_options()
{
    return "abort_on_error=1:print_stacktrace=1:halt_on_error=1";
}
#endif

#if defined(__SANITIZE_THREAD__)
extern "C" const char *__tsan_default_options()
{
    return "abort_on_error=0:halt_on_error=1:handle_abort=0:handle_segv=0:exitcode=66:report_signal_unsafe=0";
}
#endif

using namespace pbt;

namespace
{
struct Outcome {
    enum Kind { pass, discard, fail } kind = pass;
    std::string msg;
};

Case *g_case = nullptr;
std::string g_crash_file;
const Test *g_test = nullptr;
long g_index = 0;
volatile long g_tick_index = -1;
volatile int g_ticks = 0;
constexpr int hang_ticks = 40; // seconds of CPU time in one case

void dump_crash(const char *what)
{
    if (g_crash_file.empty() || g_case == nullptr) {
        return;
    }
    FILE *f = std::fopen(g_crash_file.c_str(), "w");
    if (f == nullptr) {
        return;
    }
    std::fprintf(f, "%s\n%ld\n%s\n", g_test->name.c_str(), g_index, what);
    for (auto v : g_case->m_choices) {
        std::fprintf(f, "%llu\n", static_cast<unsigned long long>(v));
    }
    std::fclose(f);
}

// CPU time of a process, all its threads included, in clock ticks.
long cpu_ticks(pid_t p)
{
    std::ifstream f("/proc/" + std::to_string(p) + "/stat");
    std::string x;
    std::getline(f, x);
    auto k = x.rfind(')');
    if (k == std::string::npos) {
        return -1;
    }
    std::istringstream in(x.substr(k + 1));
    std::string w;
    long u = 0, v = 0;
    for (int i = 0; i < 11; ++i) {
        in >> w;
    }
    in >> u >> v;
    return u + v;
}
// Waits for a process; one that stays alive without using the CPU for that many looks in a row, one per second, is stuck.
bool wait_child(pid_t p, int &status, int looks)
{
    long last = -2;
    int same = 0, naps = 0;
    while (true) {
        auto r = waitpid(p, &status, WNOHANG);
        if (r != 0) {
            return true;
        }
        usleep(naps < 200 ? 1000 : 20000);
        if (++naps % 50 == 0 && naps > 200) {
            long now = cpu_ticks(p);
            same = now == last ? same + 1 : 0;
            last = now;
            if (same >= looks) {
                kill(p, SIGKILL);
                waitpid(p, &status, 0);
                return false;
            }
        }
    }
}

void on_crash(int sig)
{
    std::signal(sig, SIG_DFL);
    const char *what = sig == SIGSEGV   ? "crash: SIGSEGV"
                       : sig == SIGFPE  ? "crash: SIGFPE"
                       : sig == SIGBUS  ? "crash: SIGBUS"
                       : sig == SIGILL  ? "crash: SIGILL"
                       : sig == SIGABRT ? "crash: abort"
                                        : "crash";
    dump_crash(what);
    _exit(3);
}

// Cases that may end without a signal handler being run leave their record before they start.
void commit(const char *what)
{
    dump_crash(what);
}

void on_tick(int)
{
    if (g_tick_index == g_index) {
        if (++g_ticks >= hang_ticks) {
            dump_crash("hang: one case used more than 40 s of CPU time");
            _exit(4);
        }
    } else {
        g_tick_index = g_index;
        g_ticks = 0;
    }
}

// Runaway allocation is a failure of the case, not the end of the machine.
void limit_memory()
{
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    rlimit l{3ul << 30, 3ul << 30};
    setrlimit(RLIMIT_AS, &l);
#endif
}

void install_handlers()
{
    commit_hook() = commit;
    limit_memory();
    for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGABRT}) {
        std::signal(s, on_crash);
    }
    std::signal(SIGPROF, on_tick);
    itimerval tv{};
    tv.it_interval.tv_sec = 1;
    tv.it_value.tv_sec = 1;
    setitimer(ITIMER_PROF, &tv, nullptr);
}

Outcome run_case(const Test &t, Case &c)
{
    g_case = &c;
    g_test = &t;
    Outcome o;
    try {
        t.fn(c);
    } catch (const Failure &f) {
        o = {Outcome::fail, f.msg};
    } catch (const Discard &) {
        o = {Outcome::discard, ""};
    } catch (const std::exception &e) {
        o = {Outcome::fail, std::string("unexpected exception: ") + e.what()};
    } catch (...) {
        o = {Outcome::fail, "unexpected exception of unknown type"};
    }
    g_case = nullptr;
    return o;
}

std::string json_escape(const std::string &s)
{
    std::string r;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += static_cast<char>(ch);
        } else if (ch == '\n') {
            r += "\\n";
        } else if (ch < 0x20) {
            r += ' ';
        } else {
            r += static_cast<char>(ch);
        }
    }
    return r;
}

struct Stats {
    long evals = 0, discards = 0, nontrivial = 0;
    std::map<std::string, long> labels;
    std::map<std::string, double> metrics;
    std::vector<std::uint64_t> hashes;
    std::vector<std::string> samples;
    bool failed = false;
    long fail_index = -1;
    std::string fail_msg;
    std::vector<std::uint64_t> fail_choices;
    bool crash = false;
};

std::uint64_t case_seed(std::uint64_t seed, const Test &t, long i)
{
    return mix(mix(seed ^ hash_str(t.property + "/" + t.name)) ^ static_cast<std::uint64_t>(i));
}

bool g_crashes_only = false; // wrong numbers are left to the property they belong to

void worker(const Test &t, std::uint64_t seed, long n, int w, int nw, const std::string &out)
{
    Stats s;
    for (long i = w; i < n; i += nw) {
        g_index = i;
        Case c(case_seed(seed, t, i));
        auto o = run_case(t, c);
        if (o.kind == Outcome::discard) {
            ++s.discards;
            continue;
        }
        ++s.evals;
        if (o.kind == Outcome::fail && g_crashes_only) {
            ++s.labels["wrong result (not counted here)"];
            continue;
        }
        if (o.kind == Outcome::fail) {
            s.failed = true;
            s.fail_index = i;
            s.fail_msg = o.msg;
            s.fail_choices = c.m_choices;
            break;
        }
        for (const auto &l : c.m_labels) {
            ++s.labels[l];
        }
        for (const auto &[k, v] : c.m_metrics) {
            auto it = s.metrics.find(k);
            if (it == s.metrics.end()) {
                s.metrics[k] = v;
            } else if (v > it->second) {
                it->second = v;
                if (std::getenv("PBT_WORST") != nullptr && v > std::atof(std::getenv("PBT_WORST"))) {
                    Case d(c.m_choices);
                    d.m_describe = true;
                    run_case(t, d);
                    std::cerr << k << " ratio " << v << ": " << d.m_desc << "\n";
                }
            }
        }
        if (c.m_nontrivial) {
            ++s.nontrivial;
            std::uint64_t h = 0x1234567;
            for (auto v : c.m_choices) {
                h = mix(h ^ v);
            }
            s.hashes.push_back(h);
            if (w == 0 && s.samples.size() < 3) {
                Case d(c.m_choices);
                d.m_describe = true;
                run_case(t, d);
                if (!d.m_desc.empty()) {
                    s.samples.push_back(d.m_desc);
                }
            }
        }
    }
    std::ofstream f(out, std::ios::binary);
    f << s.evals << " " << s.discards << " " << s.nontrivial << "\n";
    f << s.labels.size() << "\n";
    for (const auto &[k, v] : s.labels) {
        f << v << " " << k << "\n";
    }
    f << s.metrics.size() << "\n";
    f.precision(17);
    for (const auto &[k, v] : s.metrics) {
        f << v << " " << k << "\n";
    }
    f << s.samples.size() << "\n";
    for (auto x : s.samples) {
        std::replace(x.begin(), x.end(), '\n', ' ');
        f << x << "\n";
    }
    f << (s.failed ? 1 : 0) << " " << s.fail_index << " " << s.fail_choices.size() << "\n";
    if (s.failed) {
        std::replace(s.fail_msg.begin(), s.fail_msg.end(), '\n', ' ');
        f << s.fail_msg << "\n";
        for (auto v : s.fail_choices) {
            f << v << " ";
        }
        f << "\n";
    }
    f << s.hashes.size() << "\n";
    f.write(reinterpret_cast<const char *>(s.hashes.data()), static_cast<long>(s.hashes.size() * 8));
    f.close();
}

bool read_worker(const std::string &path, Stats &s, std::unordered_set<std::uint64_t> &hs)
{
    std::ifstream f(path, std::ios::binary);
    if (!f) {
        return false;
    }
    Stats w;
    f >> w.evals >> w.discards >> w.nontrivial;
    std::size_t n = 0;
    std::string line;
    f >> n;
    for (std::size_t i = 0; i < n; ++i) {
        long v = 0;
        f >> v;
        f.get();
        std::getline(f, line);
        s.labels[line] += v;
    }
    f >> n;
    for (std::size_t i = 0; i < n; ++i) {
        double v = 0;
        f >> v;
        f.get();
        std::getline(f, line);
        auto it = s.metrics.find(line);
        if (it == s.metrics.end() || it->second < v) {
            s.metrics[line] = v;
        }
    }
    f >> n;
    f.get();
    for (std::size_t i = 0; i < n; ++i) {
        std::getline(f, line);
        s.samples.push_back(line);
    }
    int failed = 0;
    std::size_t nc = 0;
    f >> failed >> w.fail_index >> nc;
    f.get();
    if (failed != 0) {
        std::getline(f, w.fail_msg);
        w.fail_choices.resize(nc);
        for (auto &v : w.fail_choices) {
            f >> v;
        }
        if (!s.failed || w.fail_index < s.fail_index) {
            s.failed = true;
            s.crash = false;
            s.fail_index = w.fail_index;
            s.fail_msg = w.fail_msg;
            s.fail_choices = w.fail_choices;
        }
    }
    f >> n;
    f.get();
    std::vector<std::uint64_t> h(n);
    f.read(reinterpret_cast<char *>(h.data()), static_cast<long>(n * 8));
    hs.insert(h.begin(), h.end());
    s.evals += w.evals;
    s.discards += w.discards;
    s.nontrivial += w.nontrivial;
    return static_cast<bool>(f) || n == 0;
}

void read_crash(const std::string &path, Stats &s, int status, bool moving)
{
    std::ifstream f(path);
    std::string name, idx, what;
    std::vector<std::uint64_t> ch;
    long index = 0;
    if (f) {
        std::getline(f, name);
        std::getline(f, idx);
        std::getline(f, what);
        index = std::atol(idx.c_str());
        std::uint64_t v = 0;
        while (f >> v) {
            ch.push_back(v);
        }
    } else {
        std::cerr << "worker ended with status " << status << " and no crash record\n";
        return;
    }
    if (!s.failed || index < s.fail_index) {
        s.failed = true;
        s.crash = true;
        s.fail_index = index;
        s.fail_msg = moving ? what : "deadlock: no CPU time used for a minute";
        s.fail_choices = ch;
    }
}

// Evaluates one recorded case, in a child process when isolate is set (crashes).
Outcome eval_choices(const Test &t, std::vector<std::uint64_t> &ch, bool isolate, const std::string &tmp)
{
    if (!isolate) {
        Case c(ch);
        auto o = run_case(t, c);
        if (c.m_pos < c.m_choices.size()) {
            c.m_choices.resize(c.m_pos);
        }
        ch = c.m_choices;
        return o;
    }
    std::string cf = tmp + "/iso";
    std::remove(cf.c_str());
    pid_t p = fork();
    if (p == 0) {
        g_crash_file = cf;
        g_index = 0;
        g_ticks = 0;
        if (std::getenv("PBT_VERBOSE") == nullptr) {
            if (std::freopen("/dev/null", "w", stderr) == nullptr) {
                _exit(9);
            }
        }
        install_handlers();
        Case c(ch);
        auto o = run_case(t, c);
        _exit(o.kind == Outcome::fail && !g_crashes_only ? 5 : 0);
    }
    int st = 0;
    bool moving = wait_child(p, st, 20);
    if (moving && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        return {};
    }
    std::ifstream f(cf);
    std::string a, b, what = "failure";
    if (f) {
        std::getline(f, a);
        std::getline(f, b);
        std::getline(f, what);
    }
    return {Outcome::fail, moving ? what : "deadlock: no progress"};
}

bool simpler(const std::vector<std::uint64_t> &a, const std::vector<std::uint64_t> &b)
{
    if (a.size() != b.size()) {
        return a.size() < b.size();
    }
    return a < b;
}

void shrink_here(const Test &t, Stats &s, const std::string &tmp, const std::function<void()> &found)
{
    if (s.fail_msg.rfind("hang", 0) == 0 || s.fail_msg.rfind("deadlock", 0) == 0) {
        return;
    }
    long budget = s.crash ? 300 : 4000;
    rusage ru0{}; // the children of this process are its own attempts
    getrusage(RUSAGE_SELF, &ru0);
    auto attempt = [&](std::vector<std::uint64_t> cand) {
        if (budget-- <= 0) {
            return false;
        }
        rusage ru{}, rc{};
        getrusage(RUSAGE_SELF, &ru);
        getrusage(RUSAGE_CHILDREN, &rc);
        if (ru.ru_utime.tv_sec - ru0.ru_utime.tv_sec + rc.ru_utime.tv_sec > 60) {
            budget = 0;
            return false;
        }
        auto o = eval_choices(t, cand, s.crash, tmp);
        if (o.kind == Outcome::fail && simpler(cand, s.fail_choices)) {
            s.fail_choices = cand;
            s.fail_msg = o.msg;
            std::replace(s.fail_msg.begin(), s.fail_msg.end(), '\n', ' ');
            found();
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && budget > 0) {
        progress = false;
        // Delete blocks.
        for (std::size_t blk : {16u, 8u, 4u, 3u, 2u, 1u}) {
            for (std::size_t i = s.fail_choices.size(); i-- > 0 && budget > 0;) {
                if (i + blk > s.fail_choices.size()) {
                    continue;
                }
                auto cand = s.fail_choices;
                cand.erase(cand.begin() + static_cast<long>(i), cand.begin() + static_cast<long>(i + blk));
                progress |= attempt(cand);
            }
        }
        // Zero blocks.
        for (std::size_t blk : {8u, 4u, 2u, 1u}) {
            for (std::size_t i = 0; i + blk <= s.fail_choices.size() && budget > 0; i += blk) {
                auto cand = s.fail_choices;
                bool any = false;
                for (std::size_t j = i; j < i + blk; ++j) {
                    any |= cand[j] != 0;
                    cand[j] = 0;
                }
                if (any) {
                    progress |= attempt(cand);
                }
            }
        }
        // Keep only the leading bits of one choice.
        for (std::size_t i = 0; i < s.fail_choices.size() && budget > 0; ++i) {
            for (int keep : {1, 2, 3, 4, 6, 8, 12, 16, 24, 32}) {
                std::uint64_t m = ~std::uint64_t{0} << (64 - keep);
                if (i >= s.fail_choices.size()) {
                    break;
                }
                if ((s.fail_choices[i] & m) == s.fail_choices[i]) {
                    break;
                }
                auto cand = s.fail_choices;
                cand[i] &= m;
                if (attempt(cand)) {
                    progress = true;
                    break;
                }
            }
        }
        // Halve one choice.
        for (std::size_t i = 0; i < s.fail_choices.size() && budget > 0; ++i) {
            for (int k = 0; k < 6 && i < s.fail_choices.size() && s.fail_choices[i] != 0; ++k) {
                auto cand = s.fail_choices;
                cand[i] /= 2;
                cand[i] &= ~std::uint64_t{0} << 40;
                if (!attempt(cand)) {
                    break;
                }
                progress = true;
            }
        }
    }
}

// Shrinks in a child process, because a simpler case may crash or hang where the first one merely failed; what it had
// found by then counts.
void shrink(const Test &t, Stats &s, const std::string &tmp)
{
    std::string path = tmp + "/shrunk";
    std::cout.flush();
    pid_t p = fork();
    if (p == 0) {
        install_handlers();
        g_crash_file.clear();
        rlimit l{100, 100};
        setrlimit(RLIMIT_CPU, &l);
        shrink_here(t, s, tmp, [&]() {
            {
                std::ofstream f(path + ".new");
                f << s.fail_msg << "\n";
                for (auto v : s.fail_choices) {
                    f << v << "\n";
                }
            }
            std::rename((path + ".new").c_str(), path.c_str());
        });
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    std::ifstream f(path);
    std::string msg;
    if (f && std::getline(f, msg)) {
        s.fail_msg = msg;
        s.fail_choices.clear();
        std::uint64_t v = 0;
        while (f >> v) {
            s.fail_choices.push_back(v);
        }
    }
}

std::string describe(const Test &t, const std::vector<std::uint64_t> &ch, const std::string &tmp)
{
    std::string path = tmp + "/described";
    std::cout.flush();
    pid_t p = fork();
    if (p == 0) {
        install_handlers();
        g_crash_file.clear();
        rlimit l{60, 60};
        setrlimit(RLIMIT_CPU, &l);
        if (std::getenv("PBT_VERBOSE") == nullptr && std::freopen("/dev/null", "w", stderr) == nullptr) {
            _exit(9);
        }
        Case c(ch);
        c.m_describe = true;
        c.m_describe_file = path;
        run_case(t, c);
        std::ofstream(path) << c.m_desc;
        _exit(0);
    }
    int st = 0;
    wait_child(p, st, 20);
    std::ifstream f(path);
    return {std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()};
}

bool run_case_forked(const Test &t, const std::vector<std::uint64_t> &ch)
{
    pid_t p = fork();
    if (p == 0) {
        Case c(ch);
        run_case(t, c);
        _exit(0);
    }
    int st = 0;
    wait_child(p, st, 20);
    return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

} // namespace

int main(int argc, char **argv)
{
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) {
        a[argv[i]] = argv[i + 1];
    }
    const std::string property = a["--property"], tier = a.count("--tier") ? a["--tier"] : "quick";
    const std::uint64_t seed = a.count("--seed") ? std::stoull(a["--seed"]) : 1;
    const int nw = a.count("--workers") ? std::stoi(a["--workers"]) : 8;
    const double scale = a.count("--scale") ? std::stod(a["--scale"]) : 1.;
    // --as ID: run the tests of all properties in this binary, count crashes and sanitizer reports only, report them as ID.
    const bool all = a.count("--as") != 0;
    const std::string as = all ? a["--as"] : property, tag = a.count("--tag") != 0 ? a["--tag"] : as;
    g_crashes_only = all;
    auto full_name = [&](const Test &t) { return all ? t.property + "-" + t.name : t.name; };
    const std::string only = a["--test"], tmp = a["--tmp"], replays = a["--replays"], out = a["--out"];

    // Known findings listed in the committed file: one id per line in the file given.
    if (a.count("--known")) {
        std::ifstream f(a["--known"]);
        std::string id;
        while (f >> id) {
            known_listed().insert(id);
        }
    }

    if (a.count("--replay")) {
        // A file with: test name, then choices.
        std::ifstream f(a["--replay"]);
        std::string name;
        std::getline(f, name);
        std::vector<std::uint64_t> ch;
        std::uint64_t v = 0;
        while (f >> v) {
            ch.push_back(v);
        }
        for (const auto &t : registry()) {
            if (full_name(t) == name && (all || t.property == property)) {
                if (all) {
                    // What the sanitizer says goes to stderr.
                    auto o = run_case_forked(t, ch);
                    std::cout << (o ? "FAILS: crash" : "passes") << "\n";
                    return o ? 1 : 0;
                }
                Case c(ch);
                c.m_describe = true;
                auto o = run_case(t, c);
                std::cout << "case: " << c.m_desc << "\n";
                std::cout << (o.kind == Outcome::fail ? "FAILS: " + o.msg : std::string("passes")) << "\n";
                return o.kind == Outcome::fail ? 1 : 0;
            }
        }
        std::cout << "no such test: " << name << "\n";
        return 2;
    }

    std::ostringstream js;
    js << "{\"tests\": [";
    bool first = true;
    bool violation = false;
    int ntests = 0;
    for (const auto &t : registry()) {
        if ((!all && t.property != property) || (!only.empty() && full_name(t) != only)) {
            continue;
        }
        ++ntests;
        long n = static_cast<long>(static_cast<double>(tier == "thorough" ? t.thorough : t.quick) * scale);
        std::vector<pid_t> pids;
        for (int w = 0; w < nw; ++w) {
            std::cout.flush();
            pid_t p = fork();
            if (p == 0) {
                g_crash_file = tmp + "/crash" + std::to_string(w);
                g_test = &t;
                install_handlers();
                worker(t, seed, n, w, nw, tmp + "/w" + std::to_string(w));
                _exit(0);
            }
            pids.push_back(p);
        }
        Stats s;
        std::unordered_set<std::uint64_t> hs;
        bool broken = false;
        for (int w = 0; w < nw; ++w) {
            int st = 0;
            bool moving = wait_child(pids[static_cast<std::size_t>(w)], st, 60);
            if (moving && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                if (!read_worker(tmp + "/w" + std::to_string(w), s, hs)) {
                    broken = true;
                }
            } else {
                std::ifstream probe(tmp + "/crash" + std::to_string(w));
                if (!probe) {
                    broken = true;
                }
                read_crash(tmp + "/crash" + std::to_string(w), s, st, moving);
            }
        }
        if (broken) {
            std::cerr << "a worker was lost in " << t.name << "\n";
            return 2;
        }
        std::string replay_file;
        if (s.failed) {
            shrink(t, s, tmp);
            // Confirm: the shrunk case must fail three times out of three.
            int fails = 0;
            for (int k = 0; k < 3; ++k) {
                auto ch = s.fail_choices;
                fails += eval_choices(t, ch, true, tmp).kind == Outcome::fail ? 1 : 0;
            }
            replay_file = replays + "/" + tag + "-" + full_name(t) + "-seed" + std::to_string(seed) + ".replay";
            std::ofstream f(replay_file);
            f << full_name(t) << "\n";
            for (auto v : s.fail_choices) {
                f << v << "\n";
            }
            f.close();
            if (fails < 3) {
                // Not a function of the case: report it with what is known rather than drop it.
                s.fail_msg += " [replayed " + std::to_string(fails) + "/3 times]";
            }
            std::cout << "property " << as << ", test " << full_name(t) << ", case " << s.fail_index << ": " << s.fail_msg
                      << "\n  shrunk case: " << describe(t, s.fail_choices, tmp) << "\n";
            std::cout << "\nVIOLATION property=" << as << " replay=" << replay_file << std::endl;
            violation = true;
        }
        js << (first ? "" : ",") << "\n {\"name\": \"" << json_escape(full_name(t)) << "\", \"rule\": \"" << json_escape(t.rule)
           << "\", \"evaluations\": " << s.evals << ", \"discarded\": " << s.discards
           << ", \"nontrivial\": " << s.nontrivial << ", \"distinct_nontrivial\": " << hs.size() << ", \"labels\": {";
        bool f2 = true;
        for (const auto &[k, v] : s.labels) {
            js << (f2 ? "" : ", ") << "\"" << json_escape(k) << "\": " << v;
            f2 = false;
        }
        js << "}, \"worst_ratio_to_tolerance\": {";
        f2 = true;
        for (const auto &[k, v] : s.metrics) {
            js << (f2 ? "" : ", ") << "\"" << json_escape(k) << "\": " << v;
            f2 = false;
        }
        js << "}, \"samples\": [";
        f2 = true;
        for (const auto &x : s.samples) {
            js << (f2 ? "" : ", ") << "\"" << json_escape(x) << "\"";
            f2 = false;
        }
        js << "], \"failed\": " << (s.failed ? "true" : "false") << ", \"message\": \"" << json_escape(s.fail_msg)
           << "\", \"replay\": \"" << json_escape(replay_file) << "\"}";
        first = false;
        if (violation) {
            break;
        }
    }
    js << "], \"known\": [";
    first = true;
    for (const auto &k : known_registry()) {
        if (k.property != property || known_listed().count(k.id) == 0) {
            continue;
        }
        bool still = false;
        try {
            still = k.still_fails();
        } catch (const std::exception &e) {
            std::cerr << k.id << ": " << e.what() << "\n";
        }
        if (still) {
            std::cout << "KNOWN-FINDING: property=" << property << " " << k.id << ": " << k.what << std::endl;
        }
        js << (first ? "" : ", ") << "{\"id\": \"" << k.id << "\", \"still_fails\": " << (still ? "true" : "false") << "}";
        first = false;
    }
    js << "]}\n";
    if (!out.empty()) {
        std::ofstream f(out);
        f << js.str();
    }
    if (ntests == 0) {
        std::cerr << "no tests for property " << property << "\n";
        return 2;
    }
    return violation ? 1 : 0;
}
