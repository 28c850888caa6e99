#include "mc.h"

#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace mc
{
namespace
{

const int kFailExit = 42;
const uint32_t kMaxPath = 20000;
const uint32_t kMaxMessage = 6000;
const size_t kSetCap = 4000000;

struct Shm
{
    // what is being executed right now
    volatile uint64_t progress;
    volatile uint32_t path_length;
    uint32_t pick[kMaxPath];
    // verdict
    volatile int failed;
    char message[kMaxMessage];
    // counters
    uint64_t executions, steps, choices, discarded, diverged;
    volatile int capped;
    volatile int finished;
    volatile uint64_t exec_index; // index of the current execution in this worker
    int deepest;
    char known[4000];
};

struct Scenario
{
    std::string name, bound;
    std::function<void()> body;
    Options options;
};

struct Point { uint32_t n, pick; bool dev; };

struct Discard {};

std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
std::vector<std::function<void()> >& hooks() { static std::vector<std::function<void()> > h; return h; }
std::string g_rule;

Shm* g_shm = 0;
bool g_tracing = false;
FILE* g_trace = 0;
bool g_count = true;
bool g_thorough = false;
int g_seed = 1;
double g_deadline = 0;
std::set<std::string> g_known;

std::vector<uint32_t> g_prefix;
std::vector<Point> g_points;
int g_dev_used = 0, g_dev_max = 0;

typedef std::unordered_set<uint64_t> HashSet;
HashSet* g_states = 0;
HashSet* g_outcomes = 0;
bool g_set_capped = false;

double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

int take(int n, bool dev, const char* label)
{
    if (n < 1)
    {
        std::fprintf(stderr, "mc: choose(%d)\n", n);
        std::abort();
    }
    if (n == 1 || (dev && g_dev_used >= g_dev_max))
    {
        return 0;
    }
    size_t i = g_points.size();
    Point p;
    p.n = n; p.pick = 0; p.dev = dev;
    if (i < g_prefix.size())
    {
        p.pick = g_prefix[i];
        if (p.pick >= p.n)
        {
            if (g_shm) g_shm->diverged++;
            p.pick = 0;
        }
    }
    g_points.push_back(p);
    if (dev && p.pick) g_dev_used++;
    if (g_shm)
    {
        if (i < kMaxPath) { g_shm->pick[i] = p.pick; g_shm->path_length = i + 1; }
        else MC_FAIL("the execution did not end within " << kMaxPath << " choices");
        if (g_count) g_shm->choices++;
    }
    if (g_tracing && g_trace && *label)
    {
        std::fprintf(g_trace, "    choice %zu: %s = %u of %d\n", i, label, p.pick, n);
        std::fflush(g_trace);
    }
    return p.pick;
}

void run_once(const Scenario& s, const std::vector<uint32_t>& prefix)
{
    g_prefix = prefix;
    g_points.clear();
    g_dev_used = 0;
    g_dev_max = s.options.max_deviations;
    g_shm->path_length = 0;
    g_shm->progress++;
    try
    {
        s.body();
    }
    catch (const Discard&)
    {
        if (g_count) g_shm->discarded++;
    }
    catch (const std::exception& e)
    {
        MC_FAIL("an exception escaped from the library: " << e.what());
    }
    catch (const char* e)
    {
        MC_FAIL("an exception escaped from the library: " << e);
    }
    catch (...)
    {
        mc::fail("an unknown exception escaped from the library");
    }
    if (g_points.size() < prefix.size()) g_shm->diverged++;
    if (g_count)
    {
        g_shm->executions++;
        if ((int)g_points.size() > g_shm->deepest) g_shm->deepest = g_points.size();
    }
}

// Whatever is initialised on first use is initialised before exploring.
void warm_up(const Scenario& s)
{
    if (!s.options.warm_up) return;
    bool count = g_count, tracing = g_tracing;
    g_count = g_tracing = false;
    run_once(s, std::vector<uint32_t>());
    g_count = count; g_tracing = tracing;
}

struct Worker
{
    const Scenario& s;
    int index, count;
    uint64_t trace_at; // execution index to trace, or ~0
    FILE* trace_file;
    uint64_t executed;

    Worker(const Scenario& s_, int index_, int count_)
        : s(s_), index(index_), count(count_), trace_at(~0ull), trace_file(0), executed(0) {}

    bool owned(uint64_t h) const { return (int)((h >> 17) % count) == index; }

    void explore(const std::vector<uint32_t>& prefix, int depth, uint64_t id)
    {
        if (g_shm->capped) return;
        if (g_deadline && now() > g_deadline && trace_at == ~0ull)
        {
            g_shm->capped = 1;
            return;
        }
        g_count = depth >= 2 || index == 0;
        g_shm->exec_index = executed;
        if (executed == trace_at)
        {
            g_tracing = true;
            g_trace = trace_file;
        }
        executed++;
        run_once(s, prefix);
        std::vector<Point> path(g_points);
        int dev = 0;
        for (size_t i = 0; i < prefix.size() && i < path.size(); ++i)
        {
            if (path[i].dev && path[i].pick) dev++;
        }
        for (size_t i = prefix.size(); i < path.size(); ++i)
        {
            if (path[i].dev && dev >= s.options.max_deviations) continue;
            for (uint32_t alt = 1; alt < path[i].n; ++alt)
            {
                uint64_t child = mix(mix(id, i), alt);
                if (depth + 1 == 2 && !owned(child)) continue;
                std::vector<uint32_t> next(i + 1);
                for (size_t k = 0; k < i; ++k) next[k] = path[k].pick;
                next[i] = alt;
                explore(next, depth + 1, child);
                if (g_shm->capped) return;
            }
        }
    }
};

Shm* new_shm()
{
    void* p = mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { std::perror("mmap"); std::exit(3); }
    std::memset(p, 0, sizeof(Shm));
    return (Shm*)p;
}

void silence()
{
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    if (!std::getenv("MC_STDERR")) dup2(fd, 2);
    close(fd);
}

void write_set(const std::string& path, const HashSet& set)
{
    FILE* f = std::fopen(path.c_str(), "wb");
    if (!f) return;
    std::vector<uint64_t> v(set.begin(), set.end());
    if (!v.empty()) { size_t k = std::fwrite(&v[0], 8, v.size(), f); (void)k; }
    std::fclose(f);
}

void read_set(const std::string& path, HashSet& set)
{
    FILE* f = std::fopen(path.c_str(), "rb");
    if (!f) return;
    uint64_t buffer[4096];
    size_t n;
    while ((n = std::fread(buffer, 8, 4096, f)) > 0) set.insert(buffer, buffer + n);
    std::fclose(f);
    unlink(path.c_str());
}

struct Verdict
{
    bool bad;
    std::string message;
    Verdict() : bad(false) {}
};

std::string describe_status(int status)
{
    std::ostringstream os;
    if (WIFSIGNALED(status)) os << "the process was killed by signal " << WTERMSIG(status)
                                << " (" << strsignal(WTERMSIG(status)) << ")";
    else os << "the process ended with status " << WEXITSTATUS(status)
            << " (memory error reported by the sanitizer, or an exit() in the library)";
    return os.str();
}

std::string slurp_tail(const std::string& path, size_t limit)
{
    std::ifstream in(path.c_str());
    std::stringstream ss;
    ss << in.rdbuf();
    std::string s = ss.str();
    return s.size() > limit ? s.substr(0, limit) : s;
}

// An execution that needs more is taken for one that does not end.
const long kMaxResidentMb = 2500;

long resident_mb(pid_t pid)
{
    char name[64];
    std::snprintf(name, sizeof name, "/proc/%d/statm", (int) pid);
    long size = 0, resident = 0;
    if (FILE* f = std::fopen(name, "r"))
    {
        if (std::fscanf(f, "%ld %ld", &size, &resident) != 2) resident = 0;
        std::fclose(f);
    }
    return resident / (1048576 / sysconf(_SC_PAGESIZE));
}

// Executes one path (or one worker's whole history up to `upto`) alone in a
// child and says what happened.
Verdict replay(const Scenario& s, const std::vector<uint32_t>* path, int index, int count,
               uint64_t upto, const std::string& trace_path, double limit)
{
    Shm* shm = new_shm();
    std::string err_path = trace_path + ".stderr";
    std::fflush(0);
    pid_t pid = fork();
    if (pid == 0)
    {
        g_shm = shm;
        silence();
        int efd = open(err_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (efd >= 0) { dup2(efd, 2); close(efd); }
        HashSet a, b;
        g_states = &a; g_outcomes = &b;
        for (size_t i = 0; i < hooks().size(); ++i) hooks()[i]();
        warm_up(s);
        FILE* f = std::fopen(trace_path.c_str(), "w");
        if (path)
        {
            g_tracing = true;
            g_trace = f;
            run_once(s, *path);
        }
        else
        {
            g_deadline = 0;
            Worker w(s, index, count);
            w.trace_at = upto;
            w.trace_file = f;
            w.explore(std::vector<uint32_t>(), 0, 1);
        }
        if (f) std::fclose(f);
        shm->finished = 1;
        _exit(0);
    }
    Verdict v;
    double start = now();
    int status = 0;
    while (true)
    {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) break;
        bool large = resident_mb(pid) > kMaxResidentMb;
        if (large || now() - start > limit)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            v.bad = true;
            v.message = large ? "the execution uses more and more memory" : "the execution did not terminate";
            break;
        }
        { timespec ts = {0, 2000000}; nanosleep(&ts, 0); };
    }
    if (!v.bad)
    {
        if (shm->failed) { v.bad = true; v.message = shm->message; }
        else if (!shm->finished)
        {
            v.bad = true;
            v.message = "crash: " + describe_status(status);
            std::string e = slurp_tail(err_path, 1500);
            if (!e.empty()) v.message += "\n" + e;
        }
    }
    unlink(err_path.c_str());
    munmap(shm, sizeof(Shm));
    return v;
}

std::string json_escape(const std::string& s)
{
    std::string out;
    for (size_t i = 0; i < s.size(); ++i)
    {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { out += '\\'; out += c; }
        else if (c == '\n') out += "\\n";
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); out += b; }
        else out += c;
    }
    return out;
}

std::string path_text(const std::vector<uint32_t>& p)
{
    std::ostringstream os;
    for (size_t i = 0; i < p.size(); ++i) os << (i ? " " : "") << p[i];
    return os.str();
}

struct Totals
{
    uint64_t executions, steps, choices, discarded, diverged, states, outcomes, unreproduced;
    bool capped;
    Totals() : executions(0), steps(0), choices(0), discarded(0), diverged(0), states(0),
               outcomes(0), unreproduced(0), capped(false) {}
};

} // namespace

int choose(int n, const char* label) { return take(n, false, label); }
int deviate(int n, const char* label) { return take(n, true, label); }
int deviations_left() { return g_dev_max - g_dev_used; }

void step(uint64_t n) { if (g_count && g_shm) g_shm->steps += n; }

void state(uint64_t h)
{
    if (!g_count || !g_states) return;
    if (g_states->size() < kSetCap) g_states->insert(h); else g_set_capped = true;
}

void outcome(uint64_t h)
{
    if (!g_count || !g_outcomes) return;
    if (g_outcomes->size() < kSetCap) g_outcomes->insert(h); else g_set_capped = true;
}

bool tracing() { return g_tracing; }

void trace(const std::string& line)
{
    static long lines = 0;
    if (g_tracing && g_trace && ++lines <= 20000)
    {
        if (lines == 20000) std::fprintf(g_trace, "...\n");
        else std::fprintf(g_trace, "%s\n", line.c_str());
        std::fflush(g_trace);
    }
}

void fail(const std::string& message)
{
    if (g_shm)
    {
        std::strncpy(g_shm->message, message.c_str(), kMaxMessage - 1);
        g_shm->failed = 1;
    }
    if (g_trace)
    {
        std::fprintf(g_trace, "FAILED: %s\n", message.c_str());
        std::fflush(g_trace);
    }
    _exit(kFailExit);
}

void discard() { throw Discard(); }

void fail_known(const std::string& key, const std::string& message)
{
    if (!g_known.count(key)) fail("[" + key + "] " + message);
    if (g_shm && !std::strstr(g_shm->known, (key + "\n").c_str()) &&
        std::strlen(g_shm->known) + key.size() + 2 < sizeof g_shm->known)
    {
        std::strcat(g_shm->known, (key + "\n").c_str());
    }
}

bool thorough() { return g_thorough; }
int seed() { return g_seed; }

void add(const std::string& name, const std::string& bound, const std::function<void()>& body,
         const Options& options)
{
    Scenario s;
    s.name = name; s.bound = bound; s.body = body; s.options = options;
    scenarios().push_back(s);
}

void describe(const std::string& rule) { g_rule = rule; }
void at_worker_start(const std::function<void()>& hook) { hooks().push_back(hook); }

uint64_t hash_bytes(const void* p, size_t n, uint64_t h)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return mix(h, n);
}

std::string show(double d)
{
    char b[40];
    std::snprintf(b, sizeof b, "%.17g", d);
    return b;
}
std::string show(const std::vector<double>& v)
{
    std::string s = "(";
    for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + show(v[i]);
    return s + ")";
}
std::string show(const std::vector<bool>& v)
{
    std::string s;
    for (size_t i = 0; i < v.size(); ++i) s += v[i] ? '1' : '0';
    return s;
}
std::string show(const std::vector<int>& v)
{
    std::string s = "(";
    for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + std::to_string(v[i]);
    return s + ")";
}

// usage: harness --tier quick|thorough --seed N --budget SECONDS --out DIR
//                [--known FILE] [--only SCENARIO] [--workers N]
//        harness --replay FILE
int run(int argc, char** argv)
{
    std::string out = ".", known_file, only, replay_file;
    double budget = 600;
    int workers = 8;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        std::string v = i + 1 < argc ? argv[i + 1] : "";
        if (a == "--tier") { g_thorough = v == "thorough"; ++i; }
        else if (a == "--seed") { g_seed = std::atoi(v.c_str()); ++i; }
        else if (a == "--budget") { budget = std::atof(v.c_str()); ++i; }
        else if (a == "--out") { out = v; ++i; }
        else if (a == "--known") { known_file = v; ++i; }
        else if (a == "--only") { only = v; ++i; }
        else if (a == "--workers") { workers = std::atoi(v.c_str()); ++i; }
        else if (a == "--replay") { replay_file = v; ++i; }
        else { std::fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    if (!known_file.empty())
    {
        std::ifstream in(known_file.c_str());
        std::string line;
        while (std::getline(in, line)) if (!line.empty()) g_known.insert(line);
    }

    if (!replay_file.empty())
    {
        std::ifstream in(replay_file.c_str());
        std::string line, name;
        std::vector<uint32_t> path;
        int index = -1, count = 0;
        uint64_t upto = 0;
        bool have_path = false;
        while (std::getline(in, line))
        {
            std::istringstream ls(line);
            std::string key;
            ls >> key;
            if (key == "scenario:") std::getline(ls >> std::ws, name);
            else if (key == "tier:") { std::string t; ls >> t; g_thorough = t == "thorough"; }
            else if (key == "path:") { uint32_t x; have_path = true; while (ls >> x) path.push_back(x); }
            else if (key == "history:") ls >> index >> count >> upto;
        }
        for (size_t i = 0; i < scenarios().size(); ++i)
        {
            if (scenarios()[i].name != name) continue;
            Verdict v = replay(scenarios()[i], have_path && index < 0 ? &path : 0, index, count, upto,
                               out + "/replay.trace", 300);
            std::cout << slurp_tail(out + "/replay.trace", 100000);
            std::cout << (v.bad ? "REPRODUCED: " + v.message : std::string("not reproduced")) << std::endl;
            return v.bad ? 1 : 0;
        }
        std::fprintf(stderr, "no scenario %s\n", name.c_str());
        return 3;
    }

    double start = now();
    double end = start + budget;
    Totals total;
    std::ostringstream per_scenario, samples;
    std::set<std::string> known_hit;
    int sample_count = 0;
    bool violated = false;
    size_t todo = 0;
    for (size_t k = 0; k < scenarios().size(); ++k)
    {
        const Scenario& s = scenarios()[k];
        if (s.options.thorough_only && !g_thorough) continue;
        if (!only.empty() && s.name.find(only) == std::string::npos) continue;
        todo++;
    }
    size_t done = 0;
    for (size_t k = 0; k < scenarios().size() && !violated; ++k)
    {
        const Scenario& s = scenarios()[k];
        if (s.options.thorough_only && !g_thorough) continue;
        if (!only.empty() && s.name.find(only) == std::string::npos) continue;
        double t0 = now();
        // Time left is shared fairly among the scenarios still to run (x2, as most finish early).
        double share = (end - t0) / (todo - done) * 2;
        g_deadline = std::min(end, t0 + share);
        done++;

        int count = s.options.once ? 1 : (s.options.workers ? s.options.workers : workers);
        std::vector<Shm*> shm(count);
        std::vector<pid_t> pid(count);
        std::vector<uint64_t> last_progress(count, 0);
        std::vector<double> last_time(count, t0), last_look(count, t0);
        std::vector<bool> running(count, true);
        std::fflush(0);
        for (int w = 0; w < count; ++w)
        {
            shm[w] = new_shm();
            pid[w] = fork();
            if (pid[w] == 0)
            {
                g_shm = shm[w];
                silence();
                HashSet states, outcomes;
                g_states = &states; g_outcomes = &outcomes;
                for (size_t i = 0; i < hooks().size(); ++i) hooks()[i]();
                warm_up(s);
                Worker worker(s, w, count);
                worker.explore(std::vector<uint32_t>(), 0, 1);
                std::ostringstream base;
                base << out << "/set." << w;
                write_set(base.str() + ".s", states);
                write_set(base.str() + ".o", outcomes);
                if (g_set_capped) g_shm->diverged += 0;
                g_shm->finished = 1;
                _exit(0);
            }
        }
        int live = count;
        int suspect = -1;
        std::string why;
        while (live && suspect < 0)
        {
            { timespec ts = {0, 3000000}; nanosleep(&ts, 0); };
            for (int w = 0; w < count && suspect < 0; ++w)
            {
                if (!running[w]) continue;
                int status;
                pid_t r = waitpid(pid[w], &status, WNOHANG);
                if (r == pid[w])
                {
                    running[w] = false;
                    live--;
                    if (!shm[w]->finished)
                    {
                        suspect = w;
                        why = shm[w]->failed ? std::string(shm[w]->message)
                                             : "crash: " + describe_status(status);
                    }
                    continue;
                }
                if (shm[w]->progress != last_progress[w])
                {
                    last_progress[w] = shm[w]->progress;
                    last_time[w] = now();
                }
                else if (now() - last_time[w] > s.options.hang_seconds)
                {
                    suspect = w;
                    why = "no progress";
                }
                if (suspect < 0 && now() - last_look[w] > 0.05)
                {
                    last_look[w] = now();
                    if (resident_mb(pid[w]) > kMaxResidentMb) { suspect = w; why = "memory"; }
                }
            }
        }
        if (suspect >= 0)
        {
            for (int w = 0; w < count; ++w)
            {
                if (running[w]) { kill(pid[w], SIGKILL); waitpid(pid[w], 0, 0); }
            }
            std::vector<uint32_t> path(shm[suspect]->pick, shm[suspect]->pick + shm[suspect]->path_length);
            uint64_t at = shm[suspect]->exec_index;
            double limit = std::max(60.0, 2 * s.options.hang_seconds);
            std::string trace_path = out + "/violation.trace";
            // alone, twice
            Verdict v1 = replay(s, &path, 0, 0, 0, trace_path, limit);
            Verdict v2;
            bool history = false;
            if (v1.bad) v2 = replay(s, &path, 0, 0, 0, trace_path, limit);
            // A worker that grew slowly over its whole history says nothing about the library.
            if (!(v1.bad && v2.bad) && !v2.bad && why != "memory")
            {
                // Not by itself: the process history may matter.  The worker's
                // order of executions is deterministic, so run it again.
                history = true;
                v1 = replay(s, 0, suspect, count, at, trace_path, limit + (now() - t0) * 4);
                v2 = v1;
            }
            if (v1.bad && (history || v2.bad))
            {
                violated = true;
                const std::string replay_path = out + "/violation.txt";
                std::ofstream f(replay_path.c_str());
                f << "scenario: " << s.name << "\n"
                  << "tier: " << (g_thorough ? "thorough" : "quick") << "\n"
                  << "path: " << path_text(path) << "\n";
                if (history) f << "history: " << suspect << " " << count << " " << at << "\n";
                f << "\nwhat: " << (v2.bad ? v2.message : v1.message) << "\n";
                if (v1.message != v2.message) f << "first re-execution said: " << v1.message << "\n";
                f << "first seen as: " << why << "\n";
                f << "\ntrace of the re-execution:\n" << slurp_tail(trace_path, 60000) << "\n";
                f.close();
                std::cout << "scenario " << s.name << ": " << (v2.bad ? v2.message : v1.message) << std::endl;
            }
            else
            {
                total.unreproduced++;
                total.capped = true;
                std::cout << "note: scenario " << s.name << " had an unreproducible failure (" << why
                          << "), not reported" << std::endl;
            }
        }
        HashSet states, outcomes;
        Totals t;
        int deepest = 0;
        for (int w = 0; w < count; ++w)
        {
            std::ostringstream base;
            base << out << "/set." << w;
            read_set(base.str() + ".s", states);
            read_set(base.str() + ".o", outcomes);
            t.executions += shm[w]->executions;
            t.steps += shm[w]->steps;
            t.choices += shm[w]->choices;
            t.discarded += shm[w]->discarded;
            t.diverged += shm[w]->diverged;
            if (shm[w]->capped) t.capped = true;
            deepest = std::max(deepest, shm[w]->deepest);
            std::istringstream kn(shm[w]->known);
            std::string line;
            while (std::getline(kn, line)) known_hit.insert(line);
            munmap(shm[w], sizeof(Shm));
        }
        t.states = states.size();
        t.outcomes = outcomes.size();
        total.executions += t.executions;
        total.steps += t.steps;
        total.choices += t.choices;
        total.discarded += t.discarded;
        total.diverged += t.diverged;
        total.states += t.states;
        total.outcomes += t.outcomes;
        total.capped = total.capped || t.capped;
        double wall = now() - t0;
        per_scenario << (done > 1 ? ",\n" : "") << "  {\"name\": \"" << json_escape(s.name)
                     << "\", \"bound\": \"" << json_escape(s.bound)
                     << "\", \"deviation_bound\": " << s.options.max_deviations
                     << ", \"executions\": " << t.executions << ", \"choices\": " << t.choices
                     << ", \"steps\": " << t.steps << ", \"distinct_states\": " << t.states
                     << ", \"distinct_outcomes\": " << t.outcomes << ", \"longest_choice_path\": " << deepest
                     << ", \"discarded\": " << t.discarded << ", \"diverged\": " << t.diverged
                     << ", \"capped\": " << (t.capped ? "true" : "false") << ", \"wall_s\": " << wall << "}";
        std::printf("%-44s %10llu executions %10llu steps %8llu states %8llu outcomes %6.1fs%s%s\n",
                    s.name.c_str(), (unsigned long long)t.executions, (unsigned long long)t.steps,
                    (unsigned long long)t.states, (unsigned long long)t.outcomes, wall,
                    t.capped ? " CAPPED" : "", t.diverged ? " DIVERGED" : "");
        std::fflush(stdout);
        if (!violated && sample_count < 6)
        {
            // write out the default execution of this scenario as a sample
            std::string trace_path = out + "/sample.trace";
            std::vector<uint32_t> empty;
            double keep = g_deadline;
            replay(s, &empty, 0, 0, 0, trace_path, 60);
            g_deadline = keep;
            samples << (sample_count ? ",\n" : "") << "  \""
                    << json_escape(s.name + ": " + slurp_tail(trace_path, 1200)) << "\"";
            sample_count++;
            unlink(trace_path.c_str());
        }
    }
    std::ofstream f((out + "/summary.json").c_str());
    f << "{\"executions\": " << total.executions << ", \"steps\": " << total.steps
      << ", \"choices\": " << total.choices << ", \"discarded\": " << total.discarded
      << ", \"diverged\": " << total.diverged << ", \"states\": " << total.states
      << ", \"outcomes\": " << total.outcomes << ", \"unreproduced\": " << total.unreproduced
      << ", \"capped\": " << (total.capped ? "true" : "false")
      << ", \"violated\": " << (violated ? "true" : "false")
      << ", \"wall_s\": " << now() - start << ",\n \"rule\": \"" << json_escape(g_rule) << "\",\n \"known\": [";
    bool first = true;
    for (std::set<std::string>::iterator it = known_hit.begin(); it != known_hit.end(); ++it)
    {
        f << (first ? "" : ", ") << "\"" << json_escape(*it) << "\"";
        first = false;
    }
    f << "],\n \"scenarios\": [\n" << per_scenario.str() << "],\n \"samples\": [\n" << samples.str() << "]}\n";
    f.close();
    return violated ? 1 : 0;
}

} // namespace mc
