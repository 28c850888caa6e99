#include "fmpi.h"
#include "env.h"
#include "mc.h"
#include <boost/mpi.hpp>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>

namespace fmpi
{
namespace
{
enum Op : unsigned char { kInit, kFinalize, kSend, kIsend, kReceive, kPost, kTest, kWait, kProbe, kIprobe, kSleep, kBarrier,
                          kAbort, kFail, kChoose, kSay, kTrace, kStep, kDone };

struct Frame
{
    std::string b;
    size_t at = 0;
    Frame& put(int64_t v) { b.append((const char*) &v, 8); return *this; }
    Frame& put(const std::string& s) { put((int64_t) s.size()); b += s; return *this; }
    int64_t get()
    {
        int64_t v = 0;
        if (at + 8 <= b.size()) memcpy(&v, &b[at], 8);
        at += 8;
        return v;
    }
    std::string text()
    {
        size_t n = get();
        std::string s = at <= b.size() ? b.substr(at, n) : std::string();
        at += n;
        return s;
    }
};

bool write_all(int fd, const char* p, size_t n)
{
    while (n)
    {
        ssize_t k = ::send(fd, p, n, MSG_NOSIGNAL);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        p += k;
        n -= k;
    }
    return true;
}
bool read_all(int fd, char* p, size_t n)
{
    while (n)
    {
        ssize_t k = ::read(fd, p, n);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        p += k;
        n -= k;
    }
    return true;
}
bool write_frame(int fd, const Frame& f)
{
    uint32_t n = f.b.size();
    std::string all((const char*) &n, 4);
    all += f.b;
    return write_all(fd, all.data(), all.size());
}
bool read_frame(int fd, Frame* f)
{
    uint32_t n = 0;
    f->at = 0;
    if (!read_all(fd, (char*) &n, 4)) return false;
    f->b.resize(n);
    return n == 0 || read_all(fd, &f->b[0], n);
}

// --- the ranks' side ---
int g_fd = -1, g_rank = -1, g_size = 0;
bool g_initialized = false, g_finalized = false;

Frame call(const Frame& f)
{
    Frame r;
    if (!write_frame(g_fd, f) || !read_frame(g_fd, &r)) _exit(99); // the network is gone
    return r;
}
Frame op(Op o) { Frame f; f.put((int64_t) o); return f; }
void communicating(const char* what)
{
    if (!g_initialized || g_finalized) wrong(std::string(what) + (g_finalized ? " after MPI was finalized" : " before MPI was initialized"));
}
void peer(int r, const char* what)
{
    if (r < 0 || r >= g_size) wrong(std::string(what) + " rank " + std::to_string(r) + " of " + std::to_string(g_size));
    if (r == g_rank) wrong(std::string(what) + " itself");
}
Message message(Frame& f)
{
    Message m;
    m.source = f.get();
    m.tag = f.get();
    m.type = f.text();
    m.data = f.text();
    return m;
}
}

bool simulated() { return g_rank >= 0; }
int rank() { return g_rank; }
int size() { return g_size; }
bool is_initialized() { return g_initialized; }
bool is_finalized() { return g_finalized; }
void initialize()
{
    if (g_initialized) return; // boost::mpi::environment does nothing then
    g_initialized = true;
    call(op(kInit));
}
void finalize()
{
    if (!g_initialized || g_finalized) return;
    call(op(kFinalize));
    g_finalized = true;
}
void send(int dest, int tag, const std::string& type, const std::string& data)
{
    communicating("a message is sent");
    peer(dest, "a message is sent to");
    call(op(kSend).put(dest).put(tag).put(type).put(data));
}
int isend(int dest, int tag, const std::string& type, const std::string& data)
{
    communicating("a message is sent");
    peer(dest, "a message is sent to");
    return call(op(kIsend).put(dest).put(tag).put(type).put(data)).get();
}
Message receive(int source, int tag)
{
    communicating("a message is received");
    if (source != boost::mpi::any_source) peer(source, "a message is received from");
    Frame r = call(op(kReceive).put(source).put(tag));
    return message(r);
}
int post(int source, int tag)
{
    communicating("a receive is posted");
    if (source != boost::mpi::any_source) peer(source, "a message is received from");
    return call(op(kPost).put(source).put(tag)).get();
}
bool test(int request, Message* m)
{
    communicating("a request is tested");
    Frame r = call(op(kTest).put(request));
    if (!r.get()) return false;
    *m = message(r);
    return true;
}
Message wait(int request)
{
    communicating("a request is waited for");
    Frame r = call(op(kWait).put(request));
    r.get();
    return message(r);
}
bool probe(int source, int tag, bool block, Message* m)
{
    communicating("a message is probed");
    Frame r = call(op(block ? kProbe : kIprobe).put(source).put(tag));
    if (!r.get()) return false;
    *m = message(r);
    return true;
}
void barrier() { communicating("a barrier is entered"); call(op(kBarrier)); }
void abort(int code) { call(op(kAbort).put(code)); _exit(code ? code : 1); }
void wrong(const std::string& what) { fail("rank " + std::to_string(g_rank) + ": " + what); }

void fail(const std::string& m)
{
    if (!simulated()) mc::fail(m);
    call(op(kFail).put(m));
    _exit(98);
}
int choose(int n, const char* label)
{
    if (!simulated()) return mc::choose(n, label);
    return call(op(kChoose).put(n).put(std::string(label))).get();
}
void say(const std::string& text) { call(op(kSay).put(text)); }
void trace(const std::string& line) { if (mc::tracing()) call(op(kTrace).put(line)); }
void step() { call(op(kStep)); }
void pause() { call(op(kSleep)); }

// --- the network ---
namespace
{
struct Stored { int source, tag; std::string type, data; int claimed = -1; int late = 0; bool from_isend = false; int isend_id = -1; };
struct Posted { int id, source, tag; bool done = false; };
struct Rank
{
    pid_t pid = 0;
    int fd = -1;
    bool running = true, ended = false;
    bool initialized = false, finalized = false, done = false;
    int status = 0;
    Frame pending;
    int64_t what = -1;
    bool asleep = false;
    bool news = false;          // something for it since it went to sleep
    std::deque<Stored> inbox;
    std::vector<Posted> posted; // receives
    std::map<int, bool> sends;  // isend id -> matched
};

struct Network
{
    Options o;
    std::vector<Rank> r;
    std::string said;
    int next_id = 1;
    int in_barrier = 0;
    std::map<int, std::pair<int, int>> unmatched_isends;

    ~Network() { kill_all(); }
    void kill_all()
    {
        for (Rank& k : r) if (k.pid > 0 && !k.ended) { kill(k.pid, SIGKILL); waitpid(k.pid, 0, 0); k.ended = true; }
        for (Rank& k : r) if (k.fd >= 0) { close(k.fd); k.fd = -1; }
    }
    [[noreturn]] void failed(const std::string& m) { kill_all(); mc::fail(m); }

    static bool fits(int source, int tag, int s, int t) { return (source == s || source == -1) && (tag == t || tag == -1); }

    Stored* available(Rank& k, int source, int tag) // for a blocking receive
    {
        for (Stored& m : k.inbox) if (m.claimed < 0 && fits(source, tag, m.source, m.tag)) return &m;
        return 0;
    }
    Stored* claimed_by(Rank& k, int id)
    {
        for (Stored& m : k.inbox) if (m.claimed == id) return &m;
        return 0;
    }
    void arrive(int dest, const Stored& m)
    {
        Rank& d = r[dest];
        d.inbox.push_back(m);
        d.news = true;
        for (Posted& p : d.posted)
            if (!p.done && !claimed_by(d, p.id) && fits(p.source, p.tag, m.source, m.tag)) { d.inbox.back().claimed = p.id; break; }
    }
    void take(Rank& k, Stored* m)
    {
        if (m->isend_id >= 0) r[m->source].sends[m->isend_id] = true, r[m->source].news = true;
        for (size_t i = 0; i < k.inbox.size(); ++i) if (&k.inbox[i] == m) { k.inbox.erase(k.inbox.begin() + i); return; }
    }
    // a receive for a message from `from` is waiting at dest and has no message yet
    bool expected(int dest, int from, int tag)
    {
        Rank& d = r[dest];
        for (Posted& p : d.posted) if (!p.done && !claimed_by(d, p.id) && fits(p.source, p.tag, from, tag)) return true;
        if (!d.running && !d.ended && d.what == kReceive)
        {
            Frame f = d.pending;
            int s = f.get(), t = f.get();
            return fits(s, t, from, tag) && !available(d, s, t);
        }
        return false;
    }
    void answer(Rank& k, const Frame& f)
    {
        k.running = true;
        if (!write_frame(k.fd, f)) {} // it died: seen when it is read from
    }
    static Frame& put(Frame& f, const Stored& m) { return f.put(m.source).put(m.tag).put(m.type).put(m.data); }
    bool arrives(int i, Stored* m)
    {
        int limit = i == 0 ? o.late : o.late_at_workers;
        if (m->late >= limit) return true;
        bool late = o.deviations ? mc::deviate(2, "late message") : mc::choose(2, "late message");
        if (late) m->late++;
        MC_TRACE("  the message from rank " << m->source << " to rank " << i << (late ? " is late" : " has arrived"));
        return !late;
    }
    std::string name(int64_t what)
    {
        static const char* n[] = { "to initialize", "to finalize", "to send", "to send", "to receive", "to post a receive", "to test", "for a request",
                                   "to probe", "to probe", "for something to arrive", "in a barrier", "to abort", "", "", "", "", "", "" };
        return what >= 0 && what <= kDone ? n[what] : "?";
    }

    // serves what rank i waits for, if possible
    bool serve(int i, bool anyway = false)
    {
        Rank& k = r[i];
        Frame f = k.pending, a;
        switch (k.what)
        {
            case kInit: k.initialized = true; break;
            case kFinalize: k.finalized = true; break;
            case kSend:
            {
                Stored m;
                int dest = f.get();
                m.source = i;
                m.tag = f.get();
                m.type = f.text();
                m.data = f.text();
                if (r[dest].ended || r[dest].finalized) failed("rank " + std::to_string(i) + " sends a message to rank " + std::to_string(dest) + ", which has ended");
                if (o.synchronous && !expected(dest, i, m.tag)) return false;
                MC_TRACE("  rank " << i << " -> rank " << dest << ": " << m.type << ", " << m.data.size() << " bytes");
                arrive(dest, m);
                break;
            }
            case kIsend:
            {
                Stored m;
                int dest = f.get();
                m.source = i;
                m.tag = f.get();
                m.type = f.text();
                m.data = f.text();
                if (r[dest].ended || r[dest].finalized) failed("rank " + std::to_string(i) + " sends a message to rank " + std::to_string(dest) + ", which has ended");
                m.isend_id = next_id++;
                k.sends[m.isend_id] = !o.synchronous;
                a.put(m.isend_id);
                arrive(dest, m);
                break;
            }
            case kReceive:
            {
                int s = f.get(), t = f.get();
                Stored* m = available(k, s, t);
                if (!m) return false;
                put(a, *m);
                take(k, m);
                break;
            }
            case kPost:
            {
                Posted p;
                p.id = next_id++;
                p.source = f.get();
                p.tag = f.get();
                if (Stored* m = available(k, p.source, p.tag)) m->claimed = p.id;
                k.posted.push_back(p);
                a.put(p.id);
                break;
            }
            case kTest:
            case kWait:
            {
                int id = f.get();
                if (k.sends.count(id))
                {
                    if (!k.sends[id] && k.what == kWait) return false;
                    a.put(k.sends[id]);
                    Stored none;
                    none.source = none.tag = 0;
                    put(a, none);
                    break;
                }
                Stored* m = claimed_by(k, id);
                if (!m && k.what == kWait) return false;
                if (!m || (k.what == kTest && !arrives(i, m))) { a.put(0); break; }
                a.put(1);
                put(a, *m);
                take(k, m);
                for (Posted& p : k.posted) if (p.id == id) p.done = true;
                break;
            }
            case kProbe:
            case kIprobe:
            {
                int s = f.get(), t = f.get();
                Stored* m = available(k, s, t);
                if (!m && k.what == kProbe) return false;
                if (!m || (k.what == kIprobe && !arrives(i, m))) { a.put(0); break; }
                a.put(1);
                put(a, *m);
                break;
            }
            case kSleep:
            {
                bool late = false; // something a request of this rank was not yet told
                for (Stored& m : k.inbox) if (m.claimed >= 0 || m.late) late = true;
                if (!k.news && !late && !anyway) return false;
                break;
            }
            case kBarrier:
                for (Rank& x : r) if (x.ended || x.running || x.what != kBarrier) return false;
                for (Rank& x : r) answer(x, Frame());
                return true;
            case kAbort: failed("rank " + std::to_string(i) + " aborts");
            case kFail: failed(f.text());
            case kChoose: { int n = f.get(); std::string l = f.text(); a.put(mc::choose(n, l.c_str())); break; }
            case kSay: said += f.text(); break;
            case kTrace: mc::trace(f.text()); break;
            case kStep: mc::step(); break;
            case kDone: k.done = true; break;
            default: failed("unknown operation");
        }
        if (k.what <= kWait) k.news = false;
        answer(k, a);
        return true;
    }

    void ended(int i)
    {
        Rank& k = r[i];
        int st = 0;
        waitpid(k.pid, &st, 0);
        k.ended = true;
        k.running = false;
        close(k.fd);
        k.fd = -1;
        MC_TRACE("  rank " << i << " ends");
        if (WIFSIGNALED(st)) failed("rank " + std::to_string(i) + " crashed with signal " + std::to_string(WTERMSIG(st)));
        if (WEXITSTATUS(st)) failed("rank " + std::to_string(i) + " ended with status " + std::to_string(WEXITSTATUS(st)));
        if (i == 0 && !k.done) failed("rank 0 ended its process");
        if (k.initialized && !k.finalized) failed("rank " + std::to_string(i) + " ended without finalizing MPI");
    }

    void loop()
    {
        int quiet = 0, naps = 0;
        for (int operations = 0;; ++operations)
        {
            if (operations > o.horizon) failed("the ranks do not come to an end");
            for (size_t i = 0; i < r.size(); ++i)
            {
                Rank& k = r[i];
                if (!k.running || k.ended) continue;
                pollfd p = { k.fd, POLLIN, 0 };
                int n;
                do n = poll(&p, 1, 30000); while (n < 0 && errno == EINTR);
                if (n == 0) failed("rank " + std::to_string(i) + " does not go on");
                if (!read_frame(k.fd, &k.pending)) { ended(i); continue; }
                k.what = k.pending.get();
                k.pending.b.erase(0, 8);
                k.pending.at = 0;
                k.running = false;
            }
            bool all = true, served = false;
            for (Rank& k : r) if (!k.ended) all = false;
            if (all) break;
            bool running = false;
            for (Rank& k : r) if (k.running) running = true;
            // the workers first, rank 0 when they cannot go on
            for (size_t n = r.size(); n-- > 0 && !served;)
                if (!r[n].ended && !r[n].running)
                {
                    served = serve(n);
                    if (served)
                    {
                        if (r[n].what == kTest || r[n].what == kIprobe) { if (++quiet > 5000) failed("a rank tests for ever for something that does not arrive"); }
                        else if (r[n].what != kSleep) quiet = naps = 0;
                    }
                }
            // a pause comes to an end even if nothing happens; nothing happens for ever: a deadlock
            if (!served && !running && naps < 50 * (int) r.size())
                for (size_t n = 0; n < r.size() && !served; ++n)
                {
                    Rank& k = r[(n + naps) % r.size()];
                    if (!k.ended && !k.running && k.what == kSleep) { served = serve((n + naps) % r.size(), true); naps++; }
                }
            if (!served && !running)
            {
                std::ostringstream s;
                s << "deadlock (" << (o.synchronous ? "synchronous" : "buffered") << " sends):";
                for (size_t n = 0; n < r.size(); ++n) s << " rank " << n << (r[n].ended ? " ended;" : " waits " + name(r[n].what) + ";");
                failed(s.str());
            }
        }
        for (size_t i = 0; i < r.size(); ++i)
            if (!r[i].inbox.empty())
                failed("a message from rank " + std::to_string(r[i].inbox[0].source) + " to rank " + std::to_string(i) + " was never received");
    }
};
}

std::string run(const Options& o, const std::function<void(int)>& program)
{
    Network n;
    n.o = o;
    n.r.resize(o.size);
    fflush(0);
    for (int i = 0; i < o.size; ++i)
    {
        int s[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) n.failed("no socket");
        pid_t pid = fork();
        if (pid < 0) n.failed("no process");
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(s[0]);
            for (int k = 0; k < i; ++k) close(n.r[k].fd);
            g_fd = s[1];
            g_rank = i;
            g_size = o.size;
            env::set_sleep([](unsigned) { pause(); });
            try { program(i); }
            catch (const std::exception& e) { fail("rank " + std::to_string(i) + " ends with an exception: " + e.what()); }
            catch (...) { fail("rank " + std::to_string(i) + " ends with an exception"); }
            call(op(kDone));
            _exit(0);
        }
        close(s[1]);
        n.r[i].pid = pid;
        n.r[i].fd = s[0];
    }
    n.loop();
    return n.said;
}
}
