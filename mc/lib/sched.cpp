#include "mc_sched.h"
#include "mc.h"

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

namespace
{
const int kMaxThreads = 12;

typedef unsigned Clock;
struct VC
{
    Clock c[kMaxThreads];
    void clear() { std::memset(c, 0, sizeof c); }
    void join(const VC& o) { for (int i = 0; i < kMaxThreads; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum Pending { kRun, kLock, kWait, kTimedWait, kJoin, kOnce, kYield };

struct Thread
{
    int id;
    pthread_t handle;
    sem_t sem;
    bool finished;
    Pending pending;
    const void* object;    // mutex / condition / once / thread
    const void* mutex;     // to re-acquire after a wait
    int join_target;
    bool signaled, timed_out;
    bool yielded;
    VC vc;
    void* (*start)(void*);
    void* arg;
    void* result;
    bool joined, detached;
    const char* doing;
    uintptr_t stack_lo, stack_hi;
};

struct Mutex { int owner; int count; VC vc; };
struct Once { int state; int owner; VC vc; }; // 0 new, 1 running, 2 done

struct Shadow
{
    Clock w[kMaxThreads]; // last write epoch of each thread
    Clock r[kMaxThreads];
    unsigned char wm[kMaxThreads], rm[kMaxThreads]; // byte masks
    unsigned char freed;
};

// Everything below is only touched by the thread that holds the baton.
bool g_active = false;
sched::Options g_options;
Thread* g_threads[kMaxThreads];
int g_count = 0;
int g_points = 0;
int g_creations = 0;
unsigned long long g_schedule_hash = 0;
typedef std::map<const void*, Mutex> MutexMap;
typedef std::map<const void*, Once> OnceMap;
typedef std::unordered_map<uintptr_t, Shadow> ShadowMap;
MutexMap* g_mutexes;
OnceMap* g_onces;
std::map<const void*, std::vector<int> >* g_waiters; // condition -> thread ids in order
std::map<const void*, VC>* g_atomics;
ShadowMap* g_shadow;
thread_local Thread* t_self = 0;
thread_local int t_inside = 0; // in scheduler code: do not monitor

struct Inside { Inside() { ++t_inside; } ~Inside() { --t_inside; } };

bool managed() { return g_active && t_self && !t_self->finished && !t_inside; }

// The next definition of an interposed function; no initialisation guard is
// involved, as guards are interposed as well.
#define REAL(name, result, arguments) \
    static void* real_pointer = 0; \
    if (!real_pointer) { Inside resolving; real_pointer = dlsym(RTLD_NEXT, #name); } \
    result (*f) arguments = (result (*) arguments)real_pointer

[[noreturn]] void fail(const std::string& message)
{
    ++t_inside;
    std::string m = message;
    m += "; threads:";
    for (int i = 0; i < g_count; ++i)
    {
        Thread* t = g_threads[i];
        m += " [" + std::to_string(i) + (t->finished ? " finished" : std::string(" at ") + (t->doing ? t->doing : "start"))
            + (t->pending == kWait ? ", waiting" : t->pending == kLock ? ", locking" : t->pending == kJoin ? ", joining" : "") + "]";
    }
    mc::fail(m);
}

bool enabled(Thread* t)
{
    if (t->finished) return false;
    switch (t->pending)
    {
    case kRun: return true;
    case kYield: return !t->yielded;
    case kLock:
    {
        MutexMap::iterator it = g_mutexes->find(t->object);
        return it == g_mutexes->end() || it->second.owner < 0 || it->second.owner == t->id;
    }
    case kWait: return false;
    case kTimedWait: return false; // handled apart: a timeout
    case kJoin: return g_threads[t->join_target]->finished;
    case kOnce:
    {
        OnceMap::iterator it = g_onces->find(t->object);
        return it == g_onces->end() || it->second.state != 1;
    }
    }
    return true;
}

void drop_waiter(Thread* t)
{
    std::vector<int>& w = (*g_waiters)[t->object];
    for (size_t i = 0; i < w.size(); ++i) if (w[i] == t->id) { w.erase(w.begin() + i); break; }
}

void wake(Thread* t, bool timed_out)
{
    drop_waiter(t);
    t->timed_out = timed_out;
    t->signaled = true;
    t->pending = kLock;
    t->object = t->mutex;
}

// The running thread cannot continue: who is next?
int blocked_choice(int n)
{
    return g_options.delay_bounded ? mc::deviate(n, "who runs next (blocked, 0: the first)") : mc::choose(n, "who runs next (blocked)");
}

// Decides who runs next and hands the baton over; returns when the caller runs again.
void schedule(bool i_finished = false)
{
    Thread* self = t_self;
    if (++g_points > g_options.horizon) fail("no end within " + std::to_string(g_options.horizon) + " scheduling points (livelock)");
    Thread* alternatives[3 * kMaxThreads];
    int kind[3 * kMaxThreads]; // 0 run, 1 spurious wakeup, 2 timeout
    int n = 0;
    bool self_enabled = !i_finished && enabled(self);
    if (self_enabled) { alternatives[n] = self; kind[n++] = 0; }
    int others = 0;
    for (int i = 0; i < g_count; ++i)
    {
        Thread* t = g_threads[i];
        if (t != self && enabled(t)) { alternatives[n] = t; kind[n++] = 0; others++; }
    }
    if (!n)
    {
        // whoever yielded may go on
        for (int i = 0; i < g_count; ++i)
        {
            Thread* t = g_threads[i];
            if (!t->finished && t->pending == kYield) { t->yielded = false; alternatives[n] = t; kind[n++] = 0; }
        }
    }
    int runnable = n;
    for (int i = 0; i < g_count; ++i)
    {
        Thread* t = g_threads[i];
        if (!t->finished && t->pending == kTimedWait) { alternatives[n] = t; kind[n++] = 2; }
    }
    if (runnable && g_options.spurious && mc::deviations_left() > 0)
    {
        for (int i = 0; i < g_count; ++i)
        {
            Thread* t = g_threads[i];
            if (!t->finished && (t->pending == kWait)) { alternatives[n] = t; kind[n++] = 1; }
        }
    }
    if (!n)
    {
        bool all = true;
        for (int i = 0; i < g_count; ++i) if (!g_threads[i]->finished) all = false;
        if (all) return;
        fail("deadlock: no thread can run");
    }
    int pick = 0;
    if (self_enabled || runnable == 0)
    {
        // leaving a thread that can continue is a deviation, everything else too
        pick = n > 1 ? (self_enabled ? mc::deviate(n, "who runs next (0: same)") : mc::choose(n, "which timeout")) : 0;
    }
    else if (runnable < n)
    {
        // free among the runnable threads, one deviation for timeouts and spurious wakeups
        int extra = mc::deviate(n - runnable + 1, "spurious wakeup or timeout");
        pick = extra ? runnable + extra - 1 : blocked_choice(runnable);
    }
    else
    {
        pick = blocked_choice(n);
    }
    Thread* next = alternatives[pick];
    if (mc::tracing())
    {
        std::string line = "  ";
        line += kind[pick] == 0 ? "run thread " : kind[pick] == 1 ? "spurious wakeup of thread " : "timeout of thread ";
        line += std::to_string(next->id) + " (" + (next->doing ? next->doing : "start") + ")";
        mc::trace(line);
    }
    g_schedule_hash = mc::mix(g_schedule_hash, next->id * 4 + kind[pick]);
    if (kind[pick])
    {
        wake(next, kind[pick] == 2);
        if (!enabled(next))
        {
            // it waits for its mutex now; decide again
            schedule(i_finished);
            return;
        }
    }
    for (int i = 0; i < g_count; ++i) if (g_threads[i] != next) g_threads[i]->yielded = false;
    if (next == self && !i_finished) return;
    sem_post(&next->sem);
    if (!i_finished) while (sem_wait(&self->sem) != 0) {}
}

void arrive(const char* what, Pending pending = kRun, const void* object = 0)
{
    Thread* t = t_self;
    t->doing = what;
    t->pending = pending;
    t->object = object;
    schedule();
    t->pending = kRun;
}

Mutex& mutex_of(const void* m)
{
    MutexMap::iterator it = g_mutexes->find(m);
    if (it != g_mutexes->end()) return it->second;
    Mutex x;
    x.owner = -1; x.count = 0; x.vc.clear();
    return (*g_mutexes)[m] = x;
}

bool recursive(const void* m)
{
    return (((const pthread_mutex_t*)m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}

void lock(const void* m, const char* what)
{
    Mutex& mine = mutex_of(m);
    if (mine.owner == t_self->id)
    {
        if (recursive(m)) { mine.count++; return; }
        fail("deadlock: a thread locks a mutex which it already holds");
    }
    arrive(what, kLock, m);
    Mutex& x = mutex_of(m);
    x.owner = t_self->id;
    x.count = 1;
    t_self->vc.join(x.vc);
}

void unlock(const void* m)
{
    Mutex& x = mutex_of(m);
    if (x.owner != t_self->id) fail("a thread unlocks a mutex which it does not hold");
    if (--x.count > 0) return;
    x.owner = -1;
    x.vc.join(t_self->vc);
    t_self->vc.c[t_self->id]++;
}

int wait(const void* c, const void* m, bool timed)
{
    t_self->doing = timed ? "condition timed wait" : "condition wait";
    // others may notify between the caller's test and its going to sleep
    arrive(t_self->doing);
    Mutex& x = mutex_of(m);
    if (x.owner != t_self->id) fail("a thread waits on a condition without holding the mutex");
    int count = x.count;
    x.owner = -1;
    x.vc.join(t_self->vc);
    t_self->vc.c[t_self->id]++;
    (*g_waiters)[c].push_back(t_self->id);
    t_self->mutex = m;
    t_self->signaled = t_self->timed_out = false;
    t_self->pending = timed ? kTimedWait : kWait;
    t_self->object = c;
    schedule();
    // somebody woke us (pending became kLock) and the mutex is free
    t_self->pending = kRun;
    Mutex& y = mutex_of(m);
    y.owner = t_self->id;
    y.count = count;
    t_self->vc.join(y.vc);
    return t_self->timed_out ? ETIMEDOUT : 0;
}

void signal(const void* c, bool all)
{
    arrive(all ? "condition broadcast" : "condition signal");
    std::map<const void*, std::vector<int> >::iterator it = g_waiters->find(c);
    if (it == g_waiters->end() || it->second.empty()) return;
    if (all)
    {
        std::vector<int> w = it->second;
        for (size_t i = 0; i < w.size(); ++i) wake(g_threads[w[i]], false);
        return;
    }
    int n = it->second.size();
    int pick = n > 1 ? (g_options.free_signal ? mc::choose(n, "which waiter is notified") : mc::deviate(n, "which waiter is notified")) : 0;
    wake(g_threads[it->second[pick]], false);
}

void clear_shadow(uintptr_t from, size_t size)
{
    if (!g_shadow || g_shadow->empty()) return;
    uintptr_t a = from & ~7ull, b = from + size;
    if ((b - a) / 8 > 4 * g_shadow->size())
    {
        for (ShadowMap::iterator it = g_shadow->begin(); it != g_shadow->end();)
        {
            if (it->first >= a && it->first < b) it = g_shadow->erase(it); else ++it;
        }
        return;
    }
    for (uintptr_t p = a; p < b; p += 8) g_shadow->erase(p);
}

void* trampoline(void* p)
{
    Thread* t = (Thread*)p;
    t_self = t;
    t_inside = 1;
    pthread_attr_t attr;
    pthread_getattr_np(pthread_self(), &attr);
    void* stack = 0; size_t size = 0;
    pthread_attr_getstack(&attr, &stack, &size);
    pthread_attr_destroy(&attr);
    while (sem_wait(&t->sem) != 0) {}
    t->stack_lo = (uintptr_t)stack; t->stack_hi = t->stack_lo + size;
    clear_shadow(t->stack_lo, size);
    t->pending = kRun;
    t_inside = 0;
    void* result = t->start(t->arg);
    t_inside = 1;
    for (MutexMap::iterator it = g_mutexes->begin(); it != g_mutexes->end(); ++it)
        if (it->second.owner == t->id) fail("a thread ended while holding a mutex");
    t->doing = "finished";
    t->result = result;
    t->finished = true;
    schedule(true);
    t_self = 0; // the record may be gone by now
    return result;
}

Thread* new_thread()
{
    if (g_count >= kMaxThreads) fail("more threads than the scheduler can manage");
    Thread* t = new Thread();
    std::memset((void*)t, 0, sizeof *t);
    t->id = g_count;
    sem_init(&t->sem, 0, 0);
    g_threads[g_count++] = t;
    return t;
}

// ---------------- race detection -------------------------------------------

std::string where(void* pc)
{
    Dl_info info;
    char b[200];
    if (dladdr(pc, &info) && info.dli_sname) std::snprintf(b, sizeof b, "%s", info.dli_sname);
    else std::snprintf(b, sizeof b, "%p", pc);
    return b;
}

void access(uintptr_t addr, size_t size, bool write, void* pc)
{
    if (!g_active || !t_self || t_inside || t_self->finished || !g_options.races) return;
    Inside guard;
    Thread* t = t_self;
    while (size)
    {
        uintptr_t cell = addr & ~7ull;
        unsigned off = addr - cell;
        unsigned len = std::min<size_t>(size, 8 - off);
        unsigned char mask = ((1u << len) - 1) << off;
        ShadowMap::iterator it = g_shadow->find(cell);
        if (it == g_shadow->end())
        {
            Shadow s;
            std::memset(&s, 0, sizeof s);
            it = g_shadow->insert(std::make_pair(cell, s)).first;
        }
        Shadow& s = it->second;
        if (s.freed) fail("use of freed memory by thread " + std::to_string(t->id) + " in " + where(pc));
        for (int i = 0; i < g_count; ++i)
        {
            if (i == t->id) continue;
            if ((s.wm[i] & mask) && s.w[i] > t->vc.c[i])
                fail(std::string("data race: thread ") + std::to_string(t->id) + (write ? " writes" : " reads")
                     + " what thread " + std::to_string(i) + " wrote, in " + where(pc));
            if (write && (s.rm[i] & mask) && s.r[i] > t->vc.c[i])
                fail(std::string("data race: thread ") + std::to_string(t->id) + " writes what thread "
                     + std::to_string(i) + " reads, in " + where(pc));
        }
        Clock now = t->vc.c[t->id];
        if (write)
        {
            if (s.w[t->id] != now) s.wm[t->id] = 0;
            s.w[t->id] = now; s.wm[t->id] |= mask;
        }
        else
        {
            if (s.r[t->id] != now) s.rm[t->id] = 0;
            s.r[t->id] = now; s.rm[t->id] |= mask;
        }
        addr += len;
        size -= len;
    }
}

void atomic_point(const char* what)
{
    if (!managed()) return;
    Inside guard;
    arrive(what);
}

void atomic_edge(const volatile void* a, int order, bool load, bool store)
{
    if (!managed()) return;
    Inside guard;
    bool acquire = load && (order == __ATOMIC_ACQUIRE || order == __ATOMIC_CONSUME || order == __ATOMIC_ACQ_REL || order == __ATOMIC_SEQ_CST);
    bool release = store && (order == __ATOMIC_RELEASE || order == __ATOMIC_ACQ_REL || order == __ATOMIC_SEQ_CST);
    if (!acquire && !release) return;
    std::map<const void*, VC>::iterator it = g_atomics->find((const void*)a);
    if (it == g_atomics->end())
    {
        VC v; v.clear();
        it = g_atomics->insert(std::make_pair((const void*)a, v)).first;
    }
    if (acquire) t_self->vc.join(it->second);
    if (release)
    {
        if (load) it->second.join(t_self->vc); else it->second = t_self->vc;
        t_self->vc.c[t_self->id]++;
    }
}
}

namespace sched
{
bool monitored() { return managed(); }
Quiet::Quiet() { ++t_inside; }
Quiet::~Quiet() { --t_inside; }
bool active() { return g_active; }
int self() { return t_self ? t_self->id : -1; }
int points() { return g_points; }
unsigned long long schedule_hash() { return g_schedule_hash; }
int threads_created() { return g_count - 1; }
int threads_alive() { int n = 0; for (int i = 1; i < g_count; ++i) n += !g_threads[i]->finished; return n; }

void point(const char* what)
{
    if (!managed()) return;
    Inside guard;
    arrive(what);
}

void run(const std::function<void()>& body, const Options& options)
{
    static bool pinned = false;
    if (!pinned)
    {
        // hand-offs are much cheaper on one processor
        pinned = true;
        cpu_set_t set, one;
        if (sched_getaffinity(0, sizeof set, &set) == 0)
        {
            int n = CPU_COUNT(&set), want = n ? (int)(getpid() % n) : 0;
            CPU_ZERO(&one);
            for (int i = 0; i < CPU_SETSIZE; ++i)
                if (CPU_ISSET(i, &set) && want-- == 0) { CPU_SET(i, &one); break; }
            sched_setaffinity(0, sizeof one, &one);
        }
    }
    ++t_inside;
    g_options = options;
    MutexMap mutexes;
    OnceMap onces;
    std::map<const void*, std::vector<int> > waiters;
    std::map<const void*, VC> atomics;
    ShadowMap shadow;
    g_mutexes = &mutexes; g_onces = &onces; g_waiters = &waiters; g_atomics = &atomics; g_shadow = &shadow;
    g_count = 0;
    g_points = 0;
    g_creations = 0;
    g_schedule_hash = 0;
    t_self = new_thread();
    t_self->vc.c[0] = 1;
    t_self->handle = pthread_self();
    g_active = true;
    --t_inside;
    try { body(); }
    catch (const std::exception& e) { fail(std::string("an exception was not expected: ") + e.what()); }
    ++t_inside;
    // nobody may be left behind
    for (int i = 1; i < g_count; ++i)
        if (!g_threads[i]->finished) fail("thread " + std::to_string(i) + " is still running at the end");
    g_active = false;
    for (int i = 0; i < g_count; ++i)
    {
        if (i && !g_threads[i]->joined && !g_threads[i]->detached)
            fail("thread " + std::to_string(i) + " was never joined");
        sem_destroy(&g_threads[i]->sem);
        delete g_threads[i];
    }
    t_self = 0;
    g_shadow = 0;
    --t_inside;
}
}

// ---------------- interposed functions --------------------------------------

extern "C"
{

int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    if (managed()) { Inside g; lock(m, "mutex lock"); return 0; }
    REAL(pthread_mutex_lock, int, (pthread_mutex_t*));
    return f(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if (managed())
    {
        Inside g;
        arrive("mutex trylock");
        Mutex& x = mutex_of(m);
        if (x.owner == t_self->id && recursive(m)) { x.count++; return 0; }
        if (x.owner >= 0) return EBUSY;
        x.owner = t_self->id; x.count = 1;
        t_self->vc.join(x.vc);
        return 0;
    }
    REAL(pthread_mutex_trylock, int, (pthread_mutex_t*));
    return f(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) noexcept
{
    if (managed()) { Inside g; lock(m, "mutex timed lock"); return 0; }
    REAL(pthread_mutex_timedlock, int, (pthread_mutex_t*, const struct timespec*));
    return f(m, t);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    if (managed()) { Inside g; unlock(m); return 0; }
    REAL(pthread_mutex_unlock, int, (pthread_mutex_t*));
    return f(m);
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
{
    if (managed())
    {
        Inside g;
        MutexMap::iterator it = g_mutexes->find(m);
        if (it != g_mutexes->end())
        {
            if (it->second.owner >= 0) fail("a mutex is destroyed while it is locked");
            for (int i = 0; i < g_count; ++i)
                if (!g_threads[i]->finished && g_threads[i]->pending == kLock && g_threads[i]->object == m)
                    fail("a mutex is destroyed while a thread is about to lock it");
            g_mutexes->erase(it);
        }
    }
    REAL(pthread_mutex_destroy, int, (pthread_mutex_t*));
    return f(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (managed()) { Inside g; return wait(c, m, false); }
    REAL(pthread_cond_wait, int, (pthread_cond_t*, pthread_mutex_t*));
    return f(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    if (managed()) { Inside g; return wait(c, m, true); }
    REAL(pthread_cond_timedwait, int, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*));
    return f(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    if (managed()) { Inside g; return wait(c, m, true); }
    REAL(pthread_cond_clockwait, int, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*));
    return f(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    if (managed()) { Inside g; signal(c, false); return 0; }
    REAL(pthread_cond_signal, int, (pthread_cond_t*));
    return f(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
    if (managed()) { Inside g; signal(c, true); return 0; }
    REAL(pthread_cond_broadcast, int, (pthread_cond_t*));
    return f(c);
}
int pthread_cond_destroy(pthread_cond_t* c) noexcept
{
    if (managed())
    {
        Inside g;
        std::map<const void*, std::vector<int> >::iterator it = g_waiters->find(c);
        if (it != g_waiters->end())
        {
            if (!it->second.empty()) fail("a condition is destroyed while a thread waits on it");
            g_waiters->erase(it);
        }
        // the real object was never used
        return 0;
    }
    REAL(pthread_cond_destroy, int, (pthread_cond_t*));
    return f(c);
}
int pthread_create(pthread_t* handle, const pthread_attr_t* attr, void* (*start)(void*), void* arg)
{
    REAL(pthread_create, int, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*));
    if (!managed()) return f(handle, attr, start, arg);
    Inside g;
    arrive("thread create");
    if (g_creations++ == g_options.failing_create) return EAGAIN;
    Thread* t = new_thread();
    t->start = start;
    t->arg = arg;
    t->pending = kRun;
    t->vc = t_self->vc;
    t->vc.c[t->id] = 1;
    t_self->vc.c[t_self->id]++;
    if (attr)
    {
        int d = 0;
        pthread_attr_getdetachstate(attr, &d);
        t->detached = d == PTHREAD_CREATE_DETACHED;
    }
    int r = f(&t->handle, attr, trampoline, t);
    if (r) { t->finished = true; t->detached = true; return r; }
    *handle = t->handle;
    return 0;
}
int pthread_join(pthread_t handle, void** result)
{
    REAL(pthread_join, int, (pthread_t, void**));
    if (!managed()) return f(handle, result);
    Inside g;
    for (int i = 1; i < g_count; ++i)
    {
        Thread* t = g_threads[i];
        if (t->joined || t->detached || !pthread_equal(t->handle, handle)) continue;
        t_self->join_target = i;
        arrive("thread join", kJoin);
        t->joined = true;
        t_self->vc.join(t->vc);
        return f(handle, result);
    }
    fail("a thread is joined which does not exist or was joined already");
}
int pthread_detach(pthread_t handle) noexcept
{
    REAL(pthread_detach, int, (pthread_t));
    if (managed())
    {
        Inside g;
        for (int i = 1; i < g_count; ++i)
            if (!g_threads[i]->joined && pthread_equal(g_threads[i]->handle, handle)) g_threads[i]->detached = true;
    }
    return f(handle);
}
int pthread_once(pthread_once_t* once, void (*init)(void))
{
    REAL(pthread_once, int, (pthread_once_t*, void (*)(void)));
    return f(once, init);
}

static int yield_now(const char* what)
{
    Inside g;
    t_self->yielded = true;
    arrive(what, kYield);
    t_self->yielded = false;
    return 0;
}
int sched_yield(void) noexcept
{
    if (managed()) return yield_now("yield");
    return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b)
{
    if (managed()) return yield_now("sleep");
    REAL(nanosleep, int, (const struct timespec*, struct timespec*));
    return f(a, b);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* a, struct timespec* b)
{
    if (managed()) return yield_now("sleep");
    REAL(clock_nanosleep, int, (clockid_t, int, const struct timespec*, struct timespec*));
    return f(c, flags, a, b);
}
int get_nprocs(void) noexcept { return g_options.processors; }
int get_nprocs_conf(void) noexcept { return g_options.processors; }
long sysconf(int name) noexcept
{
    REAL(sysconf, long, (int));
    if (g_active && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return g_options.processors;
    return f(name);
}

// function-local statics
int __cxa_guard_acquire(long long* guard)
{
    if (*(volatile char*)guard) { atomic_edge(guard, __ATOMIC_ACQUIRE, true, false); return 0; }
    if (!managed())
    {
        // single-threaded set-up, or inside the scheduler
        return 1;
    }
    Inside g;
    OnceMap::iterator it = g_onces->find(guard);
    if (it == g_onces->end())
    {
        Once o; o.state = 0; o.owner = -1; o.vc.clear();
        g_onces->insert(std::make_pair((const void*)guard, o));
    }
    arrive("static initialisation", kOnce, guard);
    Once& o = (*g_onces)[guard];
    if (o.state == 2) { t_self->vc.join(o.vc); return 0; }
    o.state = 1;
    o.owner = t_self->id;
    return 1;
}
void __cxa_guard_release(long long* guard)
{
    atomic_edge(guard, __ATOMIC_RELEASE, false, true); // for those who see the flag without a call
    *(volatile char*)guard = 1;
    if (!managed()) return;
    Inside g;
    Once& o = (*g_onces)[guard];
    o.state = 2;
    o.vc = t_self->vc;
    t_self->vc.c[t_self->id]++;
}
void __cxa_guard_abort(long long* guard)
{
    if (!managed()) return;
    Inside g;
    (*g_onces)[guard].state = 0;
}

// memory
void* malloc(size_t n)
{
    void* p = __libc_malloc(n);
    if (g_active && t_self && !t_inside && p) { Inside g; clear_shadow((uintptr_t)p, n); }
    return p;
}
void* calloc(size_t a, size_t b)
{
    void* p = __libc_calloc(a, b);
    if (g_active && t_self && !t_inside && p) { Inside g; clear_shadow((uintptr_t)p, a * b); }
    return p;
}
size_t malloc_usable_size(void*);
void free(void* p)
{
    if (g_active && t_self && !t_inside && p)
    {
        Inside g;
        size_t n = malloc_usable_size(p);
        uintptr_t a = (uintptr_t)p;
        if (n <= 65536)
        {
            for (uintptr_t c = a & ~7ull; c < a + n; c += 8)
            {
                ShadowMap::iterator it = g_shadow->find(c);
                if (it != g_shadow->end()) { std::memset(&it->second, 0, sizeof(Shadow)); it->second.freed = 1; }
            }
            for (std::map<const void*, VC>::iterator it = g_atomics->lower_bound(p); it != g_atomics->end() && (uintptr_t)it->first < a + n;)
                g_atomics->erase(it++);
            std::memset(p, 0xDB, n);
        }
        else clear_shadow(a, n);
    }
    __libc_free(p);
}
void* realloc(void* p, size_t n)
{
    void* q = __libc_realloc(p, n);
    if (g_active && t_self && !t_inside && q) { Inside g; clear_shadow((uintptr_t)q, n); }
    return q;
}

void* memalign(size_t alignment, size_t n)
{
    void* p = __libc_memalign(alignment, n);
    if (g_active && t_self && !t_inside && p) { Inside g; clear_shadow((uintptr_t)p, n); }
    return p;
}
void* aligned_alloc(size_t alignment, size_t n) { return memalign(alignment, n); }
int posix_memalign(void** p, size_t alignment, size_t n)
{
    *p = memalign(alignment, n);
    return *p ? 0 : 12;
}

// compiler instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define ACCESS(name, size, write) void name(void* a) { access((uintptr_t)a, size, write, __builtin_return_address(0)); }
ACCESS(__tsan_read1, 1, false) ACCESS(__tsan_read2, 2, false) ACCESS(__tsan_read4, 4, false)
ACCESS(__tsan_read8, 8, false) ACCESS(__tsan_read16, 16, false)
ACCESS(__tsan_write1, 1, true) ACCESS(__tsan_write2, 2, true) ACCESS(__tsan_write4, 4, true)
ACCESS(__tsan_write8, 8, true) ACCESS(__tsan_write16, 16, true)
ACCESS(__tsan_unaligned_read2, 2, false) ACCESS(__tsan_unaligned_read4, 4, false)
ACCESS(__tsan_unaligned_read8, 8, false) ACCESS(__tsan_unaligned_read16, 16, false)
ACCESS(__tsan_unaligned_write2, 2, true) ACCESS(__tsan_unaligned_write4, 4, true)
ACCESS(__tsan_unaligned_write8, 8, true) ACCESS(__tsan_unaligned_write16, 16, true)
ACCESS(__tsan_vptr_read, 8, false)
void __tsan_vptr_update(void** a, void* v)
{
    if (*a != v) access((uintptr_t)a, 8, true, __builtin_return_address(0));
}
void __tsan_read_range(void* a, unsigned long n) { access((uintptr_t)a, n, false, __builtin_return_address(0)); }
void __tsan_write_range(void* a, unsigned long n) { access((uintptr_t)a, n, true, __builtin_return_address(0)); }

#define ATOMICS(bits, T)                                                                              \
T __tsan_atomic##bits##_load(const volatile T* a, int mo)                                             \
{ atomic_point("atomic load"); atomic_edge(a, mo, true, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##bits##_store(volatile T* a, T v, int mo)                                          \
{ atomic_point("atomic store"); atomic_edge(a, mo, false, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }    \
T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo)                                          \
{ atomic_point("atomic exchange"); atomic_edge(a, mo, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo)                                         \
{ atomic_edge(a, mo, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }                \
T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo)                                         \
{ atomic_edge(a, mo, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }                \
T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo)                                         \
{ atomic_edge(a, mo, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }                \
T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo)                                          \
{ atomic_edge(a, mo, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }                 \
T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo)                                         \
{ atomic_edge(a, mo, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }                \
T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo)                                        \
{ atomic_edge(a, mo, true, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }               \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo)          \
{ atomic_point("atomic compare-exchange"); atomic_edge(a, mo, true, true);                            \
  return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }           \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo)            \
{ atomic_point("atomic compare-exchange"); atomic_edge(a, mo, true, true);                            \
  return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }           \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo)                \
{ atomic_point("atomic compare-exchange"); atomic_edge(a, mo, true, true);                            \
  __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

} // extern "C"
