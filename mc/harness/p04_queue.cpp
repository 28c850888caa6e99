// P04: the blocking queue under the pool: every interleaving of two or three
// threads; recorded histories must be linearizable as a FIFO queue.
#include "mc.h"
#include "mc_sched.h"
#include <cstring>
#include <stdexcept>
#include <parallel/thread/thread_safe_queue.h>
#include <boost/thread.hpp>
#include <deque>

namespace
{
typedef k52::parallel::thread::ThreadSafeQueue<int> Queue;

enum Kind { kPush, kWaitPop, kTryPop };
struct Op { Kind kind; int value; };
struct Call { Kind kind; int value; bool ok; int from, to; };

std::vector<Call> g_history;
int g_clock;

void perform(Queue& q, const Op& op)
{
    bool ok = true;
    size_t at;
    {
        sched::Quiet quiet;
        Call c;
        c.kind = op.kind; c.value = op.value; c.ok = true;
        at = g_history.size();
        c.from = ++g_clock; c.to = 1 << 30;
        g_history.push_back(c);
    }
    int v = -1;
    switch (op.kind)
    {
    case kPush: q.Push(op.value); v = op.value; break;
    case kWaitPop: q.WaitAndPop(v); break;
    case kTryPop: ok = q.TryPop(v); break;
    }
    sched::Quiet quiet;
    g_history[at].value = v;
    g_history[at].ok = ok;
    g_history[at].to = ++g_clock;
    mc::step();
}

// Is there an order of the calls, consistent with real time, that a FIFO queue can produce?
bool linearizable(std::vector<bool>& done, std::deque<int>& q, size_t n)
{
    if (n == g_history.size()) return true;
    int limit = 1 << 30;
    for (size_t i = 0; i < g_history.size(); ++i) if (!done[i]) limit = std::min(limit, g_history[i].to);
    for (size_t i = 0; i < g_history.size(); ++i)
    {
        const Call& c = g_history[i];
        if (done[i] || c.from > limit) continue;
        std::deque<int> next = q;
        if (c.kind == kPush) next.push_back(c.value);
        else if (c.kind == kTryPop && !c.ok) { if (!next.empty()) continue; }
        else { if (next.empty() || next.front() != c.value) continue; next.pop_front(); }
        done[i] = true;
        bool r = linearizable(done, next, n + 1);
        done[i] = false;
        if (r) return true;
    }
    return false;
}

std::string text()
{
    std::string s;
    for (size_t i = 0; i < g_history.size(); ++i)
    {
        const Call& c = g_history[i];
        s += c.kind == kPush ? " push(" : c.kind == kWaitPop ? " wait_pop=(" : c.ok ? " try_pop=(" : " try_pop empty(";
        s += std::to_string(c.value) + ")@" + std::to_string(c.from) + "-" + (c.to == 1 << 30 ? std::string("?") : std::to_string(c.to));
    }
    return s;
}

void scenario(const std::vector<std::vector<Op> >& threads, const std::vector<int>& initial)
{
    g_history.clear();
    g_history.reserve(32);
    g_clock = 0;
    sched::Options o;
    o.spurious = true;
    o.free_signal = true;
    std::vector<int> rest;
    sched::run([&] {
        Queue q;
        for (size_t i = 0; i < initial.size(); ++i) { Op op = { kPush, initial[i] }; perform(q, op); }
        std::vector<boost::shared_ptr<boost::thread> > workers;
        for (size_t t = 0; t < threads.size(); ++t)
        {
            const std::vector<Op>* ops = &threads[t];
            Queue* queue = &q;
            workers.push_back(boost::shared_ptr<boost::thread>(new boost::thread([=] {
                for (size_t i = 0; i < ops->size(); ++i) perform(*queue, (*ops)[i]);
            })));
        }
        for (size_t t = 0; t < workers.size(); ++t) workers[t]->join();
        // what is left comes out in order, then the queue is empty
        for (int i = 0; i < 8; ++i)
        {
            Op op = { kTryPop, 0 };
            perform(q, op);
            if (!g_history.back().ok) break;
        }
    }, o);
    std::vector<bool> done(g_history.size());
    std::deque<int> q;
    MC_CHECK(linearizable(done, q, 0), "this history is not one of a FIFO queue:" << text());
    uint64_t h = 3;
    for (size_t i = 0; i < g_history.size(); ++i) h = mc::mix(h, g_history[i].kind * 100 + g_history[i].ok * 50 + g_history[i].value);
    mc::outcome(h);
    mc::state(mc::mix(h, sched::schedule_hash()));
}

// one thread fills the queue with far more elements than above and empties it, three times over
void fill_and_drain(int most)
{
    int sizes[3];
    for (int& n : sizes) { int k = mc::choose(5, "elements"); n = k == 0 ? 1 : most * k / 4; }
    int left = mc::choose(2, "elements left between the rounds") * 3;
    sched::Options o;
    sched::run([&] {
        Queue q;
        std::deque<int> model;
        int next = 1;
        for (int n : sizes)
        {
            for (int i = 0; i < n; ++i) { q.Push(next); model.push_back(next++); mc::step(); }
            while ((int)model.size() > left)
            {
                int v = -1;
                bool ok = true;
                if (model.size() % 2) q.WaitAndPop(v); else ok = q.TryPop(v);
                mc::step();
                MC_CHECK(ok && v == model.front(), "popped " << v << " (" << ok << ") with " << model.front() << " in front of " << model.size() << " elements");
                model.pop_front();
            }
        }
        for (;;)
        {
            int v = -1;
            bool ok = q.TryPop(v);
            MC_CHECK(ok == !model.empty(), "TryPop says " << ok << " with " << model.size() << " elements");
            if (!ok) break;
            MC_CHECK(v == model.front(), "popped " << v << " with " << model.front() << " in front");
            model.pop_front();
        }
    }, o);
    mc::outcome(mc::mix(mc::mix(sizes[0], sizes[1]), mc::mix(sizes[2], left)));
}

// a producer and a consumer pass many elements on
void stream(int many)
{
    sched::Options o;
    o.delay_bounded = true;
    o.spurious = false;
    sched::run([&] {
        Queue q;
        boost::thread producer([&] { for (int i = 1; i <= many; ++i) q.Push(i); });
        for (int i = 1; i <= many; ++i)
        {
            int v = -1;
            q.WaitAndPop(v);
            mc::step();
            MC_CHECK(v == i, "the consumer got " << v << " as number " << i);
        }
        producer.join();
        int v = -1;
        MC_CHECK(!q.TryPop(v), "an element more came out: " << v);
    }, o);
    mc::outcome(sched::schedule_hash());
    mc::state(sched::schedule_hash());
}
}

int main(int argc, char** argv)
{
    mc::describe("two to three threads with one to three calls each on one queue; every schedule with at most the stated number of "
                 "preemptions and spurious wakeups, every choice of the thread a notification wakes; each call/return history is "
                 "checked for linearizability against a FIFO queue");
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    auto add = [&](const std::string& name, int dev, std::vector<std::vector<Op> > threads, std::vector<int> initial = std::vector<int>()) {
        mc::Options o;
        o.max_deviations = dev;
        o.warm_up = true;
        mc::add(name, "at most " + std::to_string(dev) + " deviations", [=] { scenario(threads, initial); }, o);
    };
    const Op p1 = { kPush, 1 }, p2 = { kPush, 2 }, p3 = { kPush, 3 }, w = { kWaitPop, 0 }, y = { kTryPop, 0 };
    int a = t ? 4 : 3, b = t ? 3 : 2;
    add("producer 1 2 | consumer wait wait", a, { { p1, p2 }, { w, w } });
    add("producer 1 | consumer wait | consumer wait | producer 2", t ? 2 : 1, { { p1 }, { w }, { w }, { p2 } });
    add("producer 1 2 | consumer wait | consumer wait", b, { { p1, p2 }, { w }, { w } });
    add("producer 1 | producer 2 | consumer wait wait", b, { { p1 }, { p2 }, { w, w } });
    add("producer 1 | consumer try | consumer try, one element inside", b, { { p1 }, { y }, { y } }, { 9 });
    add("producer 1 2 | consumer try wait", a, { { p1, p2 }, { y, w } });
    add("both produce and consume", b, { { p1, w }, { p2, w } });
    add("producer 1 2 3 | consumer wait wait wait", b, { { p1, p2, p3 }, { w, w, w } });
    add("consumer wait | try | producer 1 2", b, { { w }, { y }, { p1, p2 } });
    {
        mc::Options o;
        o.max_deviations = 0;
        o.warm_up = true;
        mc::add("one thread, up to 160 elements", "three rounds of filling and emptying", [=] { fill_and_drain(160); });
        o.max_deviations = t ? 2 : 1;
        mc::add("a stream of 40 elements", "at most " + std::to_string(o.max_deviations) + " delays", [=] { stream(40); }, o);
    }
    return mc::run(argc, argv);
}
