// C09: what memory contained before does not matter.  Every use of the library
// and every short history of operations, with all memory that is allocated and
// the stack containing zeros, and again with other contents.
#include "subjects.h"

using namespace subjects;

namespace
{
const int kContents[] = { 0xff, 0x01, 0x7f, 0x80, 0x3f, failures::kCounter };
const int kNumberOfContents = sizeof kContents / sizeof *kContents;

// the memory below the caller's frame
__attribute__((noinline, no_sanitize("address"))) void fill_stack(int content)
{
    volatile char stack[1 << 16];
    for (size_t i = 0; i < sizeof stack; ++i) stack[i] = content == failures::kCounter ? 0x35 + 0x4d * i : content;
}

// Calls f with memory like this; returns whether it ended with an exception.
template <class F> bool with(int content, F f)
{
    failures::State& st = failures::state();
    fresh();
    st.fill = content;
    fill_stack(content);
    bool threw = false;
    try { f(); } catch (...) { threw = true; }
    st.fill = failures::kNoFill;
    return threw;
}

struct Seen
{
    std::vector<V> values;
    std::vector<bool> threw;
    bool operator==(const Seen& o) const { return same(values, o.values) && threw == o.threw; }
    static bool same(const std::vector<V>& a, const std::vector<V>& b)
    {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); ++i)
        {
            if (a[i].size() != b[i].size()) return false;
            for (size_t k = 0; k < a[i].size(); ++k) if (!(a[i][k] == b[i][k] || (a[i][k] != a[i][k] && b[i][k] != b[i][k]))) return false;
        }
        return true;
    }
    std::string show() const
    {
        std::string s;
        for (size_t i = 0; i < values.size(); ++i) s += (i ? ", " : "") + mc::show(values[i]);
        return s;
    }
};

// the results are collected in memory the library does not see the contents of
template <class F> void collect(Seen& seen, int content, F f)
{
    V* v = new V();
    v->reserve(512);
    bool threw = with(content, [&] { f(*v); });
    seen.values.push_back(*v);
    seen.threw.push_back(threw);
    delete v;
}

template <class S> Seen run(const Subject<S>& subject, const std::vector<int>& history, int content)
{
    Seen seen;
    std::unique_ptr<S> s;
    with(content, [&] { s.reset(new S); });
    collect(seen, content, [&](V& out) { s->observe(out); });
    for (int i : history)
    {
        collect(seen, content, [&](V& out) { subject.operations[i].perform(*s, out); });
        collect(seen, content, [&](V& out) { s->observe(out); });
    }
    with(content, [&] { s.reset(); });
    return seen;
}

std::string name(int content)
{
    if (content == failures::kCounter) return "bytes of many values";
    char b[32];
    snprintf(b, sizeof b, "bytes 0x%02x", content);
    return b;
}

void compare(const Seen& zeros, const Seen& other, const std::string& contents, const std::string& what)
{
    mc::step();
    MC_CHECK(zeros == other, what << " with memory that contained " << contents << ": " << other.show() << ", with zeros: " << zeros.show());
}

template <class S> void histories(const Subject<S>& subject, int depth)
{
    failures::state() = failures::State();
    int content = kContents[mc::choose(kNumberOfContents, "memory")];
    std::vector<int> history;
    std::string what = "new object";
    uint64_t h = content;
    for (int d = 0; d < depth; ++d)
    {
        int i = mc::choose(subject.operations.size() + 1, "operation");
        if (i == (int)subject.operations.size()) break;
        history.push_back(i);
        what += std::string(d ? ", " : ": ") + subject.operations[i].name;
        h = mc::mix(h, i);
    }
    MC_TRACE(what);
    Seen zeros = run(subject, history, 0), other = run(subject, history, content);
    compare(zeros, other, name(content), what);
    for (const V& v : other.values) h = mc::hash_doubles(v, h);
    mc::state(h);
    mc::outcome(h);
}

Seen run(const uses::Entry& e, int content)
{
    Seen seen;
    std::unique_ptr<uses::Use> u;
    with(content, [&] { u.reset(e.make()); });
    for (int i = 0; i < 2; ++i)
    {
        collect(seen, content, [&](V& out) { u->observe(out); });
        collect(seen, content, [&](V& out) { u->perform(out); });
    }
    with(content, [&] { u.reset(); });
    return seen;
}

void one_use(const uses::Entry& e, bool blocks)
{
    failures::State& st = failures::state();
    st = failures::State();
    Seen zeros = run(e, 0);
    long n = blocks ? st.filled : 0;
    int c = mc::choose(kNumberOfContents + n, "memory");
    st = failures::State();
    int content = c < kNumberOfContents ? kContents[c] : 0;
    if (c >= kNumberOfContents) st.odd = c - kNumberOfContents;
    std::string contents = st.odd < 0 ? name(content) : "bytes 0xff in block " + std::to_string(st.odd) + " and zeros elsewhere";
    Seen other = run(e, content);
    compare(zeros, other, contents, e.name);
    uint64_t h = c;
    for (const V& v : other.values) h = mc::hash_doubles(v, h);
    mc::state(h);
    mc::outcome(h);
}

// ---- objects before they are told anything --------------------------------

template <class M> struct MutatorS
{
    M m;
    MutatorS();
    void observe(V& out) { ChromosomeType c(6); m.MutateChromosome(&c); keep(out, c); }
};
template <> MutatorS<LinearMutator>::MutatorS() : m(0.25, 0.75) {}
template <> MutatorS<FlipBitMutator>::MutatorS() : m(0.3) {}
template <class M> Subject<MutatorS<M> > mutators()
{
    Subject<MutatorS<M> > r;
    r.good("mutation", [](MutatorS<M>& s, V& out) { s.observe(out); });
    for (int g = 0; g < 2; ++g)
        r.good(g ? "second of 3 generations" : "first of 3 generations", [g](MutatorS<M>& s, V&) {
            MutationContext c;
            c.current_generation = g;
            c.max_number_of_generations = 3;
            s.m.ApplyNewMutationContext(c);
        });
    return r;
}
struct StatisticsS
{
    k52::parallel::WorkerStatistics a;
    StatisticsS() : a(0, 0, 0) {}
    void observe(V& out) { out.push_back(a.get_counted()); out.push_back(a.get_errors()); out.push_back(a.get_id()); }
};
// a spline that was not trained yet has no values; that has to be stable too
struct NewSplineS
{
    AkimaSpline::shared_ptr s;
    NewSplineS() : s(AkimaSpline::Create()) {}
    void observe(V& out)
    {
        for (double at : { -1.0, 0.0, 0.5, 4.0 })
        {
            try { out.push_back(s->Value(at)); }
            catch (std::exception&) { out.push_back(-1e9); }
        }
    }
};
}

int main(int argc, char** argv)
{
    mc::describe("every use and every short history of operations on objects of each kind, refused ones included, with 6 contents of the heap and of the "
                 "stack, each compared with memory of zeros");
    bool t = opt::thorough(argc, argv);
    opt::no_plot();
    mc::Options o;
    o.warm_up = true;
    auto add = [&](const std::string& name, int d, auto r) {
        mc::add(name, "histories of up to " + std::to_string(d) + " operations, 6 contents of memory", [=] { histories(r, d); }, o);
    };
    all(t, [&](const std::string& name, int, auto r) { add(name, t ? 3 : 2, r); });
    add("mutator that flips bits", 3, mutators<FlipBitMutator>());
    add("linear mutator", 3, mutators<LinearMutator>());
    {
        typedef StatisticsS S;
        Subject<S> r;
        r.good("counted", [](S& s, V&) { s.a.IncreaseCounted(); }).good("error", [](S& s, V&) { s.a.IncreaseErrors(); });
        add("statistics", 3, r);
    }
    {
        typedef NewSplineS S;
        Subject<S> r;
        r.good("training", [](S& s, V&) { s.s->Initialize(V({ 0, 1, 2, 3, 4 }), signal(5, 1)); });
        add("new spline", 2, r);
    }
    for (const uses::Entry& e : uses::all())
    {
        bool blocks = t;
        mc::add("use: " + std::string(e.name), blocks ? "6 contents of memory, and each block different from all others" : "6 contents of memory", [=] { one_use(e, blocks); }, o);
    }
    return mc::run(argc, argv);
}
