// O12: what an optimizer has done before, and being a clone, changes nothing.
#include "opt_util.h"

using namespace opt;

namespace
{
struct Task { int function, dimension, maximize, abort, start; };

Trace perform(ContinuousOptimizer& o, const Task& t)
{
    env::reset(5);
    env::reset_random();
    Record r;
    r.f = function(t.function);
    r.stop = t.abort == 1 ? 2 : t.abort == 2 ? 9 : 300;
    Point start(t.dimension);
    static const double at[] = { 0.5, -1.25, 3 };
    for (int i = 0; i < t.dimension; ++i) start[i] = at[(i + t.start) % 3];
    return run(o, r, start, t.maximize);
}

Task choose_task(int dimensions, bool last, bool few)
{
    Task t;
    t.function = few ? mc::choose(3, "function") * 2 : mc::choose(kFunctions, "function");
    t.dimension = 1 + mc::choose(dimensions, "dimension");
    t.maximize = mc::choose(2, "maximize");
    t.abort = last ? 0 : mc::choose(few || !mc::thorough() ? 2 : 3, "abort");
    t.start = few || (!last && !mc::thorough()) ? 0 : mc::choose(2, "start");
    return t;
}

void histories(int depth, bool few)
{
    env::reset(1);
    no_plot();
    int method = mc::choose(kMethods, "method");
    int variant = mc::choose(2, "settings");
    bool cloneable = method < kDeterministic;
    std::vector<ContinuousOptimizer::shared_ptr> o;
    o.push_back(ContinuousOptimizer::shared_ptr(make(method, variant)));
    int clone_at = cloneable ? mc::choose(depth + 2, "clone after") : depth + 1; // depth + 1: no clone
    for (int d = 0; d <= depth; ++d)
    {
        if (d == clone_at) o.push_back(ContinuousOptimizer::shared_ptr(o[0]->Clone()));
        if (d == depth) break;
        // the history happens to the original; a clone remains as it was made
        perform(*o[0], choose_task(2, false, few));
    }
    Task last = choose_task(2, true, few);
    ContinuousOptimizer::shared_ptr fresh(make(method, variant));
    Trace expected = perform(*fresh, last);
    for (size_t k = o.size(); k-- > 0;)
    {
        Trace t = perform(*o[k], last);
        MC_CHECK(t.same(expected), (k ? "a clone of " : "a used ") << o[k]->get_name() << " works differently from a new one: " << t.show() << " instead of " << expected.show());
        MC_CHECK(o[k]->get_name() == fresh->get_name(), "the name changed");
    }
    if (o.size() > 1)
    {
        // a clone outlives its original
        o[0].reset();
        Trace t = perform(*o[1], last);
        MC_CHECK(t.same(expected), "a clone works differently after its original was destroyed");
    }
    mc::state(mc::mix(expected.hash(), method));
    mc::outcome(mc::mix(expected.hash(), method * 2 + variant));
}

// more dimensions, runs of up to thousands of evaluations before
void larger()
{
    env::reset(1);
    no_plot();
    int method = mc::choose(kMethods, "method");
    int variant = mc::choose(2, "settings");
    int ends[] = { 2, 60, 2000 };
    auto go = [&](ContinuousOptimizer& o, int k, int dimension, bool maximize, int stop) {
        env::reset(5);
        env::reset_random();
        Record r;
        r.f = rugged(k, 0.3);
        r.stop = stop;
        Point start(dimension);
        for (int i = 0; i < dimension; ++i) start[i] = 0.5 - 0.75 * i;
        return run(o, r, start, maximize);
    };
    ContinuousOptimizer::shared_ptr used(make(method, variant)), fresh(make(method, variant)), clone;
    static const int dimensions[] = { 1, 4, 7 };
    int before = dimensions[mc::choose(3, "dimension before")], end = ends[mc::choose(3, "end before")];
    bool maximize_before = mc::choose(2, "maximize before");
    int after = dimensions[mc::choose(3, "dimension")], k = mc::choose(mc::thorough() ? 12 : 3, "function");
    bool maximize = mc::choose(2, "maximize");
    go(*used, k + 100, before, maximize_before, end);
    if (method < kDeterministic) clone.reset(used->Clone());
    Trace expected = go(*fresh, k, after, maximize, 1500);
    Trace t = go(*used, k, after, maximize, 1500);
    MC_CHECK(t.same(expected), "a used " << used->get_name() << " works differently from a new one: " << t.show() << " instead of " << expected.show());
    if (clone)
    {
        t = go(*clone, k, after, maximize, 1500);
        MC_CHECK(t.same(expected), "a clone of a used " << used->get_name() << " works differently from a new one: " << t.show() << " instead of " << expected.show());
    }
    mc::state(mc::mix(expected.hash(), method));
    mc::outcome(mc::mix(expected.hash(), method * 2 + variant));
}
}

int main(int argc, char** argv)
{
    bool t = opt::thorough(argc, argv);
    mc::describe("every history of a number of runs (functions, dimensions, directions, runs ended by an exception of the function) of an optimizer and its clone is "
                 "followed by one more run, which is compared with that of a new optimizer in every evaluated point and in the result; random draws are the same");
    std::cout.setstate(std::ios::badbit);
    mc::add("one run before", "8 methods, 2 settings, clones at all places; 6 functions, 1-2 dimensions, 2 directions, 3 ends, 2 starts", [] { histories(1, false); });
    mc::add("larger", "8 methods, 2 settings, a run in 1, 4 or 7 dimensions of up to 2000 evaluations before one of 1500; 3 (thorough: 12) rugged functions", larger);
    mc::Options o;
    o.thorough_only = true;
    mc::add("two runs before", "8 methods, 2 settings, clones at all places; 3 functions, 1-2 dimensions, 2 directions, 2 ends", [] { histories(2, true); }, o);
    (void) t;
    return mc::run(argc, argv);
}
