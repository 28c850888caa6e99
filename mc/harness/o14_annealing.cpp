// O14: simulated annealing is a random walk with the acceptance probabilities it is defined by.
#include "opt_util.h"

using namespace opt;

namespace
{
const int kMax = 2147483647;
const int kMenu[] = { 0, kMax, 644245095, 1288490188, 214748365 };
double fraction(int draw) { return (double) draw / kMax; }

struct Walk
{
    std::vector<int> draws;
    std::vector<size_t> at;      // number of draws before each evaluation
    Record r;
};

// the definition, applied to the draws; true if the observed run follows it
void check(Walk& w, const Point& start, size_t iterations, double low, double high, double sign, const Point& result)
{
    Point current(start);
    size_t e = 0;
    auto value = [&](const Point& p) { return sign * w.r.known[p]; };
    // an evaluation of the start before anything was drawn
    while (e < w.r.points.size() && w.at[e] == 0) { MC_CHECK(w.r.points[e] == start, "a point was evaluated before anything was drawn"); e++; }
    if (iterations == 0)
    {
        MC_CHECK(w.r.points.size() == e && result == start, "without iterations the result is " << mc::show(result));
        return;
    }
    MC_CHECK(e < w.r.points.size(), "nothing was evaluated");
    size_t per_step = w.at[e], used = 0;
    for (size_t i = 1; i <= iterations; ++i)
    {
        MC_CHECK(e < w.r.points.size(), "only " << i - 1 << " of " << iterations << " iterations were made");
        size_t now = w.at[e], drawn = now - used;
        // find the neighbour among what was evaluated with these draws
        Point neighbour;
        bool found = false;
        std::vector<Point> group;
        for (; e < w.r.points.size() && w.at[e] == now; ++e) group.push_back(w.r.points[e]);
        for (const Point& p : group)
        {
            int changed = 0;
            for (size_t k = 0; k < p.size(); ++k)
                if (p[k] != current[k])
                {
                    changed++;
                    MC_CHECK(p[k] >= low && p[k] <= high, "a parameter was set to " << p[k] << ", outside of [" << low << ", " << high << "]");
                    bool by_draw = false;
                    for (size_t d = used; d < now; ++d) if (std::fabs(low + fraction(w.draws[d]) * (high - low) - p[k]) <= 1e-12 * (1 + std::fabs(p[k]))) by_draw = true;
                    MC_CHECK(by_draw, "iteration " << i << ": the parameter " << p[k] << " is not what was drawn");
                }
            MC_CHECK(changed <= 1, "iteration " << i << ": " << mc::show(p) << " is not a neighbour of " << mc::show(current));
            if (changed == 1) { MC_CHECK(!found || neighbour == p, "iteration " << i << ": two neighbours were evaluated"); neighbour = p; found = true; }
        }
        MC_CHECK(drawn >= per_step && drawn <= per_step + 1, "iteration " << i << ": " << drawn << " numbers were drawn");
        used = now;
        if (!found) neighbour = current;   // the same value was drawn again
        double t = (double) (iterations - i) / iterations;
        double delta = value(neighbour) - value(current);
        double p = delta < 0 ? 1 : delta == 0 ? 1 : t == 0 ? 0 : std::exp(-delta / t);
        // was there a draw for the acceptance?
        bool last = i == iterations;
        size_t next = last ? w.draws.size() : e < w.r.points.size() ? w.at[e] : w.draws.size();
        size_t extra = last ? next - used : next - used - std::min(next - used, per_step);
        MC_CHECK(extra <= 1, "iteration " << i << ": " << extra << " numbers were drawn for one acceptance");
        bool accepted_if_drawn = extra ? fraction(w.draws[used]) <= p && p > 0 : p >= 1;
        bool either = (extra && std::fabs(fraction(w.draws[used]) - p) <= 1e-9 && p < 1 && p > 0) || (delta == 0 && t == 0) || neighbour == current;
        MC_CHECK(extra || p >= 1 || p <= 1e-300, "iteration " << i << ": a change for the worse by " << delta << " at temperature " << t << " was decided without a draw");
        used += extra;
        if (either)
        {
            // see what was done
            if (last) accepted_if_drawn = result == neighbour;
            else
            {
                bool from_neighbour = false;
                for (size_t k = e; k < w.r.points.size() && w.at[k] == w.at[e]; ++k) if (w.r.points[k] == neighbour) from_neighbour = true;
                accepted_if_drawn = from_neighbour;
            }
        }
        MC_TRACE("iteration " << i << ": " << mc::show(current) << " -> " << mc::show(neighbour) << (accepted_if_drawn ? " accepted" : " rejected") << ", worse by "
                 << delta << " at temperature " << t << (extra ? ", draw " + mc::show(fraction(w.draws[used - 1])) : ""));
        if (accepted_if_drawn) current = neighbour;
        mc::state(hash(current, i));
    }
    MC_CHECK(e == w.r.points.size(), "the function was evaluated after the last iteration");
    MC_CHECK(result == current, "the result is " << mc::show(result) << ", by definition it is " << mc::show(current));
}

void walk(size_t iterations, int n, int menu, const std::vector<double>& values, bool deviating)
{
    bool maximize = mc::choose(2, "maximize");
    static const double bounds[][2] = { { -1, 3 }, { 0, 0.25 } };
    int b = mc::choose(2, "bounds");
    double low = bounds[b][0], high = bounds[b][1];
    Point start(n);
    for (int i = 0; i < n; ++i) start[i] = 0.125 + 8 * i;   // need not be within the bounds
    Walk w;
    std::vector<double> m(values);
    if (maximize) for (double& v : m) v = -v;
    w.r.f = [&](const Point& p) {
        if (!deviating) return m[mc::choose(m.size(), "value")];
        double s = 0;
        for (double x : p) s += std::floor(5 * x);
        return m[((int) s % (int) m.size() + m.size()) % m.size()];
    };
    SimulatedAnnealing o(iterations, low, high);
    // record the draws made before each evaluation
    struct Observed : public ContinuousObjectiveFunction
    {
        Walk* w;
        virtual double operator()(const std::vector<double>& p) const { w->at.push_back(w->draws.size()); return w->r.value(p); }
        using ContinuousObjectiveFunction::operator();
        virtual Observed* Clone() const { Observed* c = new Observed; c->w = w; return c; }
    } f;
    f.w = &w;
    ContinuousParametersArray p(start);
    env::reset(mc::seed());
    env::reset_random();
    env::set_rand([&]() {
        int d;
        if (deviating)
        {
            d = env::next_default();
            int i = mc::deviate(menu + 1, "draw");
            if (i) d = kMenu[i - 1];
        }
        else d = kMenu[mc::choose(menu, "draw")];
        w.draws.push_back(d);
        return d;
    });
    o.Optimize(static_cast<const ContinuousObjectiveFunction&>(f), static_cast<IContinuousParameters*>(&p), maximize);
    env::set_rand(std::function<int()>());
    check(w, start, iterations, low, high, maximize ? -1 : 1, p.GetValues());
    mc::outcome(hash(p.GetValues(), mc::hash_doubles(w.r.values)));
}

// every parameter can be the one that is changed
void reach()
{
    int n = 1 + mc::choose(8, "dimension");
    std::set<int> changed;
    for (int k = 0; k < 120; ++k)
    {
        Record r;
        r.f = [](const Point&) { return 0.0; };
        env::reset(1);
        env::reset_random();
        int calls = 0;
        env::set_rand([=, &calls]() { int i = calls++; return (int) ((long long) (k + 7 * i) * 35791393 % 2147483647); });
        SimulatedAnnealing o(2, 1, 2);
        optimize(o, r, Point(n, 0), false);
        env::set_rand(std::function<int()>());
        for (const Point& p : r.points) for (int i = 0; i < n; ++i) if (p[i] != 0) changed.insert(i);
    }
    MC_CHECK((int) changed.size() == n, "only " << changed.size() << " of " << n << " parameters can be changed");
    mc::outcome(n);
}
}

int main(int argc, char** argv)
{
    bool t = opt::thorough(argc, argv);
    mc::describe("all draws from a small set including the extreme ones and all values of the function from a small set; every step is compared with the definition: "
                 "one parameter changes to a value drawn from the bounds, improvements are accepted, others with probability exp(-difference / temperature)");
    std::cout.setstate(std::ios::badbit);
    mc::add("no iterations", "1-2 dimensions", [] { walk(0, 1 + mc::choose(2, "dimension"), 2, { 0 }, false); });
    mc::add("1 iteration", "1 dimension, 5 draws, 3 values, 2 bounds", [] { walk(1, 1, 5, { 0, 0.5, 3 }, false); });
    mc::add("2 iterations, 1 dimension", "4 draws (thorough: 5), 3 values, 2 bounds", [=] { walk(2, 1, t ? 5 : 4, { 0, 0.5, 3 }, false); });
    mc::add("2 iterations, 2 dimensions", "4 draws, 3 values, 2 bounds", [] { walk(2, 2, 4, { 0, 0.5, 3 }, false); });
    mc::add("3 iterations, 1 dimension", "3 draws (thorough: 4), 2 values, 2 bounds", [=] { walk(3, 1, t ? 4 : 3, { 0, 0.4 }, false); });
    mc::add("2 iterations, values around 5", "1 dimension, 4 draws, 3 values, 2 bounds", [] { walk(2, 1, 4, { 5, 5.5, 8 }, false); });
    mc::add("2 iterations, values around -10", "1 dimension, 4 draws, 3 values, 2 bounds", [] { walk(2, 1, 4, { -10, -9.75, -12 }, false); });
    mc::add("2 iterations, values of many magnitudes", "1 dimension, 4 draws, 3 values, 2 bounds", [] { walk(2, 1, 4, { -1e6, 1e-3, 1e6 }, false); });
    mc::Options o;
    o.max_deviations = t ? 3 : 2;
    mc::add("8 iterations", "3 dimensions, default draws with 2 (thorough: 3) deviations to 5 values, a fixed function", [] { walk(8, 3, 5, { 0, 0.3, 0.1, 1.2 }, true); }, o);
    mc::add("20 iterations", "2 dimensions, default draws with 2 (thorough: 3) deviations to 5 values, a fixed function", [] { walk(20, 2, 5, { 0, 0.3, 0.1, 1.2 }, true); }, o);
    mc::Options ol;
    ol.max_deviations = 1;
    mc::add("150 iterations", "2 and 6 dimensions, default draws with 1 deviation to 5 values, a fixed function", [] { walk(150, mc::choose(2, "dimensions") ? 6 : 2, 5, { 0, 0.3, 0.1, 1.2 }, true); }, ol);
    mc::add("reach", "1-8 dimensions, 120 draws", reach);
    return mc::run(argc, argv);
}
