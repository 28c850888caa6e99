// O13: random search returns the best of the points it draws within its bounds, or of what its optimizer makes of them.
#include "opt_util.h"

using namespace opt;

namespace
{
const int kMax = 2147483647;
const int kMenu[] = { 0, kMax, 644245095, 1288490188 };

struct Draws
{
    Draws(int menu)
    {
        env::reset(1);
        env::reset_random();
        env::set_rand([=] { return kMenu[mc::choose(menu, "draw")]; });
    }
    ~Draws() { env::set_rand(std::function<int()>()); }
};

struct Inner
{
    std::vector<Point> starts, results;
    std::vector<bool> maximize;
    bool identity = false;
};

// an optimizer whose results are chosen by the explorer
class Chosen : public ContinuousOptimizer
{
public:
    explicit Chosen(Inner* i) : i_(i) {}
    virtual Chosen* Clone() const { return new Chosen(i_); }
    virtual std::string get_name() const { return "Chosen"; }
protected:
    virtual std::vector<double> FindOptimalParameters(const std::vector<double>& p)
    {
        i_->starts.push_back(p);
        i_->maximize.push_back(get_maximize());
        Point r(p);
        if (!i_->identity) for (double& x : r) x += 100 * (1 + i_->results.size()) * mc::choose(2, "moved");
        i_->results.push_back(r);
        MC_TRACE("optimizer: " << mc::show(p) << " -> " << mc::show(r));
        return r;
    }
private:
    Inner* i_;
};

void search(int max_points, int dimension, int menu, int values, bool with_optimizer)
{
    int points = 1 + mc::choose(max_points, "points");
    static const double bounds[][2] = { { -1, 3 }, { 0.1, 0.3 }, { 5, 5 } };
    int b = mc::choose(3, "bounds");
    double low = bounds[b][0], high = bounds[b][1];
    bool maximize = mc::choose(2, "maximize");
    Record r;
    std::vector<double> m = { 0, 1, -1 };
    m.resize(values);
    r.f = chosen(m, 1 << 20, 0);
    Inner inner;
    Chosen optimizer(&inner);
    inner.identity = menu > 3;
    RandomSearch o(points, low, high, with_optimizer ? &optimizer : NULL);
    Point result;
    {
        Draws d(menu);
        result = optimize(o, r, Point(dimension, 0.5), maximize);
    }
    const std::vector<Point>& drawn = with_optimizer ? inner.starts : r.points;
    const std::vector<Point>& candidates = with_optimizer ? inner.results : r.points;
    MC_CHECK((int) drawn.size() == points, drawn.size() << " points were tried instead of " << points);
    for (const Point& p : drawn)
        for (double x : p)
            MC_CHECK(x >= low && x <= high, "the point " << mc::show(p) << " is outside of [" << low << ", " << high << "]");
    for (bool x : inner.maximize) MC_CHECK(x == maximize, "the optimizer was told another direction");
    bool found = false;
    double best = 0;
    for (size_t i = 0; i < candidates.size(); ++i)
    {
        MC_CHECK(r.has(candidates[i]), "the result " << mc::show(candidates[i]) << " of the optimizer was not evaluated");
        double v = r.known[candidates[i]];
        if (!i || (maximize ? v > best : v < best)) best = v;
        if (candidates[i] == result) found = true;
    }
    MC_CHECK(found, "the result " << mc::show(result) << " is none of the points tried");
    MC_CHECK(r.known[result] == best, "the result " << mc::show(result) << " has the value " << r.known[result] << ", the best is " << best);
    mc::state(hash(result));
    mc::outcome(hash(result, mc::hash_doubles(r.values, points)));
}

// many points of many coordinates
void larger()
{
    static const int sizes[] = { 10, 33, 100, 300 };
    int points = sizes[mc::choose(4, "points")], n = 1 + 3 * mc::choose(4, "dimension");
    bool maximize = mc::choose(2, "maximize"), with_optimizer = mc::choose(2, "optimizer");
    int seed = mc::choose(8, "stream");
    Record r;
    r.f = rugged(seed, 0.3, -1, 3);
    Inner inner;
    inner.identity = true;
    Chosen optimizer(&inner);
    RandomSearch o(points, -1, 3, with_optimizer ? &optimizer : NULL);
    env::reset(seed + 1);
    env::reset_random();
    Point result = optimize(o, r, Point(n, 0.5), maximize);
    const std::vector<Point>& drawn = with_optimizer ? inner.starts : r.points;
    MC_CHECK((int) drawn.size() == points, drawn.size() << " points were tried instead of " << points);
    std::set<double> different;
    for (const Point& p : drawn)
    {
        MC_CHECK((int) p.size() == n, "a point of " << p.size() << " coordinates was tried instead of " << n);
        for (double x : p)
        {
            MC_CHECK(x >= -1 && x <= 3, "the point " << mc::show(p) << " is outside of [-1, 3]");
            different.insert(x);
        }
        MC_CHECK(r.has(p), "the point " << mc::show(p) << " was not evaluated");
    }
    MC_CHECK((int) different.size() >= points * n * 9 / 10, "only " << different.size() << " of " << points * n << " coordinates were drawn separately");
    MC_CHECK(r.has(result) && r.known[result] == r.best(maximize), "the result " << mc::show(result) << " is not the best of " << points << " points");
    mc::state(hash(result));
    mc::outcome(hash(result, points));
}

// every corner of the bounds can be drawn, at every place of the list of points
void reach()
{
    int points = 1 + mc::choose(3, "points"), n = 1 + mc::choose(3, "dimension");
    int total = points * n;
    if (total > 9) mc::discard();
    std::vector<std::set<std::vector<bool>>> seen(points);
    for (int k = 0; k < 1 << total; ++k)
    {
        Record r;
        std::vector<Point> order;
        r.f = [](const Point&) { return 1.0; };
        env::reset(1);
        env::reset_random();
        int calls = 0;
        env::set_rand([=, &calls]() { int i = calls++; return k >> (i % total) & 1 ? kMax : 0; });
        RandomSearch o(points, -2, 6);
        optimize(o, r, Point(n, 0), true);
        env::set_rand(std::function<int()>());
        MC_CHECK((int) r.points.size() == points, r.points.size() << " points were tried instead of " << points);
        for (int i = 0; i < points; ++i)
        {
            std::vector<bool> corner;
            for (double x : r.points[i]) { MC_CHECK(x == -2 || x == 6, "the extreme draws lead to " << x << " in [-2, 6]"); corner.push_back(x == 6); }
            seen[i].insert(corner);
        }
    }
    for (int i = 0; i < points; ++i)
        MC_CHECK(seen[i].size() == 1u << n, "point " << i << " can reach only " << seen[i].size() << " of " << (1 << n) << " corners of the bounds");
    mc::outcome(points * 8 + n);
}

// equally likely draws lead to equally distributed coordinates
void distribution()
{
    static const double bounds[][2] = { { -1, 3 }, { 0, 1 }, { -7, -2 }, { 0, 1e6 } };
    int b = mc::choose(4, "bounds"), coordinate = mc::choose(3, "coordinate");
    double low = bounds[b][0], high = bounds[b][1];
    const int grid = 512;
    for (int k = 0; k < grid; ++k)
    {
        Record r;
        r.f = [](const Point&) { return 1.0; };
        double u = (k + 0.5) / grid;
        env::reset(1);
        env::reset_random();
        env::set_rand([=]() { return (int) (u * kMax); });
        RandomSearch o(1, low, high);
        Point p = optimize(o, r, Point(3, 0), false);
        env::set_rand(std::function<int()>());
        MC_CHECK(std::fabs(p[coordinate] - (low + u * (high - low))) <= 1e-6 * (high - low) || std::fabs(p[coordinate] - (high - u * (high - low))) <= 1e-6 * (high - low),
                 "the draw " << u << " leads to " << p[coordinate] << " in [" << low << ", " << high << "]");
    }
    mc::outcome(b * 3 + coordinate);
}

void nothing()
{
    bool with_optimizer = mc::choose(2, "optimizer");
    bool maximize = mc::choose(2, "maximize");
    Inner inner;
    Chosen optimizer(&inner);
    RandomSearch o(0, -1, 1, with_optimizer ? &optimizer : NULL);
    Record r;
    r.f = [](const Point&) { return 1.0; };
    bool refused = false;
    try { optimize(o, r, Point(2, 0), maximize); } catch (std::invalid_argument&) { refused = true; }
    mc::step();
    MC_CHECK(refused, "a search among no points was not refused");
    mc::outcome(with_optimizer);
}
}

int main(int argc, char** argv)
{
    bool t = opt::thorough(argc, argv);
    mc::describe("all draws from a small set including the extreme ones, all values of the function from a small set, all results of the optimizer; "
                 "the result is compared with the best of everything tried");
    std::cout.setstate(std::ios::badbit);
    mc::add("1 dimension", "1-4 (thorough: 5) points, 4 draws, 3 values, 3 bounds, both directions", [=] { search(t ? 5 : 4, 1, 4, 3, false); });
    mc::add("2 dimensions", "1-3 points, 3 draws, 3 values, 3 bounds, both directions", [=] { search(3, 2, 3, 3, false); });
    mc::add("optimizer", "1-3 points, 3 draws, 2 results of the optimizer each, 3 values, 3 bounds, both directions", [=] { search(3, 1, 3, 3, true); });
    mc::add("optimizer without effect", "1-3 (thorough: 4) points, 4 draws, 3 values, 3 bounds, both directions", [=] { search(t ? 4 : 3, 1, 4, 3, true); });
    mc::add("corners", "1-3 points of 1-3 dimensions, all combinations of extreme draws", reach);
    mc::add("distribution", "4 bounds, 3 coordinates, 512 equally likely draws", distribution);
    mc::add("no points", "with and without optimizer", nothing);
    mc::add("larger", "10-300 points, 1-10 dimensions, with and without optimizer, 8 streams of draws", larger);
    return mc::run(argc, argv);
}
