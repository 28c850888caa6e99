// O16: continuous optimizers evaluate their function only where the constraints hold, and refuse what they cannot optimize.
#include "opt_util.h"
#include <k52/optimization/params/int_parameter.h>
#include <k52/optimization/discrete_objective_function.h>
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/flip_bit_mutator.h>

using namespace opt;

namespace
{
struct Constraint
{
    std::function<bool(const Point&)> f;
    std::map<Point, bool> known;
    bool refused = false;
    size_t asked = 0;
    bool ok(const Point& p)
    {
        if (++asked > 20000) throw Stop(); // a random search may look for a point for ever
        std::map<Point, bool>::iterator it = known.find(p);
        bool r = it != known.end() ? it->second : (known[p] = f(p));
        MC_TRACE((r ? "feasible " : "infeasible ") << mc::show(p));
        if (!r) refused = true;
        return r;
    }
};

class Constrained : public IContinuousParameters
{
public:
    Constrained(Constraint* c, const Point& p) : c_(c), p_(p) {}
    virtual void SetValues(const std::vector<double>& v) { MC_CHECK(v.size() == p_.size(), v.size() << " values were set for " << p_.size() << " parameters"); p_ = v; }
    virtual std::vector<double> GetValues() const { return p_; }
    virtual bool CheckConstraints() const { return c_->ok(p_); }
    virtual Constrained* Clone() const { return new Constrained(c_, p_); }
private:
    Constraint* c_;
    Point p_;
};

void check(int method, int variant, const std::function<double(const Point&)>& f, const std::function<bool(const Point&)>& feasible, const Point& start, size_t stop)
{
    Constraint c;
    c.f = feasible;
    Record r;
    r.f = f;
    r.stop = stop;
    ContinuousOptimizer::shared_ptr o(make(method, variant));
    Function function(&r);
    Constrained p(&c, start);
    bool maximize = mc::choose(2, "maximize");
    bool logic = false, stopped = false, other = false;
    MC_TRACE(o->get_name() << (maximize ? " maximizes" : " minimizes"));
    try { o->Optimize(static_cast<const ContinuousObjectiveFunction&>(function), static_cast<IContinuousParameters*>(&p), maximize); }
    catch (std::logic_error&) { logic = true; }
    catch (Stop&) { stopped = true; }
    catch (std::exception&) { other = true; }
    mc::step();
    for (const Point& x : r.points)
    {
        std::map<Point, bool>::iterator it = c.known.find(x);
        bool ok = it != c.known.end() ? it->second : feasible(x);
        MC_CHECK(ok, o->get_name() << " evaluated the function at " << mc::show(x) << ", where the constraints do not hold");
    }
    bool retries = method == kRandom || method == kRandomWithOptimizer; // may draw another point
    if (c.refused && !retries) MC_CHECK(logic || other, o->get_name() << " met a point that does not satisfy the constraints and went on");
    if (!c.refused) MC_CHECK(!logic, o->get_name() << " threw logic_error though all constraints were satisfied");
    if (method == kRandom && !logic && !other && !stopped) MC_CHECK(r.has(p.GetValues()), "the result was never evaluated");
    uint64_t h = mc::mix(method, logic + 2 * stopped + 4 * other);
    for (const Point& x : r.points) h = opt::hash(x, h);
    mc::state(h);
    mc::outcome(h);
}

// feasibility of the first points is chosen
void adversarial(int budget)
{
    env::reset(3);
    env::reset_random();
    no_plot();
    int method = mc::choose(kMethods, "method");
    int variant = mc::choose(2, "settings");
    int left = budget;
    std::function<bool(const Point&)> feasible = [left](const Point&) mutable { return left-- > 0 ? !mc::choose(2, "infeasible") : true; };
    Point start(2, 0.25);
    check(method, variant, function(mc::choose(kFunctions, "function")), feasible, start, 60);
}

// a point in the way of each method is infeasible, however late it is reached
void later(int points)
{
    env::reset(3);
    env::reset_random();
    no_plot();
    int method = mc::choose(kMethods, "method");
    int variant = mc::choose(2, "settings");
    int at = mc::choose(points, "infeasible point");
    std::function<bool(const Point&)> feasible = [at](const Point&) mutable { return at-- != 0; };
    Point start(2, 0.25);
    check(method, variant, function(mc::choose(kFunctions, "function")), feasible, start, 400);
}

// more dimensions; the constraints hold in a box, a half space, outside of a ball or almost everywhere
void larger()
{
    env::reset(3);
    env::reset_random();
    no_plot();
    int method = mc::choose(kMethods, "method");
    int variant = mc::choose(2, "settings");
    static const int dimensions[] = { 1, 3, 5, 8 };
    Point start(dimensions[mc::choose(4, "dimensions")], 0.25);
    int kind = mc::choose(4, "constraints");
    static const double sizes[] = { 0.3, 1, 2.5, 6 };
    double size = sizes[mc::choose(4, "size")];
    std::function<bool(const Point&)> feasible = [=](const Point& p) {
        double sum = 0, square = 0, most = 0;
        uint64_t h = 7;
        for (double x : p)
        {
            sum += x;
            square += (x - 2) * (x - 2);
            most = std::max(most, std::fabs(x));
            h = mc::mix(h, (uint64_t) (int64_t) std::floor(std::max(-1e15, std::min(1e15, x * 16))));
        }
        switch (kind)
        {
            case 0: return most <= size;
            case 1: return sum <= size;
            case 2: return square >= size * size;
            default: return h % (uint64_t) (size * 40) != 0 || p == start;
        }
    };
    check(method, variant, rugged(mc::choose(mc::thorough() ? 8 : 2, "function"), 0.3), feasible, start, 3000);
}

class Sum : public DiscreteObjectiveFunction
{
public:
    virtual double operator()(const IDiscreteParameters* p) const { return dynamic_cast<const IntParameter&>(*p).get_value(); }
    using DiscreteObjectiveFunction::operator();
    virtual Sum* Clone() const { return new Sum; }
};

void kinds()
{
    env::reset(3);
    no_plot();
    int method = mc::choose(kMethods + 1, "method");
    IOptimizer::shared_ptr o;
    if (method < kMethods) o.reset(make(method));
    else o = GeneticAlgorithm::Create(4, 1, 3, IMutator::shared_ptr(new FlipBitMutator(0.2)));
    bool continuous_function = mc::choose(2, "function"), continuous_parameters = mc::choose(2, "parameters");
    Record r;
    r.f = function(0);
    Function f(&r);
    Sum sum;
    IntParameter::shared_ptr ip(new IntParameter(0, 7));
    ContinuousParametersArray cp(Point(2, 0.5));
    IParameters* p = continuous_parameters ? static_cast<IParameters*>(&cp) : ip.get();
    const IObjectiveFunction* g = continuous_function ? static_cast<const IObjectiveFunction*>(&f) : &sum;
    int before = ip->get_value();
    // the function itself
    bool refused = false;
    try { (*g)(p); } catch (std::logic_error&) { refused = true; }
    MC_CHECK(refused == (continuous_function != continuous_parameters), "a function of " << (continuous_function ? "continuous" : "discrete") << " parameters "
             << (refused ? "refused" : "accepted") << (continuous_parameters ? " continuous" : " discrete") << " parameters");
    r.clear();
    bool continuous = method < kMethods;
    bool fits = continuous == continuous_function && continuous == continuous_parameters;
    refused = false;
    try { o->Optimize(*g, p, !continuous); } catch (std::logic_error&) { refused = true; } catch (std::bad_cast&) { refused = true; }
    mc::step();
    MC_CHECK(refused == !fits, o->get_name() << (refused ? " refused" : " accepted") << (continuous_function ? " a continuous function" : " a discrete function")
             << (continuous_parameters ? " of continuous parameters" : " of discrete parameters"));
    if (refused) MC_CHECK(r.points.empty() && cp.GetValues() == Point(2, 0.5) && ip->get_value() == before, "a refused optimization had an effect");
    if (!refused && !continuous) MC_CHECK(ip->get_value() >= 0 && ip->get_value() <= 7, "the result is out of its range");
    mc::outcome(method * 8 + continuous_function * 4 + continuous_parameters * 2 + refused);
}

void values_of_another_size()
{
    size_t n = mc::choose(4, "size"), m = mc::choose(5, "other size");
    Point a(n), b(m);
    for (size_t i = 0; i < n; ++i) a[i] = i + 0.5;
    for (size_t i = 0; i < m; ++i) b[i] = -(double) i - 1;
    bool from_size = mc::choose(2, "made from a size");
    ContinuousParametersArray::shared_ptr p(from_size ? new ContinuousParametersArray(n) : new ContinuousParametersArray(a));
    if (from_size) MC_CHECK(p->GetValues() == Point(n), "new parameters are not zero");
    p->SetValues(a);
    MC_CHECK(p->CheckConstraints(), "parameters without constraints do not satisfy them");
    bool refused = false;
    try { p->SetValues(b); } catch (std::invalid_argument&) { refused = true; }
    mc::step();
    MC_CHECK(refused == (m != n), m << " values were " << (refused ? "refused" : "accepted") << " for " << n << " parameters");
    MC_CHECK(p->GetValues() == (m == n ? b : a), "the parameters are " << mc::show(p->GetValues()));
    mc::outcome(n * 8 + m);
}
}

int main(int argc, char** argv)
{
    bool t = opt::thorough(argc, argv);
    mc::describe("whether the constraints hold is chosen at each of the first points that are asked about; or they do not hold at one point, which may be met late; "
                 "all combinations of kinds of optimizers, functions and parameters");
    std::cout.setstate(std::ios::badbit);
    mc::add("any constraint", "8 methods, 2 settings, 6 functions, all answers for the first 7 (thorough: 10) points", [=] { adversarial(t ? 10 : 7); });
    mc::add("one point", "8 methods, 2 settings, 6 functions, each of the first 40 (thorough: 200) points", [=] { later(t ? 200 : 40); });
    mc::add("larger", "8 methods, 2 settings, 1-8 dimensions, 4 kinds and sizes of constraints, 2 (thorough: 8) rugged functions, 3000 evaluations", larger);
    mc::add("kinds", "9 optimizers, continuous and discrete functions and parameters", kinds);
    mc::add("sizes", "0-3 parameters, 0-4 values", values_of_another_size);
    return mc::run(argc, argv);
}
