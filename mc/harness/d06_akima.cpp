// D06: the Akima spline against Akima's definition.
#include "mc.h"
#include <k52/dsp/akima_spline.h>
#include <cmath>
#include <limits>
#include <stdexcept>

using k52::dsp::AkimaSpline;
typedef long double L;
typedef std::vector<double> V;

namespace
{
// Slope at each knot: mean of the neighbouring secants weighted by the change
// of the secants on the other side; two secants are extrapolated at each end.
std::vector<L> slopes(const V& x, const V& y)
{
    int n = (int)x.size();
    std::vector<L> m(n + 3), s(n); // m[i + 2] is the secant of interval i
    for (int i = 0; i + 1 < n; ++i) m[i + 2] = ((L)y[i + 1] - y[i]) / ((L)x[i + 1] - x[i]);
    m[1] = 2 * m[2] - m[3]; m[0] = 2 * m[1] - m[2];
    m[n + 1] = 2 * m[n] - m[n - 1]; m[n + 2] = 2 * m[n + 1] - m[n];
    L steepest = 0;
    for (int i = 0; i < n + 3; ++i) steepest = std::max(steepest, std::fabs(m[i]));
    for (int i = 0; i < n; ++i)
    {
        L a = std::fabs(m[i + 3] - m[i + 2]), b = std::fabs(m[i + 1] - m[i]);
        s[i] = a + b <= 1e-13L * steepest ? (m[i + 1] + m[i + 2]) / 2 : (a * m[i + 1] + b * m[i + 2]) / (a + b);
    }
    return s;
}
L value(const V& x, const V& y, const std::vector<L>& s, double at)
{
    size_t i = 0;
    while (i + 2 < x.size() && at >= x[i + 1]) ++i;
    L h = (L)x[i + 1] - x[i], t = ((L)at - x[i]) / h;
    return y[i] * (1 + 2 * t) * (1 - t) * (1 - t) + s[i] * h * t * (1 - t) * (1 - t)
         + y[i + 1] * t * t * (3 - 2 * t) + s[i + 1] * h * t * t * (t - 1);
}

void check(AkimaSpline& spline, const V& x, const V& y, const std::string& when)
{
    std::vector<L> s = slopes(x, y);
    L scale = 0;
    for (size_t i = 0; i < y.size(); ++i) scale = std::max(scale, std::fabs((L)y[i]));
    for (size_t i = 0; i < x.size(); ++i)
    {
        for (int k = 0; k < (i + 1 < x.size() ? 5 : 1); ++k)
        {
            double at = k ? x[i] + (x[i + 1] - x[i]) * (k == 1 ? 1e-7 : k == 2 ? 0.3 : k == 3 ? 0.75 : 1 - 1e-7) : x[i];
            double got = spline.Value(at);
            L expected = k ? value(x, y, s, at) : (L)y[i];
            mc::step();
            MC_CHECK(std::fabs(got - expected) <= 1e-9L * scale, when << ": value at " << at << " is " << got << ", expected " << (double)expected
                     << "; knots " << mc::show(x) << ", values " << mc::show(y));
        }
    }
    const double inf = std::numeric_limits<double>::infinity();
    const double outside[] = { std::nextafter(x[0], -inf), x[0] - 100, std::nextafter(x.back(), inf), x.back() + 100, inf, -inf };
    for (double at : outside)
    {
        bool refused = false;
        try { spline.Value(at); } catch (const std::out_of_range&) { refused = true; }
        MC_CHECK(refused, when << ": a value was given at " << at << ", outside of the knots " << mc::show(x));
    }
}

void shapes(int n, V letters, V gaps)
{
    V x(n), y(n);
    // powers of two: scaling makes no rounding errors
    static const double sizes[][2] = { { 1, 1 }, { 1, std::ldexp(1., -45) }, { std::ldexp(1., -45), std::ldexp(1., 40) } };
    const double* size = sizes[mc::choose(3, "magnitude")];
    const double size_x = size[0], size_y = size[1];
    x[0] = mc::choose(2, "origin") ? -2.5 : 0;
    for (int i = 1; i < n; ++i) x[i] = x[i - 1] + gaps[mc::choose((int)gaps.size(), "gap")];
    for (int i = 0; i < n; ++i) y[i] = letters[mc::choose((int)letters.size(), "value")];
    for (int i = 0; i < n; ++i) { x[i] *= size_x; y[i] *= size_y; }
    AkimaSpline::shared_ptr s = AkimaSpline::Create();
    s->Initialize(x, y);
    check(*s, x, y, "new spline");
    uint64_t h = mc::hash_doubles(x, mc::hash_doubles(y));
    mc::state(h);
    mc::outcome(h);
}

// A straight line and long data.
void lines(int limit)
{
    int n = 5 + mc::choose(limit, "size");
    static const double slope[] = { 0, 1, -3, 1e6 };
    double k = slope[mc::choose(4, "slope")];
    int curve = mc::choose(3, "shape"), bend = mc::choose(n, "bend");
    V x(n), y(n);
    for (int i = 0; i < n; ++i)
    {
        x[i] = 0.3 * i + 0.05 * (i % 3);
        y[i] = curve == 0 ? k * x[i] + 2 : curve == 1 ? std::sin(i * 1.1) : k * std::fabs(i - bend);
    }
    AkimaSpline::shared_ptr s = AkimaSpline::Create();
    s->Initialize(x, y);
    check(*s, x, y, "new spline");
    mc::state(mc::hash_doubles(y));
    mc::outcome(mc::hash_doubles(y));
}

void larger()
{
    static const int sizes[] = { 33, 64, 65, 100, 129, 257, 1000 };
    int n = sizes[mc::choose(7, "size")], kind = mc::choose(4, "shape"), gaps = mc::choose(3, "gaps");
    V x(n), y(n);
    for (int i = 0; i < n; ++i)
    {
        x[i] = gaps == 0 ? i : gaps == 1 ? -50 + 0.25 * i + 0.0625 * (i % 3) : i / 1024. + (i > n / 2 ? 100 : 0);
        y[i] = kind == 0 ? std::sin(i * 1.1) : kind == 1 ? (i * i) % 7 : kind == 2 ? std::fabs(i - n / 3) : (i % 10 == 3);
    }
    AkimaSpline::shared_ptr s = AkimaSpline::Create();
    s->Initialize(x, y);
    check(*s, x, y, "new spline");
    mc::state(mc::hash_doubles(y));
    mc::outcome(mc::hash_doubles(x, mc::hash_doubles(y)));
}

void history(int depth)
{
    AkimaSpline::shared_ptr s = AkimaSpline::Create(), other = AkimaSpline::Create();
    V x, y, ox, oy;
    uint64_t h = 1;
    for (int i = 0; i < depth; ++i)
    {
        int op = mc::choose(7, "operation");
        h = mc::mix(h, op);
        static const V gx[] = { { 0, 1, 2, 3, 4 }, { -1, 0, 0.5, 2, 5, 6, 9 }, { 10, 20, 30, 40, 50, 60 } };
        static const V gy[] = { { 1, 0, 2, 2, 2 }, { 3, 1, 0, 0, 0, -4, 1 }, { 0, 0, 7, 0, 0, 1 } };
        switch (op)
        {
        case 0: case 1: case 2: x = gx[op]; y = gy[op]; s->Initialize(x, y); break;
        case 3: case 4:
        {
            bool refused = false;
            try { if (op == 3) s->Initialize(V(4, 1), V(4, 1)); else s->Initialize(gx[0], gy[1]); } catch (const std::invalid_argument&) { refused = true; }
            MC_CHECK(refused, "bad training data accepted");
            break;
        }
        case 5: other->Initialize(gx[0], gy[0]); ox = gx[0]; oy = gy[0]; break;
        case 6: other = AkimaSpline::Create(); ox.clear(); break;
        }
        if (!x.empty()) check(*s, x, y, "after this history");
        else
        {
            bool refused = false;
            try { s->Value(0); } catch (const std::out_of_range&) { refused = true; }
            MC_CHECK(refused, "an untrained spline has a value");
        }
        if (!ox.empty()) check(*other, ox, oy, "the other spline after this history");
        mc::state(h);
    }
    mc::outcome(h);
}

void undefined_argument()
{
    AkimaSpline::shared_ptr s = AkimaSpline::Create();
    s->Initialize({ 0, 1, 2, 3, 4 }, { 1, 0, 2, 2, 2 });
    bool refused = false;
    double v = 0;
    try { v = s->Value(std::nan("")); } catch (const std::out_of_range&) { refused = true; }
    MC_CHECK(refused || std::isnan(v), "the value at 'not a number' is " << v);
    mc::step();
    mc::outcome(1);
}
}

int main(int argc, char** argv)
{
    mc::describe("the Akima spline against Akima's definition (secant-weighted slopes, cubic Hermite pieces) at knots, inside every interval "
                 "and outside the knots: all values and gaps over small alphabets, lines and bends of every position, all histories of "
                 "trainings, refused trainings and a second spline");
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    mc::Options o;
    mc::add("5 knots", "values over 4 letters, gaps over 3, 3 magnitudes", [=] { shapes(5, { 0, 1, -2, 1e3 }, { 1, 0.5, 4 }); }, o);
    mc::add("6 knots", "values over 3 letters, gaps over 2, 3 magnitudes", [=] { shapes(6, { 0, 1, -2 }, { 1, 3 }); }, o);
    mc::add("7 knots", "values over 3 letters, equidistant, 3 magnitudes", [=] { shapes(7, { 0, 1, 3 }, { 0.5 }); }, o);
    if (t) mc::add("8 knots", "values over 3 letters, gaps over 2, 3 magnitudes", [=] { shapes(8, { 0, 1, -2 }, { 1, 3 }); }, o);
    if (t) mc::add("9 knots", "values over 3 letters, equidistant, 3 magnitudes", [=] { shapes(9, { 0, 1, 3 }, { 0.5 }); }, o);
    int n = t ? 30 : 16;
    mc::add("lines and bends", "5.." + std::to_string(4 + n) + " knots, 4 slopes, every bend", [=] { lines(n); }, o);
    mc::add("larger", "7 sizes of 33-1000 knots, 4 shapes, 3 distributions of knots", larger, o);
    int depth = t ? 5 : 4;
    mc::add("histories", "7 operations, depth " + std::to_string(depth), [=] { history(depth); }, o);
    mc::Options once; once.once = true;
    mc::add("not a number", "one call", undefined_argument, once);
    return mc::run(argc, argv);
}
