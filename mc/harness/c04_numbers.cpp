// C04: comparison of floating-point numbers, conjugation, printed vectors.
#include "mc.h"
#include <k52/common/floating_point.h>
#include <k52/common/helpers.h>
#include <cmath>
#include <cstring>
#include <iostream>
#include <limits>
#include <sstream>

using k52::common::FloatingPoint;
using k52::common::Helpers;
typedef std::complex<double> Complex;

namespace
{
const double kEps = 1e-10;
std::vector<double> numbers()
{
    static const double base[] = { 0, 1e-300, 5e-324, 1e-11, 0.5e-10, 0.99e-10, 1e-10, 1.01e-10, 2e-10, 1e-9, 1e-5, 0.1, 1, 1 + 1e-11, 1 + 0.9e-10, 1 + 1.1e-10,
                                   1 + 1e-9, 123.000000000001, 123.00000000005, 123.0000001, 1e6, 1e6 + 0.5e-10, 1e15, 1e15 + 0.125, 1e300, 1.7e308 };
    std::vector<double> r;
    for (double b : base)
    {
        r.push_back(b);
        r.push_back(-b);
    }
    r.push_back(std::nextafter(1e-10, 0));
    r.push_back(std::nextafter(1e-10, 1));
    r.push_back(std::nextafter(-1e-10, 0));
    r.push_back(std::nan(""));
    return r;
}
bool equal(double x, double y) { return std::fabs(x - y) < kEps; }

void pairs()
{
    static const std::vector<double> n = numbers();
    double x = n[mc::choose(n.size(), "x")], y = n[mc::choose(n.size(), "y")];
    bool r = FloatingPoint::AreEqual(x, y);
    mc::step();
    MC_CHECK(r == equal(x, y), mc::show(x) << " and " << mc::show(y) << " are said to be " << (r ? "equal" : "different"));
    MC_CHECK(r == FloatingPoint::AreEqual(y, x), "the comparison of " << mc::show(x) << " and " << mc::show(y) << " depends on their order");
    MC_CHECK(r == FloatingPoint::AreEqual(-x, -y), "the comparison of " << mc::show(x) << " and " << mc::show(y) << " depends on their sign");
    MC_CHECK(FloatingPoint::IsZero(x) == equal(x, 0), mc::show(x) << " is said " << (equal(x, 0) ? "not " : "") << "to be zero");
    mc::state(mc::hash_double(x, mc::hash_double(y)));
    mc::outcome(mc::mix(r, mc::hash_double(x, mc::hash_double(y))));
}

std::vector<double> vector_of(int max)
{
    static const double menu[] = { 0, 0.6e-10, 1.2e-10, -1 };
    std::vector<double> v(mc::choose(max + 1, "size"));
    for (double& x : v) x = menu[mc::choose(4, "value")];
    return v;
}
void vectors(int max)
{
    std::vector<double> a = vector_of(max), b = vector_of(max), a0 = a, b0 = b;
    bool expected = a.size() == b.size();
    for (size_t i = 0; expected && i < a.size(); ++i) expected = equal(a[i], b[i]);
    bool r = FloatingPoint::AreEqual(a, b);
    mc::step();
    MC_CHECK(r == expected, mc::show(a) << " and " << mc::show(b) << " are said to be " << (r ? "equal" : "different"));
    MC_CHECK(a == a0 && b == b0, "vectors were changed by comparing them");
    mc::state(mc::hash_doubles(a, mc::hash_doubles(b)));
    mc::outcome(mc::mix(r, mc::hash_doubles(a, mc::hash_doubles(b))));
}

void conjugates(int max)
{
    static const double menu[] = { 0, -0.0, 1.5, -1e308, 5e-324 };
    std::vector<Complex> v(mc::choose(max + 1, "size"));
    for (Complex& c : v) c = Complex(menu[mc::choose(5, "real")], menu[mc::choose(5, "imaginary")]);
    std::vector<Complex> v0 = v, r = Helpers::Conjugate(v), back = Helpers::Conjugate(r);
    mc::step(2);
    MC_CHECK(v.empty() || memcmp(&v[0], &v0[0], v.size() * sizeof v[0]) == 0, "a sequence was changed by conjugating it");
    MC_CHECK(r.size() == v.size() && back.size() == v.size(), "a conjugate has " << r.size() << " elements instead of " << v.size());
    uint64_t h = v.size();
    for (size_t i = 0; i < v.size(); ++i)
    {
        MC_CHECK(r[i].real() == v[i].real() && r[i].imag() == -v[i].imag(), "the conjugate of " << v[i] << " at " << i << " is " << r[i]);
        MC_CHECK(back[i] == v[i], "the conjugate of the conjugate of " << v[i] << " at " << i << " is " << back[i]);
        h = mc::hash_double(r[i].real(), mc::hash_double(r[i].imag(), h));
    }
    mc::state(h);
    mc::outcome(h);
}

void printed(int max)
{
    static const double menu[] = { 0, -1.5, 1. / 3, 123456789.123456, 1e-7, -2e300 };
    std::vector<double> v(mc::choose(max + 1, "size"));
    for (double& x : v) x = menu[mc::choose(6, "value")];
    int precision = 1 + 3 * mc::choose(6, "precision");
    std::ostringstream o;
    std::streambuf* old = std::cout.rdbuf(o.rdbuf());
    std::streamsize old_precision = std::cout.precision(precision);
    Helpers::PrintVector(v);
    std::streamsize after = std::cout.precision(old_precision);
    std::cout.rdbuf(old);
    mc::step();
    MC_CHECK(after == precision, "the precision of the output is " << after << " after printing, it was " << precision);
    std::string text = o.str();
    for (char& c : text) if (c == '[' || c == ']' || c == ';') c = ' ';
    std::istringstream in(text);
    std::vector<double> r;
    for (double x; in >> x;) r.push_back(x);
    MC_CHECK(r.size() == v.size(), mc::show(v) << " is printed as " << o.str());
    for (size_t i = 0; i < v.size(); ++i) MC_CHECK(std::fabs(r[i] - v[i]) <= 1e-14 * std::fabs(v[i]), mc::show(v[i]) << " is printed as " << o.str());
    mc::outcome(mc::hash_string(o.str()));
}
}

int main(int argc, char** argv)
{
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    mc::describe("all pairs of numbers from a menu with both sides of the tolerance at several magnitudes, all pairs of short vectors, all short complex sequences");
    mc::add("numbers", "all pairs of 56", pairs);
    mc::add("vectors", std::string("all pairs of up to ") + (t ? "5" : "4") + " numbers of 4", [=] { vectors(t ? 5 : 4); });
    mc::add("conjugates", "all sequences of up to 3 numbers of 25", [=] { conjugates(3); });
    mc::add("printed vectors", std::string("all vectors of up to ") + (t ? "5" : "4") + " numbers of 6, 6 precisions", [=] { printed(t ? 5 : 4); });
    return mc::run(argc, argv);
}
