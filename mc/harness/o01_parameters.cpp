// O01: discrete parameters, their bounds and their chromosomes.
#include "mc.h"
#include "params_util.h"
#include <k52/optimization/params/int_parameter.h>
#include <k52/optimization/params/double_parameter.h>
#include <k52/optimization/params/double_parameters_array.h>
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <cmath>
#include <limits>
#include <set>

using namespace k52::optimization;
using namespace util;

namespace
{
template <class F> bool refused(F f)
{
    try { f(); } catch (const std::invalid_argument&) { return true; }
    return false;
}

// The object writes its representation into the middle of a larger chromosome
// and touches nothing else; another size is refused.
void embedded(IDiscreteParameters& p)
{
    size_t n = p.GetChromosomeSize();
    ChromosomeType plain = encode(p);
    for (int fill = 0; fill < 2; ++fill)
    {
        ChromosomeType big(n + 5, fill);
        p.SetChromosome(big.begin() + 3, big.begin() + 3 + n);
        for (size_t i = 0; i < big.size(); ++i)
        {
            bool inside = i >= 3 && i < 3 + n;
            MC_CHECK(big[i] == (inside ? bool(plain[i - 3]) : bool(fill)),
                     "writing " << mc::show(plain) << " at offset 3 of a chromosome made " << mc::show(big));
        }
        p.SetFromChromosome(big.begin() + 3, big.begin() + 3 + n);
        MC_CHECK(encode(p) == plain, "the representation " << mc::show(plain) << " read at offset 3 became " << mc::show(encode(p)));
    }
    ChromosomeType longer(n + 1, true);
    MC_CHECK(refused([&] { p.SetFromChromosome(longer.begin(), longer.end()); }), "a chromosome of " << n + 1 << " genes was read by parameters of " << n);
    MC_CHECK(refused([&] { p.SetChromosome(longer.begin(), longer.end()); }), "a chromosome of " << n + 1 << " genes was written by parameters of " << n);
    if (n)
    {
        ChromosomeType shorter(n - 1, true);
        MC_CHECK(refused([&] { p.SetFromChromosome(shorter.begin(), shorter.end()); }), "a chromosome of " << n - 1 << " genes was read by parameters of " << n);
    }
    MC_CHECK(encode(p) == plain, "a refused chromosome changed the parameters");
}

void check_int_value(int v, int min, int max, size_t bits)
{
    IntParameter p(v, min, max);
    MC_CHECK(p.GetChromosomeSize() == bits, "sizes differ for [" << min << ", " << max << "]");
    MC_CHECK(p.get_value() == v && p.get_min_value() == min && p.get_max_value() == max, "IntParameter(" << v << ", " << min << ", " << max << ") does not return them");
    MC_CHECK(p.CheckConstraints(), v << " in [" << min << ", " << max << "] does not satisfy the constraints");
    IntParameter q(min, max);
    MC_CHECK(q.get_value() == min, "the initial value of [" << min << ", " << max << "] is " << q.get_value());
    decode(q, encode(p));
    MC_CHECK(q.get_value() == v, v << " in [" << min << ", " << max << "] becomes " << q.get_value() << " through its chromosome " << mc::show(encode(p)));
    q.set_value(min);
    q.set_value(v);
    MC_CHECK(q.get_value() == v && q.CheckConstraints(), "set_value(" << v << ")");
    mc::step();
}

void int_small(int limit)
{
    static const int mins[] = { 0, 1, -1, -7, 100, -1000000, std::numeric_limits<int>::min(), std::numeric_limits<int>::max() - 80 };
    int min = mins[mc::choose(8, "minimum")];
    int range = mc::choose(limit + 1, "range");
    int max = min + range;
    IntParameter p(min, max);
    size_t bits = p.GetChromosomeSize();
    MC_TRACE("[" << min << ", " << max << "]: " << bits << " genes");
    MC_CHECK(bits < 31 && (1LL << bits) > range, "[" << min << ", " << max << "] has " << range + 1LL << " values but a chromosome of " << bits << " genes");
    MC_CHECK(bits == 0 || (1LL << (bits - 1)) <= range, "[" << min << ", " << max << "] has a chromosome of " << bits << " genes, fewer would do");
    for (int i = 0; i <= range; ++i) check_int_value(min + i, min, max, bits);
    std::set<long long> seen;
    for (unsigned c = 0; c < (1u << bits); ++c)
    {
        if ((long long) min + c > std::numeric_limits<int>::max()) continue;
        decode(p, code(c, bits));
        int v = p.get_value();
        MC_CHECK(p.CheckConstraints() == (v >= min && v <= max), "CheckConstraints() of " << v << " in [" << min << ", " << max << "] is " << p.CheckConstraints());
        MC_CHECK(encode(p) == code(c, bits), "the chromosome " << mc::show(code(c, bits)) << " is read as " << v << " and written as " << mc::show(encode(p)));
        MC_CHECK(seen.insert(v).second, "two chromosomes mean " << v);
        mc::step();
    }
    if (min > std::numeric_limits<int>::min())
    {
        p.set_value(min - 1);
        MC_CHECK(!p.CheckConstraints(), min - 1 << " satisfies the constraints of [" << min << ", " << max << "]");
    }
    p.set_value(max); MC_CHECK(p.CheckConstraints(), "the maximum does not satisfy the constraints");
    if (max < std::numeric_limits<int>::max())
    {
        p.set_value(max + 1);
        MC_CHECK(!p.CheckConstraints(), max + 1 << " satisfies the constraints of [" << min << ", " << max << "]");
    }
    p.set_value(max);
    embedded(p);
    mc::state(mc::mix(min, range));
    mc::outcome(mc::mix(bits, mc::mix(min, range)));
}

void int_large()
{
    int power = 6 + mc::choose(25, "power"); // 2^6 .. 2^30
    long long range = (1LL << power) - 1 + mc::choose(3, "offset");
    int max = mc::choose(2, "placement") ? std::numeric_limits<int>::max() : (int) (range / 2);
    int min = (int) (max - range);
    IntParameter p(min, max);
    size_t bits = p.GetChromosomeSize();
    MC_TRACE("[" << min << ", " << max << "]: " << bits << " genes");
    MC_CHECK((1LL << bits) > range && (1LL << (bits - 1)) <= range, "[" << min << ", " << max << "] has " << range + 1 << " values but a chromosome of " << bits << " genes");
    std::set<long long> offsets;
    for (int b = 0; b <= power; ++b) for (int d = -1; d <= 1; ++d)
    {
        long long a[] = { (1LL << b) + d, range - (1LL << b) + d, range + d };
        for (long long o : a) if (o >= 0 && o <= range) offsets.insert(o);
    }
    for (long long o : offsets) check_int_value((int) (min + o), min, max, bits);
    embedded(p);
    mc::state(mc::mix(range, max));
    mc::outcome(mc::mix(range, max));
}

struct Shape { double min, max, precision; };
Shape choose_shape(int steps)
{
    static const double mins[] = { 0, -1, 0.1, -7.3, 1e6 };
    static const double widths[] = { 1, 0.3, 10, 1e-3, 12345.678 };
    Shape s;
    s.min = mins[mc::choose(5, "minimum")];
    double width = widths[mc::choose(5, "width")];
    s.max = s.min + width;
    int k = 1 + mc::choose(steps, "steps");
    int kind = mc::choose(3, "fraction");
    s.precision = (s.max - s.min) / (kind == 0 ? k : kind == 1 ? k - 0.5 : k + 0.25);
    return s;
}

bool near_to(double a, double b, const Shape& s) { return std::abs(a - b) <= 1e-9 * (s.max - s.min) + 1e-15 * std::abs(s.min); }

void double_one(int steps)
{
    Shape s = choose_shape(steps);
    std::unique_ptr<DoubleParameter> pp;
    pp.reset(new DoubleParameter(s.min, s.min, s.max, s.precision));
    DoubleParameter& p = *pp;
    size_t bits = p.GetChromosomeSize();
    double precision = p.get_actual_precision();
    MC_TRACE("[" << s.min << ", " << s.max << "] with " << s.precision << ": " << bits << " genes, precision " << precision);
    MC_CHECK(p.get_min_value() == s.min && p.get_max_value() == s.max, "bounds are not those given");
    MC_CHECK(precision > 0 && precision <= s.precision * (1 + 1e-9) + 1e-15, "precision " << precision << " instead of " << s.precision);
    MC_CHECK(p.GetValue() == s.min, "the initial value is " << p.GetValue() << " instead of " << s.min);
    double last = 0;
    DoubleParameter q(s.min, s.min, s.max, s.precision);
    for (unsigned c = 0; c < (1u << bits); ++c)
    {
        decode(p, code(c, bits));
        double v = p.GetValue();
        MC_CHECK(p.CheckConstraints(), "the chromosome " << mc::show(code(c, bits)) << " (" << v << ") does not satisfy [" << s.min << ", " << s.max << "]");
        MC_CHECK(v >= s.min && v <= s.max, "the chromosome " << mc::show(code(c, bits)) << " is read as " << v << " outside of [" << s.min << ", " << s.max << "]");
        MC_CHECK(c == 0 || v > last, "values do not grow with their codes: " << last << ", " << v);
        MC_CHECK(c == 0 || std::abs(v - last) <= precision * (1 + 1e-6) + 1e-15 * std::abs(s.min), "consecutive values differ by " << v - last << ", precision is " << precision);
        MC_CHECK(encode(p) == code(c, bits), "the chromosome " << mc::show(code(c, bits)) << " is written back as " << mc::show(encode(p)));
        q.SetValue(v);
        MC_CHECK(q.GetValue() == v && encode(q) == code(c, bits), "setting the value " << v << " of the chromosome " << mc::show(code(c, bits))
                 << " gives " << q.GetValue() << ", " << mc::show(encode(q)));
        last = v;
        mc::step();
    }
    MC_CHECK(last == s.max || near_to(last, s.max, s), "the greatest value that a chromosome can represent is " << last << ", not " << s.max);
    for (int i = 0; i <= 64; ++i)
    {
        double v = i == 64 ? s.max : s.min + (s.max - s.min) * i / 64;
        if (v > s.max) v = s.max;
        DoubleParameter r(v, s.min, s.max, s.precision);
        double bound = precision * (1 + 1e-6) + 1e-15 * std::abs(s.min);
        MC_CHECK(std::abs(r.GetValue() - v) <= bound, "constructed with " << v << " but has " << r.GetValue() << ", precision " << precision);
        MC_CHECK(r.CheckConstraints(), v << " in [" << s.min << ", " << s.max << "] does not satisfy the constraints");
        q.SetValue(v);
        MC_CHECK(q.GetValue() == r.GetValue() && q.CheckConstraints(), "setting " << v << " gives " << q.GetValue() << ", constructing with it " << r.GetValue());
        decode(p, encode(r));
        MC_CHECK(std::abs(p.GetValue() - v) <= bound, v << " in [" << s.min << ", " << s.max << "] becomes " << p.GetValue() << " through its chromosome, precision " << precision);
        mc::step();
    }
    q.SetValue(s.max + 1.01 * precision + 1e-9 * std::abs(s.max));
    MC_CHECK(!q.CheckConstraints(), "more than the maximum satisfies the constraints");
    q.SetValue(s.min - 1.01 * precision - 1e-9 * std::abs(s.min));
    MC_CHECK(!q.CheckConstraints(), "less than the minimum satisfies the constraints");
    q.SetValue(s.max);
    embedded(q);
    // refused definitions
    MC_CHECK(refused([&] { DoubleParameter x(s.max + 0.1, s.min, s.max, s.precision); }), "a value above the maximum was accepted on construction");
    MC_CHECK(refused([&] { DoubleParameter x(s.min - 0.1, s.min, s.max, s.precision); }), "a value below the minimum was accepted on construction");
    MC_CHECK(refused([&] { DoubleParameter x(s.min, s.min, s.min, s.precision); }), "an empty interval was accepted");
    MC_CHECK(refused([&] { DoubleParameter x(s.min, s.max, s.min, s.precision); }), "a reversed interval was accepted");
    MC_CHECK(refused([&] { DoubleParameter x(s.min, s.min, s.max, -s.precision); }), "a negative precision was accepted");
    mc::state(mc::mix(mc::hash_double(s.min), mc::hash_double(precision)));
    mc::outcome(mc::mix(bits, mc::hash_double(precision)));
}

void array_one(int steps)
{
    Shape s = choose_shape(steps);
    size_t n = 1 + mc::choose(3, "parameters");
    DoubleParametersArray a(s.min, s.max, s.precision, n), b(s.min, s.max, s.precision, n);
    DoubleParameter sample(s.min, s.min, s.max, s.precision);
    size_t each = sample.GetChromosomeSize(), bits = a.GetChromosomeSize();
    double precision = a.get_actual_precision();
    MC_TRACE("[" << s.min << ", " << s.max << "] with " << s.precision << ", " << n << " parameters");
    MC_CHECK(bits == each * n, bits << " genes for " << n << " parameters of " << each);
    MC_CHECK(a.get_number_of_parameters() == n && a.get_min_value() == s.min && a.get_max_value() == s.max && precision == sample.get_actual_precision(), "accessors");
    unsigned step = bits <= 10 ? 1 : (1u << bits) / 509;
    if (bits > 20) step = 0;
    for (unsigned c = 0; step && c < (1u << bits); c += step)
    {
        ChromosomeType chromosome = code(c, bits);
        decode(a, chromosome);
        std::vector<double> v = a.get_values();
        for (size_t i = 0; i < n; ++i)
        {
            ChromosomeType part(chromosome.begin() + i * each, chromosome.begin() + (i + 1) * each);
            decode(sample, part);
            MC_CHECK(v[i] == sample.GetValue(), "parameter " << i << " of " << mc::show(chromosome) << " is " << v[i] << " instead of " << sample.GetValue());
        }
        MC_CHECK(a.CheckConstraints(), "the values " << mc::show(v) << " of a chromosome do not satisfy the constraints");
        MC_CHECK(encode(a) == chromosome, "the chromosome " << mc::show(chromosome) << " is written back as " << mc::show(encode(a)));
        b.SetValues(v);
        MC_CHECK(b.get_values() == v && encode(b) == chromosome, "values " << mc::show(v) << " of a chromosome are written as another one");
        mc::step();
    }
    // accepted and refused values
    std::vector<double> good(n), before;
    for (size_t i = 0; i < n; ++i) good[i] = i % 2 ? s.max : s.min + (s.max - s.min) * (i + 1) / 5;
    b.SetValues(good);
    MC_CHECK(b.get_values() == good, "get_values() does not return the values set");
    MC_CHECK(b.CheckConstraints(), mc::show(good) << " does not satisfy the constraints");
    decode(a, encode(b));
    for (size_t i = 0; i < n; ++i)
        MC_CHECK(std::abs(a.get_values()[i] - good[i]) <= precision * (1 + 1e-6) + 1e-15 * std::abs(s.min), good[i] << " becomes " << a.get_values()[i] << " through the chromosome");
    embedded(a);
    for (size_t i = 0; i < n; ++i) for (int k = 0; k < 6; ++k)
    {
        double far = 2 * precision, near = precision * 0.3;
        double bad[] = { s.min - far, s.max + far, s.min - near, s.max + near, -1e300, 1e300 };
        std::vector<double> v = good;
        v[i] = bad[k];
        MC_CHECK(refused([&] { b.SetValues(v); }), "values " << mc::show(v) << " are accepted for [" << s.min << ", " << s.max << "]");
        MC_CHECK(b.get_values() == good && b.CheckConstraints(), "refused values " << mc::show(v) << " were stored");
        mc::step();
    }
    MC_CHECK(refused([&] { b.SetValues(std::vector<double>(n + 1, s.min)); }), "too many values were accepted");
    MC_CHECK(refused([&] { b.SetValues(std::vector<double>(n - 1, s.min)); }), "too few values were accepted");
    MC_CHECK(b.get_values() == good, "refused values were stored");
    b.SetValues(std::vector<double>(n, s.min));
    b.SetValues(std::vector<double>(n, s.max));
    mc::state(mc::mix(n, mc::hash_double(s.precision)));
    mc::outcome(mc::mix(bits, mc::hash_double(precision)));
}

// --- composites ------------------------------------------------------------

typedef IDiscreteParameters::shared_ptr Part;
Part make_part(int kind)
{
    switch (kind)
    {
    case 0: return Part(new IntParameter(2, 0, 4));            // 3 genes, 5 of 8 codes valid
    case 1: return Part(new IntParameter(-1, -1, 0));          // 1 gene
    case 2: return Part(new DoubleParameter(0.5, 0, 1, 0.4));
    case 3: return Part(new IntParameter(7, 7, 7));            // no gene
    case 4: return Part(new DoubleParametersArray(0, 1, 1, 2));
    default:
    {
        CompositeDiscreteParameters* c = new CompositeDiscreteParameters();
        std::vector<Part> parts;
        parts.push_back(make_part(1));
        parts.push_back(make_part(0));
        c->Initialize(parts);
        return Part(c);
    }
    }
}

void composite(int max_parts)
{
    size_t n = mc::choose(max_parts + 1, "parts");
    std::vector<Part> parts, reference;
    for (size_t i = 0; i < n; ++i)
    {
        int kind = mc::choose(6, "part");
        parts.push_back(make_part(kind));
        reference.push_back(make_part(kind));
    }
    CompositeDiscreteParameters c;
    bool same = n > 0;
    c.Initialize(parts);
    size_t bits = 0;
    for (size_t i = 0; i < n; ++i) bits += reference[i]->GetChromosomeSize();
    MC_CHECK(c.GetNumberOfParameters() == n && c.GetChromosomeSize() == bits, "a composite of " << n << " parts has " << c.GetChromosomeSize() << " genes instead of " << bits);
    ChromosomeType initial;
    for (size_t i = 0; i < n; ++i) { ChromosomeType p = encode(*reference[i]); initial.insert(initial.end(), p.begin(), p.end()); }
    MC_CHECK(encode(c) == initial, "the chromosome of a composite is not that of its parts");
    unsigned step = bits <= 9 ? 1 : (1u << bits) / 251;
    for (unsigned x = 0; x < (1u << bits); x += step)
    {
        ChromosomeType chromosome = code(x, bits);
        decode(c, chromosome);
        bool valid = true;
        size_t at = 0;
        for (size_t i = 0; i < n; ++i)
        {
            size_t size = reference[i]->GetChromosomeSize();
            ChromosomeType part(chromosome.begin() + at, chromosome.begin() + at + size);
            decode(*reference[i], part);
            valid = valid && reference[i]->CheckConstraints();
            MC_CHECK(encode(*c.GetParameter(i)) == part, "part " << i << " of " << mc::show(chromosome) << " is " << mc::show(encode(*c.GetParameter(i))));
            MC_CHECK(c.GetParameter(i)->CheckConstraints() == reference[i]->CheckConstraints(), "constraints of part " << i);
            at += size;
        }
        MC_CHECK(c.CheckConstraints() == valid, "CheckConstraints() of " << mc::show(chromosome) << " is " << c.CheckConstraints());
        MC_CHECK(encode(c) == chromosome, "the chromosome " << mc::show(chromosome) << " is written back as " << mc::show(encode(c)));
        mc::step();
    }
    embedded(c);
    bool out = false;
    try { c.GetParameter(n); } catch (const std::out_of_range&) { out = true; }
    MC_CHECK(out, "part " << n << " of " << n << " was returned");
    // the second way of initialization
    if (same && n > 0)
    {
        CompositeDiscreteParameters d;
        d.Initialize(parts[0], n);
        MC_CHECK(d.GetNumberOfParameters() == n && d.GetChromosomeSize() == n * parts[0]->GetChromosomeSize(), "a composite of " << n << " equal parts");
        ChromosomeType one = encode(*parts[0]), all;
        for (size_t i = 0; i < n; ++i) all.insert(all.end(), one.begin(), one.end());
        MC_CHECK(encode(d) == all, "the chromosome of a composite of equal parts");
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j)
            MC_CHECK(d.GetParameter(i) != d.GetParameter(j) && d.GetParameter(i) != parts[0], "parts of a composite are shared");
    }
    mc::state(mc::mix(n, bits));
    mc::outcome(mc::mix(n, bits));
}

// many parts, long chromosomes
void large_composite()
{
    static const int counts[] = { 5, 17, 40, 100 };
    size_t n = counts[mc::choose(4, "parts")];
    int shift = mc::choose(6, "order of the kinds"), which = mc::choose(mc::thorough() ? 200 : 40, "chromosome");
    std::vector<Part> parts, reference;
    size_t bits = 0;
    for (size_t i = 0; i < n; ++i)
    {
        parts.push_back(make_part((i * (shift / 3 + 1) + shift) % 6));
        reference.push_back(make_part((i * (shift / 3 + 1) + shift) % 6));
        bits += reference[i]->GetChromosomeSize();
    }
    CompositeDiscreteParameters c;
    c.Initialize(parts);
    MC_CHECK(c.GetNumberOfParameters() == n && c.GetChromosomeSize() == bits, "a composite of " << n << " parts has " << c.GetChromosomeSize() << " genes instead of " << bits);
    ChromosomeType chromosome(bits);
    for (size_t i = 0; i < bits; ++i) chromosome[i] = which == 0 ? false : which == 1 ? true : which % 2 ? mc::mix(which, i) % 2 : mc::mix(which, i) % 7 == 0;
    decode(c, chromosome);
    mc::step();
    bool valid = true;
    size_t at = 0;
    for (size_t i = 0; i < n; ++i)
    {
        size_t size = reference[i]->GetChromosomeSize();
        ChromosomeType part(chromosome.begin() + at, chromosome.begin() + at + size);
        decode(*reference[i], part);
        valid = valid && reference[i]->CheckConstraints();
        MC_CHECK(encode(*c.GetParameter(i)) == part, "part " << i << " of " << n << " is " << mc::show(encode(*c.GetParameter(i))) << " instead of " << mc::show(part));
        at += size;
    }
    MC_CHECK(c.CheckConstraints() == valid, "CheckConstraints() of " << n << " parts is " << c.CheckConstraints());
    MC_CHECK(encode(c) == chromosome, "a chromosome of " << bits << " genes is written back as another one");
    mc::outcome(mc::mix(mc::mix(n, which), shift));
}

// arrays of many values
void large_array()
{
    static const int counts[] = { 7, 20, 65, 200 };
    static const double precisions[] = { 0.3, 0.01, 1e-3, 1e-6 };
    size_t n = counts[mc::choose(4, "values")];
    double precision = precisions[mc::choose(4, "precision")];
    double low = mc::choose(2, "minimum") ? -2.5 : 0, high = low + 4;
    DoubleParametersArray a(low, high, precision, n);
    std::vector<double> v(n);
    int which = mc::choose(12, "values");
    for (size_t i = 0; i < n; ++i) v[i] = which == 0 ? low : which == 1 ? high : low + (high - low) * (mc::mix(which, i) % 1001) / 1000.;
    a.SetValues(v);
    mc::step();
    MC_CHECK(a.CheckConstraints(), "values in range do not satisfy the constraints");
    std::vector<double> got = a.get_values();
    MC_CHECK(got.size() == n, n << " values became " << got.size());
    ChromosomeType chromosome = encode(a);
    MC_CHECK(chromosome.size() == a.GetChromosomeSize() && chromosome.size() % n == 0, "a chromosome of " << chromosome.size() << " genes of " << n << " values");
    DoubleParametersArray b(low, high, precision, n);
    decode(b, chromosome);
    std::vector<double> back = b.get_values();
    size_t size = chromosome.size() / n;
    for (size_t i = 0; i < n; ++i)
    {
        MC_CHECK(std::fabs(back[i] - v[i]) <= precision * (1 + 1e-9), "value " << i << " of " << n << " is " << back[i] << " instead of " << v[i] << " with precision " << precision);
        // a value's genes are those the value has on its own
        DoubleParametersArray one(low, high, precision, 1);
        one.SetValues(std::vector<double>(1, v[i]));
        MC_CHECK(encode(one) == ChromosomeType(chromosome.begin() + i * size, chromosome.begin() + (i + 1) * size), "the genes of value " << i << " of " << n);
    }
    MC_CHECK(encode(b) == chromosome, "a chromosome of " << chromosome.size() << " genes is written back as another one");
    mc::outcome(mc::mix(mc::hash_doubles(back), n));
}
}

int main(int argc, char** argv)
{
    mc::describe("all bounds and values of the stated grids for integer, real, array and composite parameters; all chromosomes of up to 10 genes "
                 "(every 1/500 of longer ones)");
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    mc::Options o;
    int limit = t ? 70 : 66;
    mc::add("integers", "8 minima, ranges 0.." + std::to_string(limit) + ", every value and code", [=] { int_small(limit); }, o);
    mc::add("wide integers", "2^6-1 .. 2^30+1, 2 placements, values around all powers of 2 from both ends", int_large, o);
    int steps = t ? 140 : 40;
    mc::add("reals", "5 minima, 5 widths, " + std::to_string(steps) + " x 3 precisions, every code, 65 values", [=] { double_one(steps); }, o);
    int asteps = t ? 20 : 9;
    mc::add("arrays", "5 minima, 5 widths, " + std::to_string(asteps) + " x 3 precisions, 1-3 parameters", [=] { array_one(asteps); }, o);
    int parts = t ? 4 : 3;
    mc::add("composites", "0.." + std::to_string(parts) + " parts of 6 kinds, nested", [=] { composite(parts); }, o);
    mc::add("many parts", "5-100 parts, 6 orders of kinds, 40 (thorough: 200) chromosomes", large_composite, o);
    mc::add("large arrays", "7-200 values, 4 precisions, 2 minima, 12 vectors", large_array, o);
    return mc::run(argc, argv);
}
