// D07: wavelet functions, scales and the continuous wavelet transform against
// their definitions.
#include "mc.h"
#include <k52/dsp/cwt.h>
#include <k52/dsp/akima_wavelet_function.h>
#include <k52/dsp/haar_wavelet_function.h>
#include <k52/dsp/mhat_wavelet_function.h>
#include <k52/dsp/morlet_wavelet_function.h>
#include <k52/dsp/transform/wavelet/linear_scale.h>
#include <k52/dsp/transform/wavelet/logarithmic_scale.h>
#include <algorithm>
#include <cmath>
#include <limits>
#include <stdexcept>

using namespace k52::dsp;
typedef std::complex<double> C;
typedef std::vector<double> V;
typedef long double L;

namespace
{
void near(double got, L expected, L tolerance, const std::string& what)
{
    mc::step();
    MC_CHECK(std::fabs(got - expected) <= tolerance, what << " is " << got << ", expected " << (double)expected);
}

void functions(int limit)
{
    int kind = mc::choose(3, "wavelet");
    double t = (mc::choose(2 * limit + 1, "argument") - limit) / 64.;
    int off = mc::choose(3, "offset");
    if (off) t = std::nextafter(t, off == 1 ? 1e9 : -1e9);
    C v;
    std::string what;
    L re = 0, im = 0;
    const L pi = 3.14159265358979323846264338327950288L;
    if (kind == 0)
    {
        HaarWaveletFunction w; v = w.GetValue(t); what = "Haar";
        // -1 on the first half of an interval, 1 on the second: [-1/2, 1/2],
        // and [-1/4, 3/4] for the imaginary part
        re = t < -0.5 || t > 0.5 || t == 0 ? 0 : t < 0 ? -1 : 1;
        im = t < -0.25 || t > 0.75 || t == 0.25 ? 0 : t < 0.25 ? -1 : 1;
    }
    else if (kind == 1)
    {
        MorletWaveletFunction w; v = w.GetValue(t); what = "Morlet";
        re = std::exp(-(L)t * t / 2) * std::cos(5 * (L)t); im = std::exp(-(L)t * t / 2) * std::sin(5 * (L)t);
    }
    else
    {
        MhatWaveletFunction w; v = w.GetValue(t); what = "Mexican hat";
        L k = (L)t / 3;
        re = 2 / std::sqrt((L)9) * std::pow(pi, 0.25L) * (1 - k * k) * std::exp(-k * k / 2);
    }
    near(v.real(), re, 1e-12L, what + " real part at " + mc::show(t));
    near(v.imag(), im, 1e-12L, what + " imaginary part at " + mc::show(t));
    mc::state(mc::mix(kind, mc::hash_double(t)));
    mc::outcome(mc::hash_double((double)re, mc::hash_double((double)im, mc::mix(kind, off))));
}

void scales()
{
    static const double ends[] = { 0.25, 1, 3, 100, 0, -1, 1e300, 1e-300, 5e-324, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN() };
    bool linear = mc::choose(2, "kind");
    if (linear)
    {
        double lo = ends[mc::choose(11, "min")], hi = ends[mc::choose(11, "max")];
        int n = mc::choose(12, "count");
        bool valid = lo > 0 && hi > 0 && lo < hi && hi <= std::numeric_limits<double>::max() && n >= 2, made = true;
        std::vector<double> s;
        try { LinearScale scale(lo, hi, n); s = scale.GetScales(); } catch (const std::invalid_argument&) { made = false; }
        MC_CHECK(made == valid, "linear scale from " << lo << " to " << hi << " with " << n << " values was " << (made ? "created" : "refused"));
        if (made)
        {
            MC_CHECK((int)s.size() == n, "a linear scale of " << n << " has " << s.size());
            for (int i = 0; i < n; ++i) near(s[i], (L)lo + ((L)hi - lo) * i / (n - 1), 1e-12L * hi, "linear scale value " + std::to_string(i));
        }
        mc::outcome(mc::hash_doubles(s, made));
    }
    else
    {
        static const int exponents[] = { -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 30, 31, 32, 33, 62, 63, 64, 65, 1000, -30, -31, -32, -33, -63, -64, -1000 };
        const int n = sizeof exponents / sizeof *exponents;
        int lo = exponents[mc::choose(n, "min")], hi = exponents[mc::choose(n, "max")];
        bool made = true;
        std::vector<double> s;
        try { LogarithmicScale scale(lo, hi); s = scale.GetScales(); } catch (const std::invalid_argument&) { made = false; }
        MC_CHECK(made == (lo < hi), "logarithmic scale from 2^" << lo << " to 2^" << hi << " was " << (made ? "created" : "refused"));
        if (made)
        {
            MC_CHECK((int)s.size() == hi - lo + 1, "a logarithmic scale from 2^" << lo << " to 2^" << hi << " has " << s.size() << " values");
            for (int i = lo; i <= hi; ++i) near(s[i - lo], std::pow((L)2, i), 1e-12L * s[i - lo], "logarithmic scale value " + std::to_string(i - lo));
        }
        mc::outcome(mc::hash_doubles(s, made));
    }
}

// A wavelet made from samples on [-4, 4): the samples at their places, zero
// outside, a value everywhere.
void sampled(const std::vector<int>& sizes)
{
    int n = sizes[mc::choose(sizes.size(), "samples")];
    int bend = mc::choose(3, "data");
    V real(n);
    for (int i = 0; i < n; ++i) real[i] = bend == 0 ? std::sin(0.9 * i + 1) : bend == 1 ? (i % 2) : i - n / 2.;
    AkimaWavelet::shared_ptr w;
    bool made = true;
    try { w = AkimaWavelet::CreateAkimaWavelet(real, real); } catch (const std::invalid_argument&) { made = false; }
    MC_CHECK(made || n < 3, "a wavelet of " << n << " samples was refused");
    MC_CHECK(!made || n >= 3, "a wavelet of " << n << " samples was created");
    if (made)
    {
        for (int i = 0; i < n; ++i)
        {
            C v = w->GetValue(-4 + (8. / n) * i);
            near(v.real(), real[i], 1e-9L, "sample " + std::to_string(i) + " of " + std::to_string(n));
            near(v.imag(), 0, 0, "imaginary part");
        }
        near(w->GetValue(4).real(), 0, 1e-9L, "value at the right end, " + std::to_string(n) + " samples");
        near(w->GetValue(std::nextafter(4., 0)).real(), 0, 1e-9L * (1 + n), "value next to the right end, " + std::to_string(n) + " samples");
        const double outside[] = { std::nextafter(-4., -5), std::nextafter(4., 5), -100, 1e300 };
        for (double at : outside) near(w->GetValue(at).real(), 0, 0, "value at " + mc::show(at));
    }
    mc::state(mc::mix(n, bend));
    mc::outcome(mc::hash_doubles(real, made));
}

class Probe : public IWavelet
{
public:
    explicit Probe(int kind) : kind_(kind) {}
    C GetValue(double t) { return C(std::exp(-0.2 * t * t) * (1 + 0.2 * t + kind_), std::cos(t + kind_) / (1 + t * t)); }
private:
    int kind_;
};

// Row p, column i: modulus of the inner product of the data around p with the
// base function stretched to 1/scale_i of the longest length.
std::vector<V> definition(const V& data, IWavelet& psi, int min, int max, int count, Wavelet::ScaleType type, int step)
{
    std::vector<V> r;
    for (int p = 0; p < (int)data.size(); p += step)
    {
        V row(count);
        for (int i = 0; i < count; ++i)
        {
            L scale = type == Wavelet::Log ? std::pow((L)max / min, (L)i / count) : (L)(i + 1) / count * (max / min);
            L re = 0, im = 0;
            for (int j = 0; j < max; ++j)
            {
                int at = p - max / 2 + j;
                if (at < 0 || at >= (int)data.size()) continue;
                C v = psi.GetValue((double)((j - (L)max / 2) * scale * 4 / (max / 2)));
                re += (L)v.real() * data[at];
                im += (L)v.imag() * data[at];
            }
            row[i] = (double)std::sqrt(re * re + im * im);
        }
        r.push_back(row);
    }
    return r;
}

void compare(const std::vector<V>& got, const std::vector<V>& expected, const std::string& what)
{
    MC_CHECK(got.size() == expected.size(), what << " has " << got.size() << " rows instead of " << expected.size());
    for (size_t i = 0; i < got.size(); ++i)
    {
        MC_CHECK(got[i].size() == expected[i].size(), what << " has " << got[i].size() << " columns instead of " << expected[i].size());
        for (size_t k = 0; k < got[i].size(); ++k)
            near(got[i][k], expected[i][k], 1e-9L * (1 + std::fabs((L)expected[i][k])), what + ", row " + std::to_string(i) + ", column " + std::to_string(k));
    }
}

void cwt(const std::vector<int>& sizes)
{
    static const int mins[] = { 1, 2, 4 };
    int min = mins[mc::choose(3, "shortest")];
    int max = min * (2 << mc::choose(3, "ratio")) + mc::choose(2, "odd");
    int count = 1 + mc::choose(4, "count");
    Wavelet::ScaleType type = mc::choose(2, "type") ? Wavelet::Linear : Wavelet::Log;
    int n = sizes[mc::choose(sizes.size(), "size")], step = 1 + mc::choose(3, "step");
    int kind = mc::choose(3, "data");
    V data(n);
    for (int i = 0; i < n; ++i) data[i] = kind == 0 ? std::cos(2.3 * i + 1) : kind == 1 ? (i == n - 1) : (i == 0 ? -2 : 0);
    IWavelet::shared_ptr psi(new Probe(kind));
    Wavelet::shared_ptr w = Wavelet::BuildWavelet(psi, min, max, count, type);
    std::vector<V> expected = definition(data, *psi, min, max, count, type, step);
    compare(ContiniousWaveletTransformation(data, w, step), expected, "the transform");
    if (step == 1) compare(ContiniousWaveletTransformation(data, w), expected, "the transform with the step that is not given");
    V progress;
    compare(ContiniousWaveletTransformation(data, w, step, [&](double p) { progress.push_back(p); }), expected, "the transform with progress");
    MC_CHECK(progress.size() == expected.size(), progress.size() << " progress reports for " << expected.size() << " rows");
    for (size_t i = 0; i < progress.size(); ++i)
    {
        MC_CHECK(progress[i] >= 0 && progress[i] <= 100, "progress " << progress[i]);
        if (i) MC_CHECK(progress[i] > progress[i - 1], "progress falls from " << progress[i - 1] << " to " << progress[i]);
    }
    uint64_t h = mc::mix(min, max);
    for (size_t i = 0; i < expected.size(); ++i) h = mc::hash_doubles(expected[i], h);
    mc::state(h);
    mc::outcome(h);
}

// A wavelet object that is changed and made again equals a new one; one that is
// changed but not made again stays as it was.
void rebuild(int depth)
{
    int max = 8, min = 2, count = 3, kind = 0;
    Wavelet::ScaleType type = Wavelet::Log;
    IWavelet::shared_ptr psi(new Probe(kind));
    Wavelet::shared_ptr w = Wavelet::BuildWavelet(psi, min, max, count, type);
    V data = { 1, -2, 0.5, 3, 3, 0, -1 };
    uint64_t h = 1;
    for (int i = 0; i < depth; ++i)
    {
        int op = mc::choose(6, "operation");
        h = mc::mix(h, op);
        switch (op)
        {
        case 0: count = count == 3 ? 5 : 3; break;
        case 1: max = max == 8 ? 16 : 8; break;
        case 2: min = min == 2 ? 4 : 2; break;
        case 3: kind++; psi.reset(new Probe(kind)); break;
        case 4: type = type == Wavelet::Log ? Wavelet::Linear : Wavelet::Log; break;
        case 5: break;
        }
        w->count(count); w->max_lenght(max); w->min_lenght(min); w->base_function(psi);
        w->createWavelet(type);
        MC_CHECK(w->count() == count && w->max_lenght() == max && w->min_lenght() == min, "the parameters are not those which were set");
        compare(ContiniousWaveletTransformation(data, w, 1), definition(data, *psi, min, max, count, type, 1), "the transform after this history");
        mc::state(h);
    }
    mc::outcome(h);
}

void unready()
{
    bool refused = false;
    try { Wavelet::BuildWavelet(IWavelet::shared_ptr(), 2, 8, 2); } catch (const char*) { refused = true; } catch (const std::exception&) { refused = true; }
    MC_CHECK(refused, "a wavelet without base function was built");
    mc::step();
    mc::outcome(1);
}
}

int main(int argc, char** argv)
{
    mc::describe("wavelet functions on a grid of arguments and its neighbours, linear and logarithmic scales over all small arguments, wavelets "
                 "made of samples for every number of samples, the continuous transform against its definition over all combinations of "
                 "lengths, counts, scale types, steps and impulses, and all histories of rebuilding a wavelet");
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    mc::Options o;
    int g = t ? 3000 : 800;
    mc::add("functions", std::to_string(2 * g + 1) + " arguments and both neighbours", [=] { functions(g); }, o);
    mc::add("scales", "all small arguments", scales, o);
    int n = t ? 600 : 200;
    mc::add("sampled", "0.." + std::to_string(n) + " samples", [=] {
        std::vector<int> sizes;
        for (int i = 0; i <= n; ++i) sizes.push_back(i);
        sampled(sizes);
    }, o);
    mc::add("sampled, larger", "6 numbers of samples of 64-1000", [=] { sampled({ 64, 65, 100, 128, 255, 1000 }); }, o);
    int c = t ? 12 : 7;
    mc::add("continuous transform", "signals of 0.." + std::to_string(c) + " elements", [=] {
        std::vector<int> sizes;
        for (int i = 0; i <= c; ++i) sizes.push_back(i);
        cwt(sizes);
    }, o);
    mc::add("continuous transform, larger", "4 sizes of 32-300", [=] { cwt({ 32, 64, 101, 300 }); }, o);
    int d = t ? 7 : 5;
    mc::add("rebuilding", "6 operations, depth " + std::to_string(d), [=] { rebuild(d); }, o);
    mc::Options once; once.once = true;
    mc::add("without base function", "one call", unready, once);
    return mc::run(argc, argv);
}
