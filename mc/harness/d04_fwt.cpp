// D04: the fast wavelet transform against its definition, and the invisibility
// of its cache.
#include "mc.h"
#include "dsp_ref.h"
#include <k52/dsp/transform/wavelet/fast_wavelet_transform.h>
#include <k52/dsp/transform/wavelet/linear_scale.h>
#include <k52/dsp/transform/wavelet/logarithmic_scale.h>
#include <k52/dsp/haar_wavelet_function.h>
#include <k52/dsp/mhat_wavelet_function.h>
#include <k52/dsp/morlet_wavelet_function.h>
#include <limits>
#include <stdexcept>

using namespace k52::dsp;
using namespace ref;

namespace
{
// A wavelet without any symmetry.  New objects reuse the memory of deleted
// ones at once, as an allocator may do.
class TestWavelet : public IWavelet
{
public:
    explicit TestWavelet(int kind) : kind_(kind) {}
    C GetValue(double t) { return C(std::exp(-0.1 * t * t) * (1 + 0.3 * t + kind_), std::sin(t + kind_) / (1 + t * t)); }
    static void* operator new(size_t size)
    {
        for (int i = 0; i < 8; ++i) if (!used()[i]) { used()[i] = true; return slots() + i * 64; }
        return ::operator new(size);
    }
    static void operator delete(void* p)
    {
        for (int i = 0; i < 8; ++i) if (p == slots() + i * 64) { used()[i] = false; return; }
        ::operator delete(p);
    }
private:
    static char* slots() { alignas(16) static char s[8 * 64]; return s; }
    static bool* used() { static bool u[8]; return u; }
    int kind_;
};
static_assert(sizeof(TestWavelet) <= 64, "slots are too small");

class ListScale : public IScale
{
public:
    explicit ListScale(const std::vector<double>& s) : scales_(s) {}
    std::vector<double> GetScales() const { return scales_; }
private:
    std::vector<double> scales_;
};

// Sum over m of f[m] conj(psi((m - n) / s)) / sqrt(s), with m - n taken
// modulo N in (-N/2, N/2]; defined for even N.
LSeq definition(const Seq& f, IWavelet& psi, double s)
{
    int N = (int)f.size();
    LSeq r(N);
    for (int n = 0; n < N; ++n)
        for (int m = 0; m < N; ++m)
        {
            int d = m - n;
            while (d <= -N / 2) d += N;
            while (d > N / 2) d -= N;
            C v = psi.GetValue(d / s);
            r[n] += LC(f[m].real(), f[m].imag()) * std::conj(LC(v.real(), v.imag()) / std::sqrt((long double)s));
        }
    return r;
}

IWavelet::shared_ptr wavelet(int kind)
{
    switch (kind)
    {
    case 0: return IWavelet::shared_ptr(new TestWavelet(0));
    case 1: return IWavelet::shared_ptr(new TestWavelet(1));
    case 2: return IWavelet::shared_ptr(new HaarWaveletFunction());
    case 3: return IWavelet::shared_ptr(new MorletWaveletFunction());
    default: return IWavelet::shared_ptr(new MhatWaveletFunction());
    }
}

void definitions(const std::vector<int>& sizes)
{
    int n = sizes[mc::choose(sizes.size(), "size")];
    IWavelet::shared_ptr psi = wavelet(mc::choose(5, "wavelet"));
    IScale::shared_ptr scale;
    switch (mc::choose(3, "scale"))
    {
    case 0: scale.reset(new LinearScale(0.5, 2, 4)); break;
    case 1: scale.reset(new LogarithmicScale(-2, 2)); break;
    default: scale.reset(new ListScale({ 4, 0.25, 1, 1, 8 }));
    }
    int kind = mc::choose(5, "signal");
    Seq f = kind < 2 ? dense(n, kind) : Seq(n);
    if (kind == 2) f[0] = 1;
    if (kind == 3) f[n / 2] = C(0, 2);
    if (kind == 4) f[n <= 32 ? mc::choose(n, "impulse at") : n - 2] = C(1, -1);
    FastWaveletTransform t(scale, n, mc::choose(2, "cached") ? 1 : -1);
    std::vector<double> scales = scale->GetScales();
    std::vector<Seq> got = t.Transform(f, psi);
    MC_CHECK(got.size() == scales.size(), got.size() << " rows for " << scales.size() << " scales");
    uint64_t h = 3;
    for (size_t i = 0; i < scales.size(); ++i)
    {
        LSeq expected = definition(f, *psi, scales[i]);
        compare(got[i], expected, 1e-11L * (1 + norm1(wide(f))) * n * 4, "row " + std::to_string(i) + " (scale " + mc::show(scales[i]) + ") of the transform of " + show(f));
        h = hash(expected, h);
    }
    mc::state(h);
    mc::outcome(h);
}

// Any length: shifting the signal shifts the transform, and it is linear.
void covariance(int limit)
{
    int n = 1 + mc::choose(limit, "size");
    IWavelet::shared_ptr psi = wavelet(mc::choose(5, "wavelet"));
    IScale::shared_ptr scale(new ListScale({ 0.5, 2 }));
    FastWaveletTransform t(scale, n);
    Seq f = dense(n, 1), g(n), e(n), sum(n);
    int by = mc::choose(n, "shift");
    e[mc::choose(n, "impulse at")] = C(0, 1);
    for (int i = 0; i < n; ++i) { g[(i + by) % n] = f[i]; sum[i] = f[i] * 2. + e[i]; }
    std::vector<Seq> a = t.Transform(f, psi), b = t.Transform(g, psi), c = t.Transform(e, psi), d = t.Transform(sum, psi);
    for (size_t k = 0; k < 2; ++k)
    {
        LSeq shifted(n), linear(n);
        for (int i = 0; i < n; ++i)
        {
            shifted[(i + by) % n] = LC(a[k][i].real(), a[k][i].imag());
            linear[i] = LC(a[k][i].real(), a[k][i].imag()) * 2.L + LC(c[k][i].real(), c[k][i].imag());
        }
        compare(b[k], shifted, 1e-11L * n * 10, "the transform of a signal shifted by " + std::to_string(by));
        compare(d[k], linear, 1e-11L * n * 20, "the transform of a linear combination");
        mc::outcome(hash(shifted));
    }
    mc::state(mc::mix(n, by));
}

// The cache is invisible: every operation history on one cached transform gives
// what an uncached one gives.
void cache(int depth)
{
    const int n = 4;
    static const double limits[] = { -1, 10, 0.0003, 0.0001 };
    int which = mc::choose(4, "limit");
    IScale::shared_ptr scale(new ListScale({ 2, 1 }));
    FastWaveletTransform t(scale, n, limits[which]);
    IWavelet::shared_ptr psi[2] = { IWavelet::shared_ptr(new TestWavelet(0)), IWavelet::shared_ptr(new TestWavelet(1)) };
    int renewed = 2;
    uint64_t h = which;
    for (int i = 0; i < depth; ++i)
    {
        int op = mc::choose(8, "operation");
        h = mc::mix(h, op);
        MC_TRACE("operation " << op);
        Seq f = dense(n, op % 2);
        int w = op == 1 || op == 3 || op == 5 ? 1 : 0;
        double s = op == 2 ? 3 * (1 + 1e-9) : op == 3 ? 0.5 : 3;
        try
        {
            switch (op)
            {
            case 0: case 1:
            {
                FastWaveletTransform fresh(scale, n);
                std::vector<Seq> expected = fresh.Transform(f, psi[w]), got = t.Transform(f, psi[w]);
                MC_CHECK(got.size() == expected.size(), "rows");
                for (size_t k = 0; k < got.size(); ++k) compare(got[k], wide(expected[k]), 1e-13L, "row " + std::to_string(k) + " after this history");
                break;
            }
            case 2: case 3: case 4: case 5:
            {
                FastWaveletTransform fresh(scale, n);
                compare(t.TransformOneScale(f, psi[w], s), wide(fresh.TransformOneScale(f, psi[w], s)), 1e-13L, "one scale after this history");
                break;
            }
            case 6: psi[0].reset(); psi[0].reset(new TestWavelet(renewed++)); break;
            case 7:
            {
                bool refused = false;
                try { t.Transform(dense(n + 2, 0), psi[0]); } catch (const std::invalid_argument&) { refused = true; }
                MC_CHECK(refused, "a transform for 4 elements accepted 6");
                refused = false;
                try { t.TransformOneScale(f, psi[0], 0); } catch (const std::invalid_argument&) { refused = true; }
                MC_CHECK(refused, "scale 0 accepted");
                try { refused = false; t.TransformOneScale(f, psi[0], -1); } catch (const std::invalid_argument&) { refused = true; }
                MC_CHECK(refused, "scale -1 accepted");
                try { refused = false; t.TransformOneScale(f, psi[0], std::numeric_limits<double>::quiet_NaN()); } catch (const std::invalid_argument&) { refused = true; }
                MC_CHECK(refused, "a scale that is not a number was accepted");
                break;
            }
            }
        }
        catch (const std::runtime_error& e)
        {
            // a cache which cannot get below its limit says so
            MC_CHECK(which > 1, "the transform failed: " << e.what());
            mc::outcome(mc::mix(h, 99));
            return;
        }
        mc::state(h);
    }
    mc::outcome(h);
}
}

int main(int argc, char** argv)
{
    mc::describe("the fast wavelet transform against its definition for even lengths, shift covariance and linearity for all lengths, and "
                 "every operation history (wavelets, scales, renewed wavelets, refused calls) on a cached transform against a fresh "
                 "uncached one, for several cache limits");
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    mc::Options o;
    int limit = t ? 16 : 9;
    mc::add("definition", "even lengths up to " + std::to_string(2 * limit) + ", 5 wavelets, 3 scales, impulses everywhere and 2 dense signals", [=] {
        std::vector<int> sizes;
        for (int i = 1; i <= limit; ++i) sizes.push_back(2 * i);
        definitions(sizes);
    }, o);
    mc::add("larger", "6 even lengths of 34-400, 5 wavelets, 3 scales, 5 signals", [=] { definitions({ 34, 64, 66, 128, 256, 400 }); }, o);
    int c = t ? 14 : 9;
    mc::add("covariance", "lengths 1.." + std::to_string(c) + ", every shift and impulse", [=] { covariance(c); }, o);
    int depth = t ? 6 : 5;
    mc::add("cache", "8 operations, depth " + std::to_string(depth) + ", 4 cache limits", [=] { cache(depth); }, o);
    return mc::run(argc, argv);
}
