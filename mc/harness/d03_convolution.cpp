// D03: circular convolutions against the definition.
#include "mc.h"
#include "dsp_ref.h"
#include <k52/dsp/transform/circular_convolution.h>
#include <k52/dsp/transform/fourier_based_circular_convolution.h>
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <boost/make_shared.hpp>
#include <stdexcept>

using namespace k52::dsp;
using namespace ref;

namespace
{
ICircularConvolution::shared_ptr make(int implementation, int n)
{
    if (implementation == 0) return boost::make_shared<CircularConvolution>();
    IFourierTransform::shared_ptr f;
    if (implementation == 1) f = boost::make_shared<FourierTransform>(); else f = boost::make_shared<FastFourierTransform>(n);
    return boost::make_shared<FourierBasedCircularConvolution>(f);
}
const char* kName[] = { "direct convolution", "convolution over the direct transform", "convolution over the fast transform" };

void check(const ICircularConvolution& c, const Seq& a, const Seq& b, const std::string& what)
{
    LSeq expected = convolution(wide(a), wide(b));
    Seq ca = a, cb = b;
    Seq got = c.EvaluateConvolution(ca, cb);
    MC_CHECK(ca == a && cb == b, what << " changed its arguments");
    MC_TRACE(what << " of " << show(a) << " and " << show(b) << " is " << show(got));
    compare(got, expected, 1e-11L * norm1(wide(a)) * norm1(wide(b)), what + " of " + show(a) + " and " + show(b));
    mc::state(hash(expected));
}

void one(const Seq& a, const Seq& b)
{
    int implementation = mc::choose(3, "implementation");
    check(*make(implementation, (int)a.size()), a, b, kName[implementation]);
    mc::outcome(hash(wide(a), hash(wide(b))));
}

void impulses(int limit)
{
    int n = 1 + mc::choose(limit, "size");
    Seq a(n), b(n);
    static const C heights[] = { C(1, 0), C(0, 2), C(-1e6, 1e6) };
    a[mc::choose(n, "first impulse")] = heights[mc::choose(3, "height")];
    b[mc::choose(n, "second impulse")] = heights[mc::choose(2, "height")];
    one(a, b);
}

void history(int depth)
{
    int implementation = mc::choose(3, "implementation");
    const int n = 3;
    ICircularConvolution::shared_ptr c = make(implementation, n), other;
    uint64_t h = implementation;
    for (int i = 0; i < depth; ++i)
    {
        int op = mc::choose(7, "operation");
        h = mc::mix(h, op);
        switch (op)
        {
        case 0: case 1: check(*c, dense(n, op), dense(n, op + 1), kName[implementation]); break;
        case 2: { Seq same = dense(n, 2); check(*c, same, same, kName[implementation]); break; }
        case 3: check(*c, dense(n, 0), Seq(n), kName[implementation]); break;
        case 4: case 5:
        {
            bool refused = false;
            try { c->EvaluateConvolution(dense(op == 4 ? n : n + 1, 0), dense(op == 4 ? n - 1 : n, 0)); }
            catch (const std::runtime_error&) { refused = true; }
            MC_CHECK(refused, kName[implementation] << " accepted sequences of different sizes");
            break;
        }
        case 6: other = make(implementation, n + 1); check(*other, dense(n + 1, 1), dense(n + 1, 0), kName[implementation]); break;
        }
        mc::state(h);
    }
    check(*c, dense(n, 4), dense(n, 1), kName[implementation]);
    mc::outcome(h);
}
}

int main(int argc, char** argv)
{
    mc::describe("three implementations of the circular convolution against the definition: all pairs of impulses up to a size (a bilinear "
                 "map is determined by them), all pairs of vectors over an alphabet up to a length, dense pairs of every size, and all "
                 "operation histories up to a depth");
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    mc::Options o;
    int limit = t ? 24 : 13;
    mc::add("impulses", "sizes 1.." + std::to_string(limit) + ", every pair of positions", [=] { impulses(limit); }, o);
    int sz = t ? 130 : 70;
    mc::add("dense", "sizes 1.." + std::to_string(sz) + ", 4 pairs", [=] {
        int n = 1 + mc::choose(sz, "size"); int k = mc::choose(4, "data"); one(dense(n, k), dense(n, (k * 2 + 1) % 5)); }, o);
    for (int n = 1; n <= (t ? 4 : 3); ++n)
        mc::add("all pairs of " + std::to_string(n), "pairs of vectors over 5 letters", [=] {
            const std::vector<C> letters = { C(0, 0), C(1, 0), C(-2, 0), C(0, 1), C(0.5, -0.25) };
            Seq a = any(n, letters); Seq b = any(n, letters); one(a, b); }, o);
    int depth = t ? 5 : 4;
    mc::add("histories", "7 operations, depth " + std::to_string(depth), [=] { history(depth); }, o);
    mc::add("larger", "7 sizes of 127-1024, 3 pairs", [=] {
        static const int sizes[] = { 127, 128, 129, 255, 257, 500, 1024 };
        int n = sizes[mc::choose(7, "size")], k = mc::choose(3, "data");
        one(dense(n, k), dense(n, (k * 2 + 1) % 5));
    }, o);
    return mc::run(argc, argv);
}
