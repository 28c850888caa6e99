// D01: direct and fast Fourier transform against the definition.
#include "mc.h"
#include "dsp_ref.h"
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <boost/make_shared.hpp>
#include <stdexcept>

using namespace k52::dsp;
using namespace ref;

namespace
{
IFourierTransform::shared_ptr make(int implementation, int n)
{
    if (implementation == 0) return boost::make_shared<FourierTransform>();
    return boost::make_shared<FastFourierTransform>(n);
}
const char* kName[] = { "FourierTransform", "FastFourierTransform" };

void check(const IFourierTransform& t, const Seq& x, const std::string& what)
{
    Seq copy = x;
    LSeq expected = dft(wide(x));
    Seq got = t.Transform(copy);
    MC_TRACE(what << " of " << show(x) << " is " << show(got));
    compare(got, expected, 1e-11L * norm1(wide(x)), what + " of " + show(x));
    MC_CHECK(copy == x, what << " changed its argument");
    mc::state(hash(expected));
}

void impulses(int limit)
{
    int implementation = mc::choose(2, "implementation");
    int n = 1 + mc::choose(limit, "size");
    Seq x = impulse(n);
    check(*make(implementation, n), x, kName[implementation]);
    mc::outcome(hash(wide(x)));
}

void small(int n)
{
    static const std::vector<C> alphabet = { C(0, 0), C(1, 0), C(-2, 0), C(0, 1), C(0.5, -0.25) };
    int implementation = mc::choose(2, "implementation");
    Seq x = any(n, alphabet);
    check(*make(implementation, n), x, kName[implementation]);
    mc::outcome(hash(wide(x)));
}

// Objects keep no history: any sequence of transforms, wrong calls, and life
// and death of other transforms.
void history(int depth)
{
    const int n1 = 4, n2 = 3 + mc::choose(3, "second size"); // 3, 4, 5
    boost::shared_ptr<FastFourierTransform> a(new FastFourierTransform(n1)), b;
    FourierTransform direct;
    uint64_t h = n2;
    for (int i = 0; i < depth; ++i)
    {
        int op = mc::choose(9, "operation");
        h = mc::mix(h, op);
        switch (op)
        {
        case 0: case 1: case 2:
        {
            Seq x = dense(n1, op);
            if (op == 2) x = Seq(n1);
            check(*a, x, "first FastFourierTransform");
            break;
        }
        case 3:
            if (b) check(*b, dense(n2, 3), "second FastFourierTransform"); else check(*a, dense(n1, 3), "first FastFourierTransform");
            break;
        case 4: b.reset(new FastFourierTransform(n2)); break;
        case 5: b.reset(); break;
        case 6: case 7:
        {
            bool refused = false;
            try { a->Transform(dense(op == 6 ? n1 - 1 : n1 + 1, 0)); } catch (const std::invalid_argument&) { refused = true; }
            MC_CHECK(refused, "a transform for " << n1 << " elements accepted " << (op == 6 ? n1 - 1 : n1 + 1));
            break;
        }
        case 8: check(direct, dense(n2, 1), "FourierTransform"); break;
        }
        mc::state(h);
    }
    check(*a, dense(n1, 5), "first FastFourierTransform");
    mc::outcome(h);
}

// Whole families: results in any order of use stay those of the definition.
void sizes(int limit)
{
    static const int large[] = { 255, 256, 257, 500, 511, 512, 513, 720, 1000, 1023, 1024, 1025 };
    const int larges = sizeof large / sizeof *large;
    int n = 1 + mc::choose(limit + larges, "size");
    if (n > limit) n = large[n - limit - 1];
    int implementation = mc::choose(2, "implementation");
    int kind = mc::choose(3, "data");
    check(*make(implementation, n), dense(n, kind), kName[implementation]);
    mc::outcome(mc::mix(n, kind));
}

// One object used very often.
void endurance(int uses)
{
    int implementation = mc::choose(2, "implementation");
    int pattern = mc::choose(3, "pattern");
    const int n = 6;
    IFourierTransform::shared_ptr f = make(implementation, n);
    for (int i = 0; i < uses; ++i)
        check(*f, pattern == 0 ? dense(n, 1) : pattern == 1 ? dense(n, i % 7) : i % 3 ? Seq(n) : dense(n, 2), kName[implementation]);
    mc::outcome(mc::mix(implementation, pattern));
}

void degenerate()
{
    bool refused = false;
    try { FastFourierTransform t(0); } catch (const std::invalid_argument&) { refused = true; }
    MC_CHECK(refused, "a fast transform for 0 elements was created");
    FourierTransform direct;
    MC_CHECK(direct.Transform(Seq()).empty(), "the transform of nothing is not empty");
    FastFourierTransform one(1);
    check(one, Seq(1, C(2, -1)), "FastFourierTransform of one element");
    mc::step();
    mc::outcome(1);
}
}

int main(int argc, char** argv)
{
    mc::describe("both implementations of the Fourier transform against the definition evaluated in extended precision: all impulses up to a "
                 "size (a linear map is determined by them), all vectors over a 5-letter alphabet up to a length, dense vectors of every "
                 "size, and all operation histories (transforms, refused calls, other transforms created and destroyed) up to a depth");
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    mc::Options o;
    int limit = t ? 64 : 33;
    mc::add("impulses", "sizes 1.." + std::to_string(limit) + ", every position, 7 heights", [=] { impulses(limit); }, o);
    int sz = t ? 300 : 130;
    mc::add("dense", "sizes 1.." + std::to_string(sz) + " and 12 sizes up to 1025, 3 vectors", [=] { sizes(sz); }, o);
    for (int n = 2; n <= (t ? 6 : 5); ++n)
        mc::add("all vectors of " + std::to_string(n), "5^" + std::to_string(n) + " vectors", [=] { small(n); }, o);
    int depth = t ? 5 : 4;
    mc::add("histories", "9 operations, depth " + std::to_string(depth), [=] { history(depth); }, o);
    mc::add("endurance", "1500 uses of one object in 3 patterns", [=] { endurance(1500); }, o);
    mc::Options once; once.once = true;
    mc::add("degenerate sizes", "sizes 0 and 1", degenerate, once);
    return mc::run(argc, argv);
}
