// D02: the inverse transform inverts, over either forward transform.
#include "mc.h"
#include "dsp_ref.h"
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <k52/dsp/transform/inverse_fourier_transform.h>
#include <boost/make_shared.hpp>
#include <stdexcept>

using namespace k52::dsp;
using namespace ref;

namespace
{
IFourierTransform::shared_ptr make(int implementation, int n)
{
    if (implementation == 0) return boost::make_shared<FourierTransform>();
    return boost::make_shared<FastFourierTransform>(n);
}

void check(const IFourierTransform& f, const InverseFourierTransform& inverse, const Seq& x)
{
    LSeq wx = wide(x);
    long double tolerance = 1e-11L * norm1(wx);
    Seq copy = x;
    Seq back = inverse.Transform(copy);
    MC_CHECK(copy == x, "the inverse transform changed its argument");
    compare(back, idft(wx), tolerance, "the inverse transform of " + show(x));
    compare(inverse.Transform(f.Transform(x)), wx, tolerance * (long double)x.size(), "inverse(forward(" + show(x) + "))");
    compare(f.Transform(back), wx, tolerance * (long double)x.size(), "forward(inverse(" + show(x) + "))");
    mc::state(hash(idft(wx)));
}

void one(const Seq& x)
{
    int implementation = mc::choose(2, "implementation");
    IFourierTransform::shared_ptr f = make(implementation, (int)x.size());
    MC_TRACE("implementation " << implementation << ", " << show(x));
    if (mc::choose(2, "shared"))
    {
        // an inverse with a forward transform of its own
        InverseFourierTransform inverse(make(1 - implementation, (int)x.size()));
        check(*f, inverse, x);
    }
    else
    {
        InverseFourierTransform inverse(f);
        check(*f, inverse, x);
    }
    mc::outcome(hash(wide(x)));
}

void history(int depth)
{
    const int n = 3;
    IFourierTransform::shared_ptr f = make(1, n);
    InverseFourierTransform inverse(f);
    boost::shared_ptr<InverseFourierTransform> other;
    uint64_t h = 5;
    for (int i = 0; i < depth; ++i)
    {
        int op = mc::choose(7, "operation");
        h = mc::mix(h, op);
        switch (op)
        {
        case 0: case 1: check(*f, inverse, dense(n, op)); break;
        case 2: compare(f->Transform(dense(n, 2)), dft(wide(dense(n, 2))), 1e-9L, "the forward transform"); break;
        case 3: other.reset(new InverseFourierTransform(mc::choose(2, "shared") ? f : make(1, n))); break;
        case 4: other.reset(); break;
        case 5: if (other) check(*f, *other, dense(n, 3)); break;
        case 6:
        {
            bool refused = false;
            try { inverse.Transform(dense(n + 1, 0)); } catch (const std::invalid_argument&) { refused = true; }
            MC_CHECK(refused, "the inverse of a transform for " << n << " elements accepted " << n + 1);
        }
        }
        mc::state(h);
    }
    check(*f, inverse, dense(n, 4));
    mc::outcome(h);
}
}

int main(int argc, char** argv)
{
    mc::describe("the inverse transform over both forward transforms, and both compositions, on all impulses up to a size, all vectors over "
                 "an alphabet up to a length, dense vectors of every size, and all operation histories up to a depth");
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    mc::Options o;
    int limit = t ? 40 : 20;
    mc::add("impulses", "sizes 1.." + std::to_string(limit) + ", every position, 7 heights", [=] { one(impulse(1 + mc::choose(limit, "size"))); }, o);
    int sz = t ? 130 : 70;
    mc::add("dense", "sizes 1.." + std::to_string(sz) + ", 3 vectors", [=] { int n = 1 + mc::choose(sz, "size"); one(dense(n, mc::choose(3, "data"))); }, o);
    for (int n = 2; n <= (t ? 6 : 5); ++n)
        mc::add("all vectors of " + std::to_string(n), "5^" + std::to_string(n) + " vectors",
                [=] { one(any(n, { C(0, 0), C(1, 0), C(-2, 0), C(0, 1), C(0.5, -0.25) })); }, o);
    int depth = t ? 5 : 4;
    mc::add("histories", "7 operations, depth " + std::to_string(depth), [=] { history(depth); }, o);
    mc::add("larger", "7 sizes of 127-1024, 3 vectors", [=] {
        static const int sizes[] = { 127, 128, 129, 255, 257, 500, 1024 };
        int n = sizes[mc::choose(7, "size")];
        one(dense(n, mc::choose(3, "data")));
    }, o);
    return mc::run(argc, argv);
}
