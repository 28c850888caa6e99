// D05: Fourier transforms used by several threads at the same time.
#include "mc.h"
#include "mc_sched.h"
#include "dsp_ref.h"
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/circular_convolution.h>
#include <boost/thread.hpp>
#include <stdexcept>

using namespace k52::dsp;
using namespace ref;

namespace
{
int g_inside = -1; // thread in the planner
}

// FFTW's planner must not be entered by two threads at a time.
extern "C" void env_fftw_enter()
{
    if (!sched::active()) return;
    int owner;
    { sched::Quiet q; owner = g_inside; g_inside = sched::self(); }
    if (owner != -1) mc::fail("the FFTW planner is entered by thread " + std::to_string(sched::self()) + " while thread "
                              + std::to_string(owner) + " is inside");
    sched::point("in the FFTW planner");
}
extern "C" void env_fftw_leave()
{
    if (!sched::active()) return;
    sched::Quiet q;
    g_inside = -1;
}

namespace
{
struct Step { char what; int size; };
typedef std::vector<Step> Program;

void perform(const Program& p, const FourierTransform* shared, const CircularConvolution* convolution, std::vector<Seq>* results)
{
    boost::shared_ptr<FastFourierTransform> f;
    for (size_t i = 0; i < p.size(); ++i)
    {
        int n = p[i].size;
        Seq r;
        switch (p[i].what)
        {
        case 'c': f.reset(); f.reset(new FastFourierTransform(n)); break;
        case 't': r = f->Transform(dense(n, (int)i)); break;
        case 'd': f.reset(); break;
        case 'x':
        {
            bool refused = false;
            try { FastFourierTransform none(0); } catch (const std::invalid_argument&) { refused = true; }
            if (!refused) mc::fail("a transform for 0 elements was created");
            break;
        }
        case 's': r = shared->Transform(dense(n, (int)i)); break;
        case 'v': r = convolution->EvaluateConvolution(dense(n, (int)i), dense(n, 1)); break;
        }
        results->push_back(r);
        sched::point("step done");
    }
}

void scenario(const std::vector<Program>& programs)
{
    g_inside = -1;
    std::vector<std::vector<Seq> > results(programs.size());
    unsigned long long h = 0;
    sched::run([&] {
        FourierTransform shared;
        CircularConvolution convolution;
        std::vector<boost::shared_ptr<boost::thread> > threads;
        for (size_t t = 0; t < programs.size(); ++t)
        {
            const Program* p = &programs[t];
            std::vector<Seq>* r = &results[t];
            const FourierTransform* s = &shared;
            const CircularConvolution* c = &convolution;
            threads.push_back(boost::shared_ptr<boost::thread>(new boost::thread([=] { perform(*p, s, c, r); })));
        }
        for (size_t t = 0; t < threads.size(); ++t) threads[t]->join();
        h = sched::schedule_hash();
    });
    uint64_t o = 1;
    for (size_t t = 0; t < programs.size(); ++t)
        for (size_t i = 0; i < programs[t].size(); ++i)
        {
            char what = programs[t][i].what;
            LSeq x = wide(dense(programs[t][i].size, (int)i));
            if (what == 't' || what == 's') compare(results[t][i], dft(x), 1e-10L, "a transform of thread " + std::to_string(t));
            if (what == 'v') compare(results[t][i], convolution(x, wide(dense(programs[t][i].size, 1))), 1e-10L, "a convolution of thread " + std::to_string(t));
            o = mc::mix(o, what);
        }
    mc::outcome(mc::mix(o, h));
    mc::state(mc::mix(o, h));
}
}

int main(int argc, char** argv)
{
    mc::describe("two or three threads creating, using and destroying their own fast transforms (and sharing the stateless direct "
                 "transform and convolution); every schedule with at most the stated preemptions, which may also fall inside FFTW's "
                 "planner; overlapping planner calls, data races and wrong results are violations");
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    auto add = [&](const std::string& name, int dev, const std::vector<Program>& p) {
        mc::Options o;
        o.max_deviations = dev;
        o.warm_up = true;
        mc::add(name, "at most " + std::to_string(dev) + " deviations", [=] { scenario(p); }, o);
    };
    const Program life4 = { { 'c', 4 }, { 't', 4 }, { 'd', 0 } }, life3 = { { 'c', 3 }, { 't', 3 }, { 't', 3 }, { 'd', 0 } };
    add("two lives", t ? 4 : 3, { life4, life3 });
    add("the same size", t ? 4 : 3, { life4, life4 });
    add("creation | destruction | refusal", t ? 3 : 2, { { { 'c', 2 }, { 'd', 0 } }, { { 'x', 0 }, { 'c', 2 }, { 't', 2 } }, { { 'c', 3 }, { 'c', 2 } } });
    add("replacing objects", t ? 4 : 3, { { { 'c', 2 }, { 'c', 3 }, { 't', 3 } }, { { 'c', 3 }, { 'c', 2 }, { 't', 2 } } });
    add("refusals on both sides", t ? 4 : 3, { { { 'x', 0 }, { 'c', 2 }, { 't', 2 } }, { { 'x', 0 }, { 'x', 0 }, { 'c', 2 } } });
    add("shared stateless objects", t ? 3 : 2, { { { 's', 3 }, { 'v', 2 } }, { { 'v', 3 }, { 's', 2 } }, { { 's', 3 }, { 's', 4 } } });
    return mc::run(argc, argv);
}
