// C06: memory runs out at any moment of a use of the library.
#include "uses.h"
#include <dlfcn.h>
#include <fftw3.h>

// FFTW's memory and plans
namespace
{
struct Blocks
{
    void* counted[64];
    int n = 0;
    void add(void* p) { if (p && failures::state().counting && n < 64) { counted[n++] = p; failures::state().live++; } }
    void remove(void* p)
    {
        for (int i = 0; i < n; ++i) if (counted[i] == p) { counted[i] = counted[--n]; failures::state().live--; return; }
    }
} blocks;
template <class F> F real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
}
extern "C" void* fftw_malloc(size_t n)
{
    static auto f = real<void* (*)(size_t)>("fftw_malloc");
    void* p = failures::out_of_memory("fftw_malloc", n) ? 0 : f(n);
    blocks.add(p);
    return p;
}
extern "C" fftw_complex* fftw_alloc_complex(size_t n) { return static_cast<fftw_complex*>(fftw_malloc(n * sizeof(fftw_complex))); }
extern "C" double* fftw_alloc_real(size_t n) { return static_cast<double*>(fftw_malloc(n * sizeof(double))); }
extern "C" void fftw_free(void* p)
{
    static auto f = real<void (*)(void*)>("fftw_free");
    blocks.remove(p);
    f(p);
}
extern "C" bool env_fftw_no_plan() { return failures::out_of_memory("plan", 0); }
extern "C" void env_fftw_planned(void* plan) { blocks.add(plan); }
extern "C" void env_fftw_destroyed(void* plan) { blocks.remove(plan); }

int main(int argc, char** argv)
{
    mc::describe("every use of the library; each of the allocations made during it fails, and then each one of the repetition");
    bool t = opt::thorough(argc, argv);
    opt::no_plot();
    for (const uses::Entry& e : uses::all())
    {
        mc::Options o;
        o.warm_up = true;
        mc::add(e.name, t ? "up to two failures in a row" : "one failure", [=] {
            uses::explore(e, failures::kAllocation, t ? 2 : 1, [=](const std::function<void()>& f) {
                try { f(); return false; }
                catch (std::bad_alloc&) { return true; }
                // the standard input streams turn it into a failure to read
                // (also reported for a plan that cannot be made)
                catch (std::runtime_error&) { if (!e.makes_plans) throw; return true; }
                catch (std::logic_error&) { if (!e.reads_a_file) throw; return true; }
            });
        }, o);
    }
    return mc::run(argc, argv);
}
