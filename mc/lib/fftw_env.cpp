// The FFTW planner as its documentation describes it, at its least helpful:
// a plan may overwrite the arrays given to the planner unless FFTW_ESTIMATE was
// requested.  Plans are then made with FFTW_ESTIMATE, so that they do not depend
// on timing.  Calls of the planner which overlap (it is not thread-safe) are
// reported through env_fftw_overlap().
#include <dlfcn.h>
#include <fftw3.h>
#include <cmath>
#include <cstddef>

extern "C" void env_fftw_enter() __attribute__((weak));
extern "C" void env_fftw_leave() __attribute__((weak));
extern "C" bool env_fftw_no_plan() __attribute__((weak));
extern "C" void env_fftw_planned(void*) __attribute__((weak));
extern "C" void env_fftw_destroyed(void*) __attribute__((weak));

namespace
{
template <class F> F real(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
struct Planner
{
    Planner() { if (env_fftw_enter) env_fftw_enter(); }
    ~Planner() { if (env_fftw_leave) env_fftw_leave(); }
};
bool no_plan() { return env_fftw_no_plan && env_fftw_no_plan(); }
fftw_plan planned(fftw_plan p) { if (env_fftw_planned) env_fftw_planned(p); return p; }
void scribble(fftw_complex* p, int n)
{
    for (int i = 0; p && i < n; ++i) { p[i][0] = 1e77 + i; p[i][1] = -1e77 * i; }
}
}

extern "C" fftw_plan fftw_plan_dft_1d(int n, fftw_complex* in, fftw_complex* out, int sign, unsigned flags)
{
    Planner planner;
    typedef fftw_plan (*F)(int, fftw_complex*, fftw_complex*, int, unsigned);
    static F f = real<F>("fftw_plan_dft_1d");
    const unsigned kEffort = FFTW_ESTIMATE | FFTW_PATIENT | FFTW_EXHAUSTIVE;
    if (!(flags & FFTW_ESTIMATE) && !(flags & FFTW_WISDOM_ONLY) && n > 0) { scribble(in, n); scribble(out, n); }
    return planned(no_plan() ? 0 : f(n, in, out, sign, (flags & ~kEffort) | FFTW_ESTIMATE));
}
extern "C" fftw_plan fftw_plan_dft(int rank, const int* n, fftw_complex* in, fftw_complex* out, int sign, unsigned flags)
{
    Planner planner;
    typedef fftw_plan (*F)(int, const int*, fftw_complex*, fftw_complex*, int, unsigned);
    static F f = real<F>("fftw_plan_dft");
    const unsigned kEffort = FFTW_ESTIMATE | FFTW_PATIENT | FFTW_EXHAUSTIVE;
    int total = 1;
    for (int i = 0; i < rank; ++i) total *= n[i];
    if (!(flags & FFTW_ESTIMATE) && total > 0) { scribble(in, total); scribble(out, total); }
    return planned(no_plan() ? 0 : f(rank, n, in, out, sign, (flags & ~kEffort) | FFTW_ESTIMATE));
}
extern "C" void fftw_destroy_plan(fftw_plan p)
{
    Planner planner;
    typedef void (*F)(fftw_plan);
    static F f = real<F>("fftw_destroy_plan");
    if (env_fftw_destroyed) env_fftw_destroyed(p);
    f(p);
}
extern "C" void fftw_cleanup(void)
{
    Planner planner;
    typedef void (*F)(void);
    static F f = real<F>("fftw_cleanup");
    f();
}
