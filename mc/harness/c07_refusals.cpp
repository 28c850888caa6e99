// C07: what is refused has no effect.  Every history of operations of which some
// are refused, next to the same history without the refused ones.
#include "subjects.h"

using namespace subjects;

namespace
{
template <class S> void histories(const Subject<S>& subject, int depth)
{
    failures::State& st = failures::state();
    st = failures::State();
    uint64_t h = 7;
    {
        st.counting = true;
        fresh();
        std::unique_ptr<S> a(new S);
        fresh();
        std::unique_ptr<S> b(new S);
        st.counting = false;
        // the last operation has to be visible in what is observed
        for (int d = 0; d < depth; ++d)
        {
            int i = mc::choose(subject.operations.size() + 1, "operation");
            if (i == (int)subject.operations.size()) break;
            const Operation<S>& o = subject.operations[i];
            V x, y;
            bool threw = false;
            MC_TRACE(o.name);
            fresh();
            st.counting = true;
            try { o.perform(*a, x); }
            catch (...)
            {
                threw = true;
                st.counting = false;
                std::exception_ptr p = std::current_exception();
                MC_CHECK(o.refused && o.refused(p), o.name << (o.refused ? " is refused with another exception" : " is refused"));
            }
            st.counting = false;
            mc::step();
            MC_CHECK(threw || !o.always, o.name << " is accepted");
            if (!threw)
            {
                fresh();
                st.counting = true;
                try { o.perform(*b, y); }
                catch (...) { st.counting = false; mc::fail(std::string(o.name) + " is accepted only after something was refused"); }
                st.counting = false;
                MC_CHECK(x == y, o.name << " gives " << mc::show(x) << ", without what was refused before " << mc::show(y));
            }
            V now, model;
            fresh();
            st.counting = true;
            a->observe(now);
            fresh();
            b->observe(model);
            st.counting = false;
            MC_CHECK(now == model, "after " << o.name << (threw ? ", which was refused," : "") << " it is " << mc::show(now) << ", without what was refused " << mc::show(model));
            h = mc::mix(mc::mix(h, i), mc::hash_doubles(now));
            mc::state(h);
        }
        mc::outcome(h);
    }
    MC_CHECK(st.live == 0, st.live << " blocks of memory were not given back");
}
}

int main(int argc, char** argv)
{
    mc::describe("every history of operations, valid and refused ones, on objects of each kind, compared with an object that is not told of the refused ones");
    bool t = opt::thorough(argc, argv);
    opt::no_plot();
    mc::Options o;
    o.warm_up = true;
    all(t, [&](const std::string& name, int d, auto r) {
        mc::add(name, "histories of up to " + std::to_string(d) + " operations", [=] { histories(r, d); }, o);
    });
    return mc::run(argc, argv);
}
