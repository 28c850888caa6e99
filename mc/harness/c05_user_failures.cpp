// C05: the user's code (functions, parameters, mutators, callbacks, wavelets,
// scales, transforms, tasks, optimizers) fails at any of its calls.
#include "uses.h"

int main(int argc, char** argv)
{
    mc::describe("every use of the library that calls code of the user; each of these calls, and each pair one after another, ends with an exception");
    bool t = opt::thorough(argc, argv);
    opt::no_plot();
    for (const uses::Entry& e : uses::all())
    {
        mc::Options o;
        o.warm_up = true;
        mc::add(e.name, t ? "up to two failures in a row" : "one failure", [=] {
            uses::explore(e, failures::kUserCode, t ? 2 : 1, [](const std::function<void()>& f) {
                try { f(); return false; }
                catch (failures::UserError& error) { MC_CHECK(error.number == 4711 + failures::state().at, "another exception"); return true; }
            });
        }, o);
    }
    return mc::run(argc, argv);
}
