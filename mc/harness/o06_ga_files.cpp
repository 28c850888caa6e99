// O06: populations saved to a file are read back as they were; other files are refused.
#include "ga_util.h"
#include <fstream>
#include <sstream>
#include <unistd.h>

using namespace ga;

namespace
{
std::string name(const char* what)
{
    std::ostringstream o;
    o << what << "-" << getpid();
    return o.str();
}
std::string contents(const std::string& file)
{
    std::ifstream in(file.c_str());
    MC_CHECK(in, "the population was not saved to " << file);
    std::ostringstream o;
    o << in.rdbuf();
    return o.str();
}
void put(const std::string& file, const std::string& text)
{
    std::ofstream o(file.c_str());
    o << text;
}

std::string g_file;
int g_save_at = 0, g_files = 1;
long g_seen = 0;
void saving_callback(GenerationStatistics s)
{
    if (g_seen == g_save_at)
        for (int i = 0; i < g_files; ++i) s.SaveCurrentPopulationToFile(i ? g_file + "b" : g_file);
    if (g_seen == g_save_at + 1)
    {
        // "it will be saved before the next call"
        for (int i = 0; i < g_files; ++i)
            MC_CHECK(access((i ? g_file + "b" : g_file).c_str(), F_OK) == 0, "the population was not saved before the next generation was reported");
    }
    g_seen++;
    callback(s);
}

struct Saved
{
    Run run;
    Config c;
    std::vector<unsigned> codes;   // of the generation that was saved
    std::string text;
    int existing = 0;              // what the file contains before it is saved
};

void save(Saved& s, int at, int files)
{
    g_file = name("population");
    unlink(g_file.c_str());
    unlink((g_file + "b").c_str());
    // the file may exist already, and be longer or shorter
    if (s.existing == 1) put(g_file, "3\n2\n");
    if (s.existing == 2) put(g_file, std::string(3000, '1') + "\n" + std::string(3000, '\n'));
    g_save_at = at;
    g_files = files;
    g_seen = 0;
    GeneticAlgorithm::shared_ptr g = make(&s.run, s.c);
    observed() = &s.run;
    s.run.population = s.c.population;
    g->OnNextGenerationReadyConnect(saving_callback);
    if (!s.c.initial.empty()) g->SetInitialParameters(population(&s.run, s.c.initial));
    Genes p(&s.run, s.c.start);
    Objective f(&s.run);
    g->Optimize(f, &p, true);
    MC_CHECK((int) s.run.gens.size() > at, "generation " << at << " was not made");
    s.codes = s.run.gens[at].evaluated;
    s.text = contents(g_file);
    if (files > 1) MC_CHECK(contents(g_file + "b") == s.text, "two files of one generation differ");
    unlink((g_file + "b").c_str());
}

// reads g_file; returns the codes of generation 0
std::vector<unsigned> load(const Saved& s, const Run& how, bool initial_too = false)
{
    Run r(how);
    r.gens.clear();
    r.closed = false;
    r.mutation = 0;
    Config c = s.c;
    c.file = g_file;
    c.max_generations = 1;
    c.initial.clear();
    if (initial_too) c.initial.assign(c.population, s.c.start);
    GeneticAlgorithm::shared_ptr g = make(&r, c);
    optimize(*g, &r, c);
    MC_CHECK(r.gens.size() == 1, "one generation was asked for, there were " << r.gens.size());
    for (unsigned e : r.gens[0].evaluated) MC_CHECK(r.ok(e), "an individual which does not satisfy the constraints was read");
    MC_CHECK((int) r.gens[0].evaluated.size() == c.population, r.gens[0].evaluated.size() << " individuals were evaluated");
    return r.gens[0].evaluated;
}

Saved prepare(int bits, int size, double menu_scale)
{
    Saved s;
    s.run.bits = bits;
    s.run.choose_fitness = false;
    s.run.menu = { 1 * menu_scale, 2.5 * menu_scale, 0, 7.123456789 * menu_scale };
    s.c.population = size;
    s.c.stop = 1e300;
    return s;
}

void round_trip(int max_bits)
{
    int bits = 1 + mc::choose(max_bits, "genes"), size = 2 + 2 * mc::choose(3, "population");
    static const double scales[] = { 1, 1e-30, 1e30 };
    Saved s = prepare(bits, size, scales[mc::choose(3, "fitness scale")]);
    s.existing = mc::choose(3, "contents of the file before");
    s.c.elites = mc::choose(2, "elite pairs");
    s.c.cache = mc::choose(2, "cache") ? 1 : 0;
    s.run.mutation = mc::choose(3, "mutation");
    int constraint = mc::choose(3, "constraint");
    if (constraint)
    {
        s.run.feasible.assign(1u << bits, true);
        s.run.feasible[constraint == 1 ? 0 : (1u << bits) - 1] = false;
    }
    s.c.start = feasible_codes(s.run)[0];
    if (mc::choose(2, "initial population given"))
        for (int i = 0; i < size; ++i) s.c.initial.push_back(feasible_codes(s.run)[i % feasible_codes(s.run).size()]);
    explore_random();
    int at = mc::choose(3, "generation");
    if (s.c.cache > 0 && at == 0) mc::discard();   // what was evaluated is then less than what is saved
    Run uncached = s.run;
    if (s.c.cache > 0)
    {
        // only that the same file comes out: compare with what is read back and saved again
        int files = 1;
        save(s, at, files);
        s.codes.clear();
    }
    else save(s, at, 1 + mc::choose(2, "files"));
    std::vector<unsigned> back = load(s, uncached, mc::choose(2, "initial parameters too"));
    if (!s.codes.empty())
        MC_CHECK(sorted(back) == sorted(s.codes), "generation " << at << " was " << show(s.codes) << ", read back it is " << show(back));
    // read and save again: the same population
    Saved again = prepare(bits, size, 1);
    again.run.menu = s.run.menu;
    again.run.feasible = s.run.feasible;
    again.c.start = s.c.start;
    again.c.initial.clear();
    std::string source = g_file + "s";
    put(source, s.text);
    again.c.file = source;
    again.c.max_generations = 2;
    save(again, 0, 1);
    MC_CHECK(sorted(again.codes) == sorted(back), "reading once more made " << show(again.codes) << " instead of " << show(back));
    unlink(source.c_str());
    std::vector<unsigned> third = load(again, uncached);
    MC_CHECK(sorted(third) == sorted(back), "saving what was read made " << show(third) << " instead of " << show(back));
    unlink(g_file.c_str());
    uint64_t h = bits * 8 + size;
    for (unsigned c : sorted(back)) h = mc::mix(h, c);
    mc::state(h);
    mc::outcome(h);
}

// larger populations of longer chromosomes
void larger()
{
    static const int bits[] = { 8, 9, 15, 17, 24, 31 }, sizes[] = { 10, 26, 100 };
    Saved s = prepare(bits[mc::choose(6, "genes")], sizes[mc::choose(3, "population")], 1);
    s.run.mutation = 3;
    s.run.menu.clear();
    for (int i = 0; i < 41; ++i) s.run.menu.push_back(i / 7.);
    s.c.elites = mc::choose(2, "elite pairs") * 3;
    s.c.start = 1;
    explore_random();
    int at = mc::choose(3, "generation");
    save(s, at, 1);
    std::vector<unsigned> back = load(s, s.run);
    MC_CHECK(sorted(back) == sorted(s.codes), "generation " << at << " was " << show(s.codes) << ", read back it is " << show(back));
    unlink(g_file.c_str());
    uint64_t h = s.run.bits * 8 + s.c.population;
    for (unsigned c : sorted(back)) h = mc::mix(h, c);
    mc::state(h);
    mc::outcome(h);
}

// every file that differs from a good one in one place
void damaged(int positions_step)
{
    Saved s = prepare(3, 2, 1);
    s.run.feasible.assign(8, true);
    s.run.feasible[5] = s.run.feasible[0] = false;
    s.c.start = 1;
    s.c.initial = { 3, 6 };
    env::reset(mc::seed());
    env::reset_random();
    save(s, 0, 1);
    int kind = mc::choose(3, "damage");
    std::string text = s.text;
    int at = mc::choose((int) text.size() / positions_step + 1, "position") * positions_step;
    if (at > (int) text.size()) at = text.size();
    static const char alphabet[] = "0129- \nxe.";
    if (kind == 0) text = text.substr(0, at);
    else if (kind == 1)
    {
        if (at == (int) text.size()) mc::discard();
        text[at] = alphabet[mc::choose(10, "character")];
    }
    else
    {
        int with = mc::choose(11, "inserted");
        if (with == 10) { if (at < (int) text.size()) text.erase(at, 1); }
        else text.insert(at, 1, alphabet[with]);
    }
    put(g_file, text);
    MC_TRACE("file:\n" << text);
    bool refused = false;
    std::vector<unsigned> back;
    try { back = load(s, s.run); }
    catch (const std::logic_error& e) { refused = true; MC_TRACE("refused: " << e.what()); }
    unlink(g_file.c_str());
    mc::step();
    uint64_t h = mc::mix(refused, kind);
    for (unsigned c : back) h = mc::mix(h, c);
    if (text == s.text) MC_CHECK(!refused && sorted(back) == sorted(s.codes), "an undamaged file was not read");
    mc::state(mc::hash_string(text));
    mc::outcome(h);
}

// whole files: header and individuals from small alphabets
void composed()
{
    Saved s = prepare(2, 2, 1);
    s.run.feasible = { true, true, false, true };
    s.c.start = 1;
    s.c.initial = { 3, 1 };
    env::reset(mc::seed());
    env::reset_random();
    save(s, 0, 1);
    // split the good file into tokens and replace the numbers and chromosomes
    std::vector<std::string> t;
    std::istringstream in(s.text);
    for (std::string w; in >> w;) t.push_back(w);
    // codes as they are written, found by matching the chromosomes of the two individuals
    std::vector<size_t> chromosomes, sizes;
    for (size_t i = 0; i < t.size(); ++i)
    {
        if (t[i].size() == 2 && t[i].find_first_not_of("01") == std::string::npos) chromosomes.push_back(i);
        else if (t[i] == "2" && sizes.size() < 2) sizes.push_back(i);
    }
    MC_CHECK(chromosomes.size() == 2, "a file of two individuals contains " << chromosomes.size() << " chromosomes of two genes:\n" << s.text);
    MC_CHECK(sizes.size() == 2, "the sizes of population and chromosome are not in the file:\n" << s.text);
    static const char* numbers[] = { "2", "1", "4", "0", "3", "-2", "x" };
    static const char* words[] = { "00", "01", "10", "11", "0", "000", "0x", "12", "" };
    int a = mc::choose(7, "population size"), b = mc::choose(7, "chromosome size"), c = mc::choose(9, "first"), d = mc::choose(9, "second");
    t[sizes[0]] = numbers[a];
    t[sizes[1]] = numbers[b];
    t[chromosomes[0]] = words[c];
    t[chromosomes[1]] = words[d];
    std::string text;
    for (const std::string& w : t) text += w + "\n";
    put(g_file, text);
    bool refused = false;
    std::vector<unsigned> back;
    Run r(s.run);
    r.gens.clear();
    Config cc = s.c;
    cc.file = g_file;
    cc.max_generations = 1;
    cc.initial.clear();
    GeneticAlgorithm::shared_ptr g = make(&r, cc);
    observed() = &r;
    g->OnNextGenerationReadyConnect(callback);
    Genes p(&r, 3);
    Objective f(&r);
    try { g->Optimize(f, &p, true); back = r.gens.at(0).evaluated; }
    catch (const std::logic_error& e) { refused = true; MC_TRACE("refused: " << e.what()); }
    unlink(g_file.c_str());
    bool fine = a == 0 && b == 0 && c < 4 && d < 4;
    std::vector<unsigned> expected;
    if (fine)
    {
        int k[] = { c, d };
        for (int i = 0; i < 2; ++i)
        {
            unsigned code = (words[k[i]][0] == '1') | (words[k[i]][1] == '1') << 1;
            expected.push_back(code);
            if (!s.run.ok(code)) fine = false;
        }
    }
    MC_TRACE("file:\n" << text);
    MC_CHECK(refused == !fine, (refused ? "a good file was refused:\n" : "a wrong file was accepted:\n") << text);
    if (fine) MC_CHECK(sorted(back) == sorted(expected), "read " << show(back) << " instead of " << show(expected) << " from\n" << text);
    else
    {
        MC_CHECK(p.get() == 3, "a refused file changed the parameters");
        long n = 0;
        for (const Generation& gen : r.gens) n += gen.evaluated.size();
        MC_CHECK(n == 0, "something was evaluated although the file is refused");
    }
    mc::step();
    mc::state(mc::hash_string(text));
    mc::outcome(mc::mix(refused, a * 1000 + b * 100 + c * 10 + d));
}

void missing()
{
    Saved s = prepare(2, 2, 1);
    s.run.feasible.assign(4, true);
    Config c = s.c;
    c.file = name("no-such-file");
    unlink(c.file.c_str());
    env::reset(mc::seed());
    env::reset_random();
    GeneticAlgorithm::shared_ptr g = make(&s.run, c);
    observed() = &s.run;
    Genes p(&s.run, 3);
    Objective f(&s.run);
    bool refused = false;
    try { g->Optimize(f, &p, true); } catch (const std::runtime_error&) { refused = true; }
    MC_CHECK(refused, "a missing file was not refused");
    MC_CHECK(p.get() == 3 , "a missing file changed the parameters");
    mc::step();
    mc::outcome(1);
}
}

int main(int argc, char** argv)
{
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    mc::describe("populations of all sizes saved at each generation and read back; all files which differ from a good one in one character, all truncations, "
                 "all combinations of sizes and chromosomes from an alphabet");
    std::cout.setstate(std::ios::badbit);
    mc::Options o;
    o.max_deviations = t ? 1 : 0;
    mc::add("round trip", "1-" + std::to_string(t ? 4 : 3) + " genes, populations of 2, 4, 6, 3 generations, 3 mutations, 3 constraints", [=] { round_trip(t ? 4 : 3); }, o);
    mc::add("damaged", "one good file: each truncation, replacement and insertion from an alphabet of 10", [=] { damaged(1); }, mc::Options());
    mc::add("composed", "7 x 7 sizes, 9 x 9 chromosomes", composed, mc::Options());
    mc::add("missing", "no file", missing, mc::Options());
    mc::add("larger", "8-31 genes, populations of 10-100, 3 generations; fixed draws", larger, mc::Options());
    return mc::run(argc, argv);
}
