// C03: settings against a reference map of paths, over all argument vectors,
// put/get sequences and small trees.
#include "mc.h"
#include <k52/common/settings_manager.h>
#include <fstream>
#include <map>
#include <unistd.h>

using k52::SettingsManager;
using boost::property_tree::ptree;

namespace
{
// Reference: every path that exists, with its data; a path's ancestors exist.
typedef std::map<std::string, std::string> Model;

void model_put(Model& m, const std::string& path, const std::string& data)
{
    for (size_t i = 0; i < path.size(); ++i)
        if (path[i] == '.') m.insert(std::make_pair(path.substr(0, i), std::string()));
    m[path] = data;
}

const char* kPaths[] = { "a", "b", "a.b", "a.b.c", "absent", "a.absent" };

template <class T> std::string text(const T& t) { std::ostringstream os; os << t; return os.str(); }

// What reading a string as an int gives, or nothing.
bool as_int(const std::string& s, int& out)
{
    std::istringstream is(s);
    is >> out;
    if (is.fail()) return false;
    std::string rest;
    is >> std::ws;
    return is.eof();
}

void compare(const SettingsManager& sm, const Model& m, const std::string& when)
{
    for (size_t i = 0; i < sizeof kPaths / sizeof *kPaths; ++i)
    {
        std::string path = kPaths[i];
        Model::const_iterator it = m.find(path);
        bool present = it != m.end();
        mc::step();
        // mandatory
        bool threw = false;
        std::string got;
        try { got = sm.get<std::string>(path); } catch (const std::runtime_error&) { threw = true; }
        MC_CHECK(threw != present, when << ": mandatory '" << path << "' " << (threw ? "throws" : "is '" + got + "'")
                 << " but is " << (present ? "set" : "not set"));
        if (present) MC_CHECK(got == it->second, when << ": '" << path << "' is '" << got << "', expected '" << it->second << "'");
        // with default
        std::string d = sm.get<std::string>(path, std::string("the default"));
        MC_CHECK(d == (present ? it->second : "the default"), when << ": '" << path << "' with default is '" << d << "'");
        // typed
        int expected = 0;
        bool is_int = present && as_int(it->second, expected);
        int value = 0;
        threw = false;
        try { value = sm.get<int>(path); } catch (const std::runtime_error&) { threw = true; }
        MC_CHECK(threw != is_int, when << ": '" << path << "' as a mandatory int " << (threw ? "throws" : "is " + text(value)));
        if (is_int) MC_CHECK(value == expected, when << ": '" << path << "' as int is " << value);
        MC_CHECK(sm.get<int>(path, -77) == (is_int ? expected : -77), when << ": '" << path << "' as int with default is " << sm.get<int>(path, -77));
    }
}

uint64_t hash(const Model& m)
{
    uint64_t h = 3;
    for (Model::const_iterator it = m.begin(); it != m.end(); ++it)
        h = mc::hash_string(it->second, mc::hash_string(it->first, h));
    return h;
}

const char* kArguments[] = { "--a=1", "--a=2", "--a=x y", "--a=", "--b=p=q", "--a.b=7", "--a.b.c=-3", "-a=5", "a=6", "", "-", "--b=--a=9", "program" };
const int kArgumentCount = sizeof kArguments / sizeof *kArguments;

void command_line(int limit)
{
    int count = mc::choose(limit + 1, "argument count");
    std::vector<const char*> argv;
    Model m;
    for (int i = 0; i < count; ++i)
    {
        std::string arg = kArguments[mc::choose(kArgumentCount, "argument")];
        argv.push_back(0);
        for (int k = 0; k < kArgumentCount; ++k) if (arg == kArguments[k]) argv.back() = kArguments[k];
        MC_TRACE("argument: " << arg);
        if (arg.compare(0, 2, "--") == 0)
        {
            size_t eq = arg.find('=');
            model_put(m, arg.substr(2, eq - 2), arg.substr(eq + 1));
        }
    }
    SettingsManager sm(count, count ? &argv[0] : 0);
    compare(sm, m, "after parsing the command line");
    mc::state(hash(m));
    mc::outcome(hash(m));
}

void flags()
{
    // A flag without a value is set (to something); it does not disturb others.
    static const char* args[] = { "--a", "--b=2", "--a.b" };
    std::vector<const char*> argv;
    int n = mc::choose(4, "count");
    std::map<std::string, bool> present;
    bool b2 = false;
    for (int i = 0; i < n; ++i)
    {
        int k = mc::choose(3, "argument");
        argv.push_back(args[k]);
        if (k == 0) present["a"] = true;
        if (k == 1) b2 = true;
        if (k == 2) present["a"] = present["a.b"] = true;
    }
    SettingsManager sm(n, n ? &argv[0] : 0);
    mc::step();
    MC_CHECK((sm.get<std::string>("a", "unset value") != "unset value") == present["a"], "flag a: " << sm.get<std::string>("a", "unset value"));
    MC_CHECK((sm.get<std::string>("a.b", "unset value") != "unset value") == present["a.b"], "flag a.b");
    MC_CHECK(sm.get<int>("b", 5) == (b2 ? 2 : 5), "b = " << sm.get<int>("b", 5));
    mc::outcome(mc::mix(present["a"] * 4 + present["a.b"] * 2 + b2, n));
}

void put_sequences(int depth)
{
    const char* argv[] = { "--a=start", "--a.b=0" };
    int initial = mc::choose(2, "initial arguments") * 2;
    SettingsManager sm(initial, argv);
    Model m;
    if (initial) { model_put(m, "a", "start"); model_put(m, "a.b", "0"); }
    for (int d = 0; d < depth; ++d)
    {
        int op = mc::choose(1 + 4 * 5, "put");
        if (!op) break;
        std::string path = kPaths[(op - 1) % 4];
        bool ok = false;
        std::string data;
        switch ((op - 1) / 4)
        {
        case 0: ok = sm.put(path, 42); data = "42"; break;
        case 1: ok = sm.put(path, std::string("two words")); data = "two words"; break;
        case 2: ok = sm.put(path, -7); data = "-7"; break;
        case 3: ok = sm.put(path, std::string("")); data = ""; break;
        case 4: ok = sm.put(path, std::string("5.5")); data = "5.5"; break;
        }
        mc::step();
        MC_TRACE("put(" << path << ", '" << data << "')");
        MC_CHECK(ok, "put('" << path << "', '" << data << "') returned false");
        model_put(m, path, data);
        compare(sm, m, "after put('" + path + "')");
        mc::state(hash(m));
    }
    mc::outcome(hash(m));
}

// many settings, deep paths, long values
void many_settings()
{
    static const int counts[] = { 10, 40, 150, 600 };
    int n = counts[mc::choose(4, "settings")], shape = mc::choose(4, "shape");
    bool line = mc::choose(2, "from the command line");
    int again = mc::choose(3, "put again");
    auto path = [=](int i) {
        std::string s;
        switch (shape)
        {
        case 0: return "key" + std::to_string(i);
        case 1: return "section" + std::to_string(i / 7) + ".key" + std::to_string(i % 7);
        case 2: // a chain that goes deeper and deeper
            for (int k = 0; k <= i % 60; ++k) s += (k ? ".n" : "n") + std::to_string(k == i % 60 ? i / 60 : 0);
            return s;
        default: return std::string(1 + i, 'x');
        }
    };
    auto value = [=](int i) { return i % 5 ? std::string(i % 50, 'v') + std::to_string(i) : std::string(i * 3, '='); };
    std::vector<std::string> arguments;
    std::vector<const char*> argv;
    std::map<std::string, std::string> expected;
    for (int i = 0; i < n; ++i) arguments.push_back("--" + path(i) + "=" + value(i));
    for (const std::string& a : arguments) argv.push_back(a.c_str());
    SettingsManager sm(line ? n : 0, line ? &argv[0] : 0);
    for (int i = 0; i < n; ++i)
    {
        if (!line) MC_CHECK(sm.put(path(i), value(i)), "setting " << i << " was not put");
        expected[path(i)] = value(i);
    }
    mc::step(n);
    for (int i = 0; again && i < n; i += again * 3) { MC_CHECK(sm.put(path(i), i), "put again"); expected[path(i)] = std::to_string(i); }
    for (auto& e : expected)
    {
        std::string got = sm.get<std::string>(e.first, "not there");
        MC_CHECK(got == e.second, "with " << n << " settings, '" << e.first << "' is '" << got << "' instead of '" << e.second << "'");
        MC_CHECK(sm.get<std::string>(e.first + "q", "not there") == "not there" || expected.count(e.first + "q"), "'" << e.first << "q' was never set");
    }
    mc::outcome(mc::mix(mc::mix(n, shape), again * 2 + line));
}

void typed_round_trip()
{
    static const double values[] = { 0, 1, -1, 0.1, 42.42, 1e-300, 1.7976931348623157e308, 1. / 3, 123456789.123456789 };
    SettingsManager sm(0, 0);
    double v = values[mc::choose(9, "value")];
    int i = (int)mc::choose(5, "int") * 536870911 - 1073741824;
    bool b = mc::choose(2, "bool") != 0;
    MC_CHECK(sm.put("d", v) && sm.put("n.i", i) && sm.put("n.b", b), "put failed");
    mc::step(3);
    MC_CHECK(sm.get<double>("d") == v, "the double " << v << " is read back as " << sm.get<double>("d"));
    MC_CHECK(sm.get<int>("n.i") == i, "the int " << i << " is read back as " << sm.get<int>("n.i"));
    MC_CHECK(sm.get<bool>("n.b") == b, "the bool " << b << " is read back as " << sm.get<bool>("n.b"));
    mc::outcome(mc::hash_double(v, i * 2 + b));
}

struct Access : SettingsManager
{
    Access() : SettingsManager(0, 0) {}
    static ptree merge(const ptree& l, const ptree& r) { return SettingsManager::Merge(l, r); }
};

// All trees with nodes among {k, k.m, k.m.k, m, "x.y" as one key}: presence and data chosen.
ptree build_tree(const char* who, std::map<std::vector<std::string>, std::string>& m)
{
    static const std::vector<std::vector<std::string> > nodes = {
        { "k" }, { "k", "m" }, { "k", "m", "k" }, { "m" }, { "m", "k" }, { "x.y" }, { "x.y", "m" } };
    ptree t;
    for (size_t i = 0; i < nodes.size(); ++i)
    {
        std::vector<std::string> parent(nodes[i].begin(), nodes[i].end() - 1);
        if (!parent.empty() && !m.count(parent)) continue;
        if (i == 6 && !mc::thorough()) continue;
        int c = mc::choose(3, who); // absent, empty data, data
        if (!c) continue;
        ptree* at = &t;
        for (size_t k = 0; k + 1 < nodes[i].size(); ++k) at = &at->find(nodes[i][k])->second;
        std::string data = c == 2 ? std::string(who) + std::to_string(i) : "";
        at->push_back(std::make_pair(nodes[i].back(), ptree(data)));
        m[nodes[i]] = data;
    }
    return t;
}

void flatten(const ptree& t, std::vector<std::string>& prefix, std::map<std::vector<std::string>, std::string>& out)
{
    for (ptree::const_iterator it = t.begin(); it != t.end(); ++it)
    {
        prefix.push_back(it->first);
        MC_CHECK(!out.count(prefix), "the merged tree has '" << it->first << "' twice");
        out[prefix] = it->second.data();
        flatten(it->second, prefix, out);
        prefix.pop_back();
    }
}

void merge_trees()
{
    std::map<std::vector<std::string>, std::string> l, r, expected, got;
    ptree left = build_tree("left", l);
    ptree right = build_tree("right", r);
    ptree merged = Access::merge(left, right);
    mc::step();
    expected = l;
    expected.insert(r.begin(), r.end()); // left wins
    std::vector<std::string> prefix;
    flatten(merged, prefix, got);
    if (got != expected)
    {
        std::ostringstream os;
        os << "merging differs; got:";
        for (auto& e : got) { os << " "; for (auto& p : e.first) os << "/" << p; os << "='" << e.second << "'"; }
        os << " expected:";
        for (auto& e : expected) { os << " "; for (auto& p : e.first) os << "/" << p; os << "='" << e.second << "'"; }
        mc::fail(os.str());
    }
    uint64_t h = 1;
    for (auto& e : got) { for (auto& p : e.first) h = mc::hash_string(p, h); h = mc::hash_string(e.second, h); }
    mc::outcome(h);
    mc::state(h);
}

void xml_files()
{
    static const char* docs[] = { "<a>1</a>", "<a><b>7</b></a>", "<a>x<b>7</b><b>8</b></a>", "<b>p=q</b>", "<a><b><c>-3</c></b></a>" };
    static const char* broken[] = { "<a>", "", "<a></b>", "plain < text" };
    std::string path = "settings-" + std::to_string(getpid()) + ".xml";
    int kind = mc::choose(10, "document");
    if (kind < 9)
    {
        std::ofstream f(path.c_str());
        f << (kind < 5 ? docs[kind] : broken[kind - 5]);
    }
    mc::step();
    Model m;
    switch (kind)
    {
    case 0: model_put(m, "a", "1"); break;
    case 1: model_put(m, "a.b", "7"); break;
    case 2: m["a"] = "x"; m["a.b"] = "7"; break;
    case 3: model_put(m, "b", "p=q"); break;
    case 4: model_put(m, "a.b.c", "-3"); break;
    }
    bool threw = false;
    try
    {
        SettingsManager sm(path);
        if (kind < 5) compare(sm, m, "after reading xml");
    }
    catch (const std::runtime_error&) { threw = true; }
    unlink(path.c_str());
    if (kind == 9) MC_CHECK(threw, "a missing configuration file was accepted");
    if (kind < 5) MC_CHECK(!threw, "a well-formed configuration file was refused");
    if (kind == 5) MC_CHECK(threw, "a malformed configuration file was accepted");
    mc::outcome(mc::mix(kind, threw));
}
}

int main(int argc, char** argv)
{
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    mc::describe("all command lines up to the stated length over 13 arguments, all put sequences over 4 paths x 5 values, "
                 "all pairs of trees over 7 node positions; distinct when the resulting settings differ");
    int n = t ? 4 : 3;
    mc::add("command line", "up to " + std::to_string(n) + " of 13 arguments", [n] { command_line(n); });
    mc::add("flags", "up to 3 arguments", flags);
    mc::add("put and get", t ? "4 puts" : "3 puts", [t] { put_sequences(t ? 4 : 3); });
    mc::add("many settings", "10-600 settings, 4 shapes of paths, command line or put, put again", many_settings);
    mc::add("typed round trip", "9 doubles, 5 ints, bools", typed_round_trip);
    mc::add("merge", "pairs of trees over 7 node positions x {absent, empty, data}", merge_trees);
    mc::add("xml", "10 documents", xml_files);
    return mc::run(argc, argv);
}
