// C02: the Random facility under every answer of the underlying generator (from
// an alphabet that contains both ends of its range).
#include "mc.h"
#include "env.h"
#include <k52/common/random.h>
#include <cstdlib>
#include <limits>
#include <set>
#include <map>
#include <cmath>

using k52::common::Random;

namespace
{
const int kDraws[] = { 0, 1, 2, 3, 12345, 0x2AAAAAAA, RAND_MAX / 2, RAND_MAX / 2 + 1, RAND_MAX - 2, RAND_MAX - 1, RAND_MAX };
const int kDrawCount = sizeof(kDraws) / sizeof(*kDraws);

void base_quantity()
{
    env::reset();
    int i = mc::choose(kDrawCount, "draw");
    env::set_rand([i] { return kDraws[i]; });
    double x = Random::Instance().GetBaseRandomQuantity();
    mc::step();
    MC_TRACE("draw " << kDraws[i] << " -> " << x);
    MC_CHECK(x >= 0 && x <= 1, "the base quantity for draw " << kDraws[i] << " is " << x);
    // uniform: proportional to the draw
    MC_CHECK(std::fabs(x - kDraws[i] / (double)RAND_MAX) < 1e-6, "the base quantity for draw " << kDraws[i] << " is " << x);
    mc::state(mc::mix(1, i));
    mc::outcome(mc::hash_double(x));
}

const double kBounds[] = { -1e9, -1234.5, -3, -1, -0.7, -0.3, -0.1, -1e-9, 0, 1e-9, 0.1, 0.2, 0.3, 0.7, 1, 1. / 3, 2.5, 3, 10.1, 1234.5, 1e9, 12345678.9, 5e-324, 1e-310 };
const int kBoundCount = sizeof(kBounds) / sizeof(*kBounds);

void continuous_quantity()
{
    env::reset();
    int a = mc::choose(kBoundCount, "min"), b = mc::choose(kBoundCount, "max");
    double lo = std::min(kBounds[a], kBounds[b]), hi = std::max(kBounds[a], kBounds[b]);
    int i = mc::choose(kDrawCount + 40, "draw");
    int draw = i < kDrawCount ? kDraws[i] : (int)((i - kDrawCount) * (RAND_MAX / 41.) + 17);
    int count = 0;
    env::set_rand([draw, &count] { count++; return draw; });
    double x = Random::Instance().GetContinuousRandomQuantity(lo, hi);
    mc::step();
    MC_TRACE("[" << lo << ", " << hi << "] draw " << draw << " -> " << x);
    MC_CHECK(x >= lo && x <= hi, "the quantity on [" << lo << ", " << hi << "] for draw " << draw << " is " << x);
    double expected = lo + (hi - lo) * (draw / (double)RAND_MAX);
    MC_CHECK(std::fabs(x - expected) <= 1e-6 * (hi - lo) + 1e-12 * (std::fabs(lo) + std::fabs(hi)) + 1e-323, "the quantity on [" << lo << ", " << hi << "] for draw "
             << draw << " is " << x << ", uniform would be " << expected);
    mc::state(mc::hash_double(lo, mc::hash_double(hi, draw)));
    mc::outcome(mc::hash_double(x));
}

void random_vector()
{
    env::reset();
    int size = mc::choose(5, "size");
    std::vector<int> draws;
    env::set_rand([&draws] { int d = kDraws[mc::choose(4, "draw") * 3 + 1]; draws.push_back(d); return d; });
    std::vector<double> v = Random::Instance().GenerateRandomVector(size, -2, 3);
    mc::step();
    MC_CHECK((int)v.size() == size, "a vector of " << size << " has " << v.size() << " elements");
    // every component is drawn on its own
    MC_CHECK((int)draws.size() >= size, "a vector of " << size << " used " << draws.size() << " draws");
    for (int i = 0; i < size; ++i)
    {
        MC_CHECK(v[i] >= -2 && v[i] <= 3, "component " << i << " is " << v[i]);
        if ((int)draws.size() == size)
        {
            double expected = -2 + 5 * (draws[i] / (double)RAND_MAX);
            MC_CHECK(std::fabs(v[i] - expected) < 1e-6, "component " << i << " is " << v[i] << ", drawn " << expected);
        }
    }
    mc::state(mc::hash_bytes(draws.data(), draws.size() * sizeof(int), size));
    mc::outcome(mc::hash_doubles(v));
}

void discrete_ranges()
{
    env::reset();
    static const int lows[] = { -5, -1, 0, 1, 7, 1000, -1000000, 2147483640, (-2147483647 - 1) };
    static const int sizes[] = { 1, 2, 3, 4, 5, 7, 8 };
    int lo = lows[mc::choose(9, "min")];
    int n = sizes[mc::choose(7, "size")];
    int hi = lo + (n - 1);
    // Every residue class and both ends of the generator's range.
    std::map<int, int> seen;
    const int kRuns = n * 840;
    for (int k = 0; k < kRuns; ++k)
    {
        // an even cover of the generator's range that also covers all residues mod n
        int draw = (int)(((long long)k * RAND_MAX) / kRuns);
        draw = draw - draw % n + k % n;
        if (draw < 0) draw = 0;
        env::set_rand([draw] { return draw; });
        int x = Random::Instance().GetUniformlyDistributedDiscreteRandomQuantity(lo, hi);
        mc::step();
        MC_CHECK(x >= lo && x <= hi, "on [" << lo << ", " << hi << "] draw " << draw << " gave " << x);
        seen[x]++;
    }
    static const int ends[] = { 0, 1, RAND_MAX - 1, RAND_MAX };
    for (int k = 0; k < 4; ++k)
    {
        env::set_rand([k] { return ends[k]; });
        int x = Random::Instance().GetUniformlyDistributedDiscreteRandomQuantity(lo, hi);
        MC_CHECK(x >= lo && x <= hi, "on [" << lo << ", " << hi << "] draw " << ends[k] << " gave " << x);
    }
    for (int v = 0; v < n; ++v)
    {
        int c = seen[lo + v];
        MC_CHECK(std::abs(c - 840) <= 42, "value " << lo + v << " of [" << lo << ", " << hi << "] was drawn " << c << " times of " << kRuns);
    }
    mc::state(mc::mix(mc::mix(3, lo), n));
    mc::outcome(mc::mix(lo, n));
}

void wide_ranges()
{
    env::reset();
    static const int pairs[][2] = { { 0, 2147483646 }, { -1000000000, 1000000000 }, { -2147483647, -1 }, { 0, 1 << 30 }, { -5, 2147483600 },
        { 0, 2147483647 }, { -2147483647 - 1, -1 }, { -1, 2147483647 }, { -2000000000, 2000000000 }, { -2147483647 - 1, 2147483647 } };
    int i = mc::choose(10, "range");
    int j = mc::choose(kDrawCount, "draw");
    env::set_rand([j] { return kDraws[j]; });
    int x = Random::Instance().GetUniformlyDistributedDiscreteRandomQuantity(pairs[i][0], pairs[i][1]);
    mc::step();
    MC_CHECK(x >= pairs[i][0] && x <= pairs[i][1], "on [" << pairs[i][0] << ", " << pairs[i][1] << "] draw " << kDraws[j] << " gave " << x);
    mc::state(mc::mix(mc::mix(4, i), j));
    mc::outcome(mc::mix(i, x));
}

// Ranges with more values than the generator has answers: over an even cover
// of the answers of successive calls each part of the range is reached.
void wide_parts()
{
    env::reset();
    static const int pairs[][2] = { { 0, 2147483647 }, { -2147483647 - 1, -1 }, { -1, 2147483647 }, { -1000000000, 1500000000 }, { -2000000000, 2000000000 },
        { -2147483647 - 1, 2147483647 } };
    int i = mc::choose(6, "range");
    const int lo = pairs[i][0], hi = pairs[i][1], kParts = 8, kCover = 97;
    int hits[kParts] = { 0 };
    for (int a = 0; a < kCover; ++a)
        for (int b = 0; b < kCover; ++b)
        {
            int k = 0;
            env::set_rand([&] {
                int cell = k == 0 ? a : k == 1 ? b : 13;
                int inside = k == 0 ? b : a; // the lower bits vary, too
                k++;
                return (int)std::min<long long>(RAND_MAX, (long long)cell * RAND_MAX / (kCover - 1) / 2 * 2 + inside % 2);
            });
            int x = Random::Instance().GetUniformlyDistributedDiscreteRandomQuantity(lo, hi);
            mc::step();
            MC_CHECK(x >= lo && x <= hi, "on [" << lo << ", " << hi << "] a draw gave " << x);
            hits[((long long)x - lo) * kParts / ((long long)hi - lo + 1)]++;
        }
    for (int p = 0; p < kParts; ++p)
        MC_CHECK(hits[p] > 0, "no draws give a value of part " << p << " of " << kParts << " of [" << lo << ", " << hi << "]");
    mc::state(mc::mix(44, i));
    mc::outcome(mc::mix(44, i));
}

// The first `calls` booleans when the generator answers draw(k) at its k-th call.
std::vector<bool> booleans(int calls, const std::function<int(int)>& draw, int* draws_used = 0)
{
    env::reset();
    env::reset_random();
    int k = 0;
    env::set_rand([&k, &draw] { return draw(k++); });
    std::vector<bool> out;
    for (int i = 0; i < calls; ++i) { out.push_back(Random::Instance().GetRandomBool()); mc::step(); }
    env::reset();
    if (draws_used) *draws_used = k;
    return out;
}

// Each boolean is determined by the generator's bits; over all (equally likely)
// answers it is true half of the time, and no boolean repeats another's bits.
void boolean_bits()
{
    const int kCalls = 70;
    int used = 0;
    int variant = mc::choose(5, "base pattern");
    static const int patterns[] = { 0, 0x55555555, 0x0F0F3333, 0x12345678, 0x7ffffffe };
    int base = patterns[variant];
    std::vector<bool> zero = booleans(kCalls, [base](int) { return base; }, &used);
    std::vector<bool> ones = booleans(kCalls, [base](int) { return base ^ RAND_MAX; });
    MC_TRACE("pattern " << base << ": " << mc::show(zero) << ", complement: " << mc::show(ones));
    for (int i = 0; i < kCalls; ++i)
        MC_CHECK(zero[i] != ones[i], "boolean number " << i << " is " << zero[i]
                 << " both for the generator answers " << base << " and their complement: it is not fair");
    // which bit of which draw decides boolean i
    std::vector<std::set<std::pair<int, int> > > deps(kCalls);
    for (int d = 0; d < used; ++d)
        for (int bit = 0; bit < 31; ++bit)
        {
            std::vector<bool> flipped = booleans(kCalls, [=](int k) { return k == d ? base ^ (1 << bit) : base; });
            for (int i = 0; i < kCalls; ++i) if (flipped[i] != zero[i]) deps[i].insert(std::make_pair(d, bit));
        }
    for (int i = 0; i < kCalls; ++i)
        for (int j = 0; j < i; ++j)
            MC_CHECK(deps[i].empty() || deps[i] != deps[j], "booleans number " << j << " and " << i
                     << " are decided by the same random bits: they are always equal or always different");
    uint64_t h = 0;
    for (int i = 0; i < kCalls; ++i) mc::state(h = mc::mix(h, zero[i]));
    mc::outcome(h);
}

void event_outcomes()
{
    env::reset();
    static const double ps[] = { 0, 1e-12, 1e-6, 0.1, 0.25, 1. / 3, 0.5, 0.75, 0.9, 1 - 1e-6, 1 };
    double p = ps[mc::choose(11, "probability")];
    const int M = 2000;
    int happened = 0;
    bool was = true;
    for (int k = 0; k <= M; ++k)
    {
        int draw = k == M ? RAND_MAX : (int)((double)RAND_MAX * k / M);
        env::set_rand([draw] { return draw; });
        bool x = Random::Instance().CheckEventOutcome(p);
        mc::step();
        if (p == 0) MC_CHECK(!x, "an event of probability 0 happened for draw " << draw);
        if (p == 1) MC_CHECK(x, "an event of probability 1 did not happen for draw " << draw);
        happened += x;
        (void)was;
    }
    MC_CHECK(std::fabs(happened / (M + 1.) - p) < 3. / M, "an event of probability " << p << " happened for "
             << happened << " of " << M + 1 << " evenly spread draws");
    mc::outcome(mc::mix(mc::hash_double(p), happened));
}

void invalid_probabilities()
{
    env::reset();
    static const double ps[] = { -1, -0.001, -1e-12, 1 + 1e-12, 1.5, 1e300, -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::infinity(), 0, 0.5, 1 };
    double p = ps[mc::choose(11, "probability")];
    bool threw1 = false, threw2 = false;
    try { Random::ValidateProbability(p); } catch (const std::invalid_argument&) { threw1 = true; }
    try { Random::Instance().CheckEventOutcome(p); } catch (const std::invalid_argument&) { threw2 = true; }
    mc::step(2);
    bool valid = p >= 0 && p <= 1;
    MC_CHECK(threw1 != valid, "ValidateProbability(" << p << ") " << (threw1 ? "threw" : "accepted"));
    MC_CHECK(threw2 != valid, "CheckEventOutcome(" << p << ") " << (threw2 ? "threw" : "accepted"));
    mc::outcome(mc::mix(threw1, mc::hash_double(p)));
}
}

int main(int argc, char** argv)
{
    mc::describe("every Random operation under every generator answer of an alphabet that includes both ends, both "
                 "halves and all residues/bits; executions are distinct when the returned values differ");
    mc::add("base quantity", "11 draws", base_quantity);
    mc::add("continuous quantity", "24x24 bounds x 51 draws", continuous_quantity);
    mc::add("random vector", "sizes 0..4, 4 draws per component", random_vector);
    mc::add("discrete quantity", "9 lower bounds x 7 sizes x all residues", discrete_ranges);
    mc::add("discrete quantity, wide ranges", "10 ranges x 11 draws", wide_ranges);
    mc::add("discrete quantity, parts of wide ranges", "6 ranges, 97 x 97 pairs of draws", wide_parts);
    mc::add("booleans", "70 consecutive booleans, every bit of every draw flipped, 5 base patterns", boolean_bits);
    mc::add("event outcome", "11 probabilities x 2001 draws", event_outcomes);
    mc::add("invalid probability", "11 values", invalid_probabilities);
    return mc::run(argc, argv);
}
