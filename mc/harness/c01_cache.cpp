// C01: every operation sequence on the real Cache against a reference model.
#include "mc.h"
#include <k52/common/cache.h>
#include <map>
#include <set>

typedef k52::common::Cache<int, std::string> TestCache;

namespace
{
const int kKeys = 3;

struct Entry { bool has; std::string value; bool used; };

enum LimitKind { kTiny, kOne, kTwo, kHuge };

// The library decides how many bytes an entry takes; the number of entries a
// given limit allows is measured on a fresh cache.
int measure_capacity_now(double megabytes)
{
    TestCache::shared_ptr cache = TestCache::Create(megabytes);
    for (int n = 1; n <= 64; ++n)
    {
        cache->AddValue(1000 + n, "x");
        int held = 0;
        for (int k = 1; k <= n; ++k) if (cache->IsCached(1000 + k)) held++;
        if (held < n) return n - 1;
        // IsCached of present keys adds nothing
    }
    return 1 << 20;
}

int measure_capacity(double megabytes)
{
    static std::map<double, int> known;
    if (!known.count(megabytes)) known[megabytes] = measure_capacity_now(megabytes);
    return known[megabytes];
}

double limit_megabytes(int kind)
{
    // about the size of one entry, in megabytes
    double entry = (sizeof(int) + sizeof(TestCache::cache_map_type::value_type)) / 1048576.;
    switch (kind)
    {
    case kTiny: return 1e-9;
    case kOne: return entry * 1.5;
    case kTwo: return entry * 2.5;
    default: return 10;
    }
}

const char* kKindName[] = { "smaller than one entry", "about 1.5 entries", "about 2.5 entries", "10 MB" };

void body(int depth)
{
    int kind = mc::choose(4, "limit");
    double megabytes = limit_megabytes(kind);
    int capacity = measure_capacity(megabytes);
    TestCache::shared_ptr cache = TestCache::Create(megabytes);
    MC_CHECK(cache, "no cache was created for the positive limit " << megabytes);
    MC_TRACE("limit: " << kKindName[kind] << " (measured: " << capacity << " entries)");
    std::map<int, Entry> model; // key -> what must / may be there
    int fresh = 0;
    uint64_t outcome = kind;
    for (int d = 0; d < depth; ++d)
    {
        // 0: stop; 1..3 IsCached; 4..6 Get; 7..9 Add; 10..12 AddValues
        int op = mc::choose(13, "operation");
        if (op == 0) break;
        mc::step();
        if (op <= kKeys)
        {
            int key = op;
            bool cached = cache->IsCached(key);
            bool expected = model.count(key) && model[key].has;
            MC_TRACE("IsCached(" << key << ") = " << cached);
            MC_CHECK(cached == expected, "IsCached(" << key << ") = " << cached << ", expected " << expected);
            outcome = mc::mix(outcome, op * 2 + cached);
        }
        else if (op <= 2 * kKeys)
        {
            int key = op - kKeys;
            bool expected = model.count(key) && model[key].has;
            std::string got;
            bool threw = false;
            try { got = cache->GetCachedValue(key); }
            catch (const std::runtime_error&) { threw = true; }
            MC_TRACE("GetCachedValue(" << key << ") = " << (threw ? "throws" : got));
            MC_CHECK(threw == !expected, "GetCachedValue(" << key << ") " << (threw ? "threw" : "returned " + got)
                     << " although the key is " << (expected ? "" : "not ") << "cached");
            if (!threw)
            {
                MC_CHECK(got == model[key].value, "GetCachedValue(" << key << ") = " << got
                         << ", last stored " << model[key].value);
                model[key].used = true;
            }
            outcome = mc::mix(outcome, op * 2 + threw);
        }
        else
        {
            std::vector<TestCache::CacheRecord> batch;
            bool single = op <= 3 * kKeys;
            if (single) batch.push_back(TestCache::CacheRecord(op - 2 * kKeys, "v" + std::to_string(++fresh)));
            else if (op == 10) { batch.push_back(TestCache::CacheRecord(1, "v" + std::to_string(++fresh)));
                                 batch.push_back(TestCache::CacheRecord(2, "v" + std::to_string(++fresh))); }
            else if (op == 11) { batch.push_back(TestCache::CacheRecord(2, "v" + std::to_string(++fresh)));
                                 batch.push_back(TestCache::CacheRecord(2, "v" + std::to_string(++fresh))); }
            else if (op == 12) { batch.push_back(TestCache::CacheRecord(3, "v" + std::to_string(++fresh)));
                                 batch.push_back(TestCache::CacheRecord(1, "v" + std::to_string(++fresh)));
                                 batch.push_back(TestCache::CacheRecord(2, "v" + std::to_string(++fresh))); }
            int used = 0, stored = 0;
            for (std::map<int, Entry>::iterator it = model.begin(); it != model.end(); ++it)
            {
                if (it->second.has) stored++;
                if (it->second.has && it->second.used) used++;
            }
            bool threw = false;
            try
            {
                if (single) cache->AddValue(batch[0].key, batch[0].value);
                else cache->AddValues(batch);
            }
            catch (const std::runtime_error&) { threw = true; }
            MC_TRACE((single ? "AddValue" : "AddValues") << " of " << batch.size() << " value(s), first key "
                     << (batch.empty() ? 0 : batch[0].key) << (threw ? ": throws" : ""));
            // The documented way out when values in use already exceed the limit.
            MC_CHECK(!threw || used >= capacity, "storing threw although only " << used
                     << " value(s) are in use and the limit allows " << capacity);
            // Values that were read since they were stored stay; others may go
            // only when the limit is in sight.
            std::set<int> overwritten;
            if (!threw) for (size_t i = 0; i < batch.size(); ++i) overwritten.insert(batch[i].key);
            // Find out what happened to unused entries without disturbing the
            // history: observed on a copy of the history by replaying is not
            // possible here, so the library is asked (asking is an operation of
            // the alphabet, and does not change values).
            for (int key = 1; key <= kKeys; ++key)
            {
                if (overwritten.count(key) || !model.count(key) || !model[key].has) continue;
                if (model[key].used) continue;            // must still be there: checked below
                if (!cache->IsCached(key))
                {
                    MC_CHECK(stored >= capacity, "the unused value of key " << key << " was dropped although only " << stored
                             << " value(s) were stored and the limit allows " << capacity);
                    model[key].has = false;
                }
                else
                {
                    MC_CHECK(kind != kTiny, "the unused value of key " << key
                             << " is still held although one entry exceeds the limit");
                }
            }
            if (!threw)
            {
                for (size_t i = 0; i < batch.size(); ++i)
                {
                    Entry e; e.has = true; e.value = batch[i].value; e.used = false;
                    model[batch[i].key] = e;
                }
            }
            if (kind == kTiny)
            {
                MC_CHECK(threw == (used > 0), "storing " << (threw ? "threw" : "was accepted")
                         << " although " << used << " value(s) in use exceed the limit");
            }
            // everything that must be there is there, with its value (IsCached only: reading
            // would mark it as used)
            int held = 0;
            for (int key = 1; key <= kKeys; ++key)
            {
                bool expected = model.count(key) && model[key].has;
                bool cached = cache->IsCached(key);
                if (cached) held++;
                MC_CHECK(cached == expected, "after storing, key " << key << " is " << (cached ? "" : "not ")
                         << "cached, expected " << (expected ? "" : "not "));
            }
            if (!threw)
                MC_CHECK(held <= capacity - 1 + (int)std::max<size_t>(batch.size(), 1),
                         held << " values are held after storing " << batch.size()
                         << ", the limit allows " << capacity);
            outcome = mc::mix(outcome, op * 2 + threw);
        }
        uint64_t h = kind;
        for (int key = 1; key <= kKeys; ++key)
        {
            bool has = model.count(key) && model[key].has;
            h = mc::mix(h, has ? (model[key].used ? 2 : 1) : 0);
            h = mc::mix(h, has ? mc::hash_string(model[key].value) : 0);
        }
        mc::state(h);
    }
    // final read-back of every key
    for (int key = 1; key <= kKeys; ++key)
    {
        bool expected = model.count(key) && model[key].has;
        mc::step();
        try
        {
            std::string got = cache->GetCachedValue(key);
            MC_CHECK(expected, "key " << key << " reads " << got << " although it is not cached");
            MC_CHECK(got == model[key].value, "key " << key << " reads " << got << ", last stored " << model[key].value);
        }
        catch (const std::runtime_error&)
        {
            MC_CHECK(!expected, "key " << key << " cannot be read although it is cached");
        }
    }
    mc::outcome(outcome);
}

void body_no_questions(int depth)
{
    // Same alphabet without any IsCached call made by the monitor itself: only
    // strict expectations are compared (values never wrong; used values stay).
    int kind = mc::choose(4, "limit");
    double megabytes = limit_megabytes(kind);
    int capacity = measure_capacity(megabytes);
    TestCache::shared_ptr cache = TestCache::Create(megabytes);
    std::map<int, Entry> model;
    int fresh = 0;
    int distinct_touched = 0; std::set<int> touched;
    uint64_t outcome = 77 + kind;
    for (int d = 0; d < depth; ++d)
    {
        int op = mc::choose(10, "operation"); // 0 stop, 1..3 IsCached, 4..6 Get, 7..9 Add
        if (op == 0) break;
        mc::step();
        int key = (op - 1) % 3 + 1;
        if (op <= 3)
        {
            bool cached = cache->IsCached(key);
            MC_TRACE("IsCached(" << key << ") = " << cached);
            touched.insert(key);
            if (model.count(key) && model[key].has && model[key].used)
                MC_CHECK(cached, "the value of key " << key << " was read after it was stored, but was dropped");
            if (!model.count(key)) MC_CHECK(!cached, "key " << key << " is cached but was never stored");
            if (kind == kHuge) MC_CHECK(cached == (model.count(key) != 0), "IsCached(" << key << ") = " << cached);
            if (!cached && model.count(key)) model[key].has = false;
            else if (cached) MC_CHECK(model[key].has, "key " << key << " came back");
            outcome = mc::mix(outcome, op * 2 + cached);
        }
        else if (op <= 6)
        {
            touched.insert(key);
            try
            {
                std::string got = cache->GetCachedValue(key);
                MC_TRACE("GetCachedValue(" << key << ") = " << got);
                MC_CHECK(model.count(key) && model[key].has, "key " << key << " reads " << got << " without a stored value");
                MC_CHECK(got == model[key].value, "key " << key << " reads " << got << ", last stored " << model[key].value);
                model[key].used = true;
                outcome = mc::mix(outcome, op * 2);
            }
            catch (const std::runtime_error&)
            {
                MC_TRACE("GetCachedValue(" << key << ") throws");
                MC_CHECK(!(model.count(key) && model[key].has && (model[key].used || kind == kHuge)),
                         "key " << key << " cannot be read although it must be cached");
                if (model.count(key)) model[key].has = false;
                outcome = mc::mix(outcome, op * 2 + 1);
            }
        }
        else
        {
            Entry e; e.has = true; e.used = false; e.value = "v" + std::to_string(++fresh);
            int used = 0, stored = 0;
            for (std::map<int, Entry>::iterator it = model.begin(); it != model.end(); ++it)
            {
                if (it->second.has) stored++;
                if (it->second.has && it->second.used) used++;
            }
            bool threw = false;
            try { cache->AddValue(key, e.value); touched.insert(key); }
            catch (const std::runtime_error&) { threw = true; }
            MC_TRACE("AddValue(" << key << ", " << e.value << ")" << (threw ? " throws" : ""));
            MC_CHECK(!threw || used >= capacity, "storing threw although only " << used << " value(s) are in use");
            if (!threw)
            {
                model[key] = e;
            }
            outcome = mc::mix(outcome, op * 2 + threw);
        }
        distinct_touched = touched.size();
        // As long as fewer keys than the limit allows were ever touched, nothing may disappear.
        if (distinct_touched < capacity)
        {
            for (std::map<int, Entry>::iterator it = model.begin(); it != model.end(); ++it)
                MC_CHECK(it->second.has, "the value of key " << it->first << " disappeared below the limit");
        }
    }
    mc::outcome(outcome);
}

// Long histories with many keys, in fixed patterns, against the same model.
void long_history(int operations)
{
    static const double entries[] = { 2.5, 10.5, 100.5, 1000.5, 1e9 };
    int kind = mc::choose(5, "limit"), reads = mc::choose(4, "reads"), batch_size = mc::choose(3, "batch"), keys = mc::choose(3, "keys");
    static const int batches[] = { 1, 7, 64 }, numbers[] = { 5, 300, 1 << 20 };
    batch_size = batches[batch_size];
    keys = numbers[keys];
    double entry = (sizeof(int) + sizeof(TestCache::cache_map_type::value_type)) / 1048576.;
    TestCache::shared_ptr cache = TestCache::Create(std::min(entries[kind], 1e7) * entry);
    MC_CHECK(cache, "no cache was created");
    // what the limit allows, less what the library may take for itself
    double fits = entries[kind];
    std::map<int, Entry> model;
    int stored = 0, used = 0;
    uint64_t h = mc::mix(mc::mix(kind, reads), mc::mix(batch_size, keys));
    int key = 0, refused = 0;
    for (int n = 0; n < operations; ++n)
    {
        std::vector<TestCache::CacheRecord> batch;
        for (int i = 0; i < batch_size; ++i)
        {
            key = (key + 1) % keys;
            batch.push_back(TestCache::CacheRecord(key, "v" + std::to_string(n) + "." + std::to_string(i)));
        }
        bool threw = false;
        try
        {
            if (batch_size == 1) cache->AddValue(batch[0].key, batch[0].value);
            else cache->AddValues(batch);
        }
        catch (const std::runtime_error&) { threw = true; refused++; }
        mc::step();
        MC_CHECK(!threw || used + 1 >= fits / 4, "storing threw although only " << used << " values are in use and the limit is about " << fits);
        if (!threw)
            for (const TestCache::CacheRecord& r : batch)
            {
                MC_CHECK(cache->IsCached(r.key), "the value of key " << r.key << " was just stored but is not cached");
                Entry& e = model[r.key];
                if (e.has) { stored--; if (e.used) used--; }
                e.has = true; e.used = false; e.value = r.value;
                stored++;
            }
        // everything that was stored is there with its value, unless it was dropped for lack of space
        bool look = n % 16 == 15 || n + 1 == operations;
        if (look)
        {
            bool dropped = false;
            int held = 0;
            for (auto& m : model)
            {
                if (!m.second.has) { MC_CHECK(!cache->IsCached(m.first), "key " << m.first << " came back"); continue; }
                if (cache->IsCached(m.first)) { held++; continue; }
                MC_CHECK(!m.second.used, "the value of key " << m.first << " was read after it was stored, but was dropped");
                m.second.has = false;
                stored--;
                dropped = true;
            }
            MC_CHECK(!dropped || (int) model.size() >= fits / 4, "values were dropped although only " << model.size() << " were ever stored and the limit is about " << fits);
            MC_CHECK(held <= fits + batch_size + used + 1, held << " values are held, the limit is about " << fits);
            h = mc::mix(h, held);
            mc::state(h);
        }
        // reading: nothing, the newest, each third of the newest, everything twice
        int count = reads == 0 ? 0 : reads == 1 ? (n % 8 == 0) : reads == 2 ? (n % 3 == 0 ? batch_size : 0) : batch_size;
        for (int i = 0; !threw && i < count; ++i)
            for (int twice = 0; twice < (reads == 3 ? 2 : 1); ++twice)
            {
                const TestCache::CacheRecord& r = batch[i];
                std::string got;
                try { got = cache->GetCachedValue(r.key); } catch (const std::runtime_error&) { MC_CHECK(false, "the value of key " << r.key << " was just stored but cannot be read"); }
                Entry& e = model[r.key];
                MC_CHECK(got == e.value, "key " << r.key << " reads " << got << ", last stored " << e.value);
                if (!e.used) { e.used = true; used++; }
            }
    }
    for (auto& m : model)
    {
        std::string got;
        bool threw = false;
        try { got = cache->GetCachedValue(m.first); } catch (const std::runtime_error&) { threw = true; }
        MC_CHECK(threw == !m.second.has && (threw || got == m.second.value), "at the end key " << m.first << (threw ? " cannot be read" : " reads " + got));
    }
    mc::outcome(mc::mix(h, refused));
}

void create_limits()
{
    static const double limits[] = { -1, -1e-300, 0, 1e-300, 1, 1e300 };
    int i = mc::choose(6, "limit");
    TestCache::shared_ptr cache = TestCache::Create(limits[i]);
    mc::step();
    MC_CHECK(bool(cache) == (limits[i] > 0), "Create(" << limits[i] << ") returned " << (cache ? "a cache" : "null"));
    mc::outcome(bool(cache));
}
}

int main(int argc, char** argv)
{
    mc::describe("all operation sequences {IsCached, GetCachedValue, AddValue} x 3 keys and 4 AddValues batches, up "
                 "to the stated length, under 4 memory limits, compared with a reference map after every operation; "
                 "two histories are distinct when an operation answers differently or limits/operations differ");
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    mc::add("create", "6 limits", create_limits);
    mc::add("sequences", std::string("length <= ") + (t ? "6" : "5"), [t] { body(t ? 6 : 5); });
    mc::add("sequences without monitor queries", std::string("length <= ") + (t ? "7" : "5"), [t] { body_no_questions(t ? 7 : 5); });
    mc::add("long histories", "300 (thorough: 2000) operations, 5 limits, 3 sizes of batches, 3 numbers of keys, 4 patterns of reading", [t] { long_history(t ? 2000 : 300); });
    return mc::run(argc, argv);
}
