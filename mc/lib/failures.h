// A failure at any moment of an operation: the k-th call of the user's code
// (failures.h: failures::user_point) or the k-th allocation fails.  Included by
// exactly one translation unit of a harness (it defines operator new).
#pragma once
#include "mc.h"
#include "env.h"
#include <cstdlib>
#include <functional>
#include <memory>
#include <new>

namespace failures
{
enum Kind { kUserCode, kAllocation };

enum { kNoFill = -1, kCounter = 256 };      // kCounter: every byte another value
inline void fill_with(char* p, size_t size, int content)
{
    for (size_t i = 0; i < size; ++i) p[i] = content == kCounter ? 0x35 + 0x4d * i : content;
}

struct State
{
    bool armed = false, fired = false;
    Kind kind = kUserCode;
    long at = -1, seen = 0;
    bool counting = false;      // blocks allocated now are counted
    long live = 0;
    int fill = kNoFill;         // what newly allocated memory contains
    long filled = 0, odd = -1;  // block `odd` contains 0xff instead
};
inline State& state() { static State s; return s; }

// thrown by the user's code
struct UserError
{
    long number;
    std::string text;
    UserError(long n, const char* t) : number(n), text(t) {}
};

// to be called by every callback of the user
inline void user_point(const char* what)
{
    State& s = state();
    if (!s.armed || s.kind != kUserCode) return;
    if (s.seen++ == s.at)
    {
        s.fired = true;
        s.armed = false;
        MC_TRACE("fails: " << what);
        UserError e(4711 + s.at, what);
        s.armed = true;
        throw e;
    }
}

// harness code which allocates inside of an operation
struct Pause
{
    bool armed, counting;
    Pause() : armed(state().armed), counting(state().counting) { state().armed = state().counting = false; }
    ~Pause() { state().armed = armed; state().counting = counting; }
};

const size_t kHeader = 16;
// whether this allocation fails
inline bool out_of_memory(const char* what, size_t size)
{
    State& s = state();
    if (!s.armed || s.kind != kAllocation || s.seen++ != s.at) return false;
    s.fired = true;
    if (mc::tracing()) { s.armed = false; MC_TRACE(what << " of " << size << " bytes fails"); s.armed = true; }
    return true;
}
inline void* take(size_t size, bool may_throw)
{
    State& s = state();
    if (out_of_memory("allocation", size)) { if (may_throw) throw std::bad_alloc(); return 0; }
    char* p = static_cast<char*>(std::malloc(size + kHeader));
    if (!p) { if (may_throw) throw std::bad_alloc(); return 0; }
    *reinterpret_cast<long*>(p) = s.counting;
    if (s.counting) s.live++;
    if (s.fill != kNoFill) fill_with(p + kHeader, size, s.filled++ == s.odd ? 0xff : s.fill);
    return p + kHeader;
}
inline void give_back(void* q)
{
    if (!q) return;
    char* p = static_cast<char*>(q) - kHeader;
    if (*reinterpret_cast<long*>(p)) state().live--;
    std::free(p);
}
}

void* operator new(size_t n) { return failures::take(n, true); }
void* operator new[](size_t n) { return failures::take(n, true); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return failures::take(n, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return failures::take(n, false); }
void operator delete(void* p) noexcept { failures::give_back(p); }
void operator delete[](void* p) noexcept { failures::give_back(p); }
void operator delete(void* p, size_t) noexcept { failures::give_back(p); }
void operator delete[](void* p, size_t) noexcept { failures::give_back(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { failures::give_back(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { failures::give_back(p); }
