// Reference definitions (long double) for the signal-processing harnesses.
#pragma once
#include "mc.h"
#include <cmath>
#include <complex>
#include <string>
#include <vector>

namespace ref
{
typedef std::complex<double> C;
typedef std::vector<C> Seq;
typedef std::complex<long double> LC;
typedef std::vector<LC> LSeq;

inline LC w(long long k, long long n)
{
    const long double pi = 3.14159265358979323846264338327950288L;
    long long r = ((k % n) + n) % n;
    long double a = -2 * pi * (long double)r / (long double)n;
    return LC(std::cos(a), std::sin(a));
}
inline LSeq wide(const Seq& x)
{
    LSeq r(x.size());
    for (size_t i = 0; i < x.size(); ++i) r[i] = LC(x[i].real(), x[i].imag());
    return r;
}
inline LSeq dft(const LSeq& x)
{
    const size_t N = x.size();
    LSeq r(N), t(N);
    for (size_t k = 0; k < N; ++k) t[k] = w(k, N);
    for (size_t k = 0; k < N; ++k)
        for (size_t n = 0, a = 0; n < N; ++n, a = (a + k) % N)
            if (x[n] != LC()) r[k] += LC(x[n].real() * t[a].real() - x[n].imag() * t[a].imag(), x[n].real() * t[a].imag() + x[n].imag() * t[a].real());
    return r;
}
inline LSeq idft(const LSeq& x)
{
    LSeq y(x);
    for (size_t k = 0; k < y.size(); ++k) y[k] = std::conj(y[k]);
    y = dft(y);
    for (size_t k = 0; k < y.size(); ++k) y[k] = std::conj(y[k]) / (long double)x.size();
    return y;
}
inline LSeq convolution(const LSeq& a, const LSeq& b)
{
    size_t N = a.size();
    LSeq r(N);
    for (size_t n = 0; n < N; ++n)
        for (size_t m = 0; m < N; ++m) r[n] += a[m] * b[(n + N - m) % N];
    return r;
}
inline long double norm1(const LSeq& x)
{
    long double s = 0;
    for (size_t i = 0; i < x.size(); ++i) s += std::abs(x[i]);
    return s;
}
inline std::string show(const Seq& x)
{
    std::string s = "[";
    for (size_t i = 0; i < x.size(); ++i)
        s += (i ? ", " : "") + mc::show(x[i].real()) + (x[i].imag() != 0 ? "+" + mc::show(x[i].imag()) + "i" : "");
    return s + "]";
}
inline std::string show(const LSeq& x)
{
    Seq y(x.size());
    for (size_t i = 0; i < x.size(); ++i) y[i] = C((double)x[i].real(), (double)x[i].imag());
    return show(y);
}
/// Numerically equal: within `tolerance` (absolute), and not NaN.
inline void compare(const Seq& got, const LSeq& expected, long double tolerance, const std::string& what)
{
    mc::step();
    MC_CHECK(got.size() == expected.size(), what << " has " << got.size() << " elements instead of " << expected.size());
    for (size_t i = 0; i < got.size(); ++i)
    {
        long double d = std::abs(LC(got[i].real(), got[i].imag()) - expected[i]);
        MC_CHECK(d <= tolerance, what << " is " << show(got) << ", expected " << show(expected) << " (element " << i << ")");
    }
}
/// Hash of a result, insensitive to rounding.
inline uint64_t hash(const LSeq& x, uint64_t h = 11)
{
    long double scale = 0;
    for (size_t i = 0; i < x.size(); ++i) scale = std::max(scale, std::abs(x[i]));
    if (!(scale > 0)) scale = 1;
    for (size_t i = 0; i < x.size(); ++i)
    {
        h = mc::mix(h, (uint64_t)std::llround(x[i].real() / scale * 1e5L));
        h = mc::mix(h, (uint64_t)std::llround(x[i].imag() / scale * 1e5L));
    }
    return mc::mix(mc::hash_double((double)(float)scale, h), x.size());
}
/// Any sequence of length n over the alphabet.
inline Seq any(int n, const std::vector<C>& alphabet, const char* label = "element")
{
    Seq x(n);
    for (int i = 0; i < n; ++i) x[i] = alphabet[mc::choose((int)alphabet.size(), label)];
    return x;
}
/// A dense sequence without symmetries (kind selects one of several).
inline Seq dense(int n, int kind)
{
    Seq x(n);
    for (int i = 0; i < n; ++i)
        x[i] = C(std::cos(1.0 + 0.7 * i * (kind + 1)) * (1 + kind), std::sin(0.3 + 1.3 * i) - 0.25 * kind);
    return x;
}
/// An impulse at any position, of any of several heights.
inline Seq impulse(int n, const char* label = "impulse at")
{
    static const C heights[] = { C(1, 0), C(0, 1), C(-3, 0), C(1e8, 0), C(0, -1e-8), C(1e150, 1e150), C(-1e-13, 1e-100) };
    Seq x(n);
    x[mc::choose(n, label)] = heights[mc::choose(7, "height")];
    return x;
}
}
