// Helpers shared by the harnesses of the optimization module.
#pragma once
#include <k52/optimization/params/i_discrete_parameters.h>
#include <vector>

namespace util
{
using k52::optimization::ChromosomeType;

inline ChromosomeType code(unsigned long long c, size_t bits)
{
    ChromosomeType r(bits);
    for (size_t i = 0; i < bits; ++i) r[i] = (c >> i) & 1;
    return r;
}
inline ChromosomeType encode(const k52::optimization::IConvertableToChromosome& p)
{
    ChromosomeType r(p.GetChromosomeSize());
    p.SetChromosome(r.begin(), r.end());
    return r;
}
inline void decode(k52::optimization::IConvertableToChromosome& p, const ChromosomeType& c)
{
    p.SetFromChromosome(c.begin(), c.end());
}
}
