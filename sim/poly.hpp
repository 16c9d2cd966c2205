#pragma once
#include "refec.hpp"
#include <vector>
namespace poly
{
typedef std::pair<mpz_class, mpz_class> Sh;
inline const mpz_class& N() { return ref::p256().n; }
// coefficients of the interpolating polynomial of the given points
inline std::vector<mpz_class> interpolate(const std::vector<Sh>& p)
{
    size_t k = p.size();
    std::vector<mpz_class> c(k, 0);
    for (size_t i = 0; i < k; i++)
    {
        std::vector<mpz_class> num(1, 1);
        mpz_class den = 1;
        for (size_t j = 0; j < k; j++)
        {
            if (j == i) continue;
            std::vector<mpz_class> nx(num.size() + 1, 0);
            for (size_t m = 0; m < num.size(); m++)
            {
                nx[m + 1] = ref::mod(nx[m + 1] + num[m], N());
                nx[m] = ref::mod(nx[m] - num[m] * p[j].first, N());
            }
            num = nx;
            den = ref::mod(den * (p[i].first - p[j].first), N());
        }
        mpz_class f = ref::mod(p[i].second * ref::inv(den, N()), N());
        for (size_t m = 0; m < k; m++) c[m] = ref::mod(c[m] + num[m] * f, N());
    }
    return c;
}

}
