// Helpers shared by the workloads.
#pragma once
#include "simapi.h"
#include <vector>
#include <string>
#include <algorithm>
#include <numeric>
#include <cstring>
#include <cstdio>
#include <cstdarg>
#include <cmath>
#include <map>
#include <set>
#include <array>
#include <memory>
#include <functional>
namespace W
{
    inline uint32_t P(uint32_t n) { return sim_choose(CH_PLAN, n); } // [0,n), 0 simplest
    inline int PR(int lo, int hi) { return lo + int(P(uint32_t(hi - lo + 1))); }
    inline bool PB(int pct) { return P(100) >= uint32_t(100 - pct); }
    template <class V>
    auto &pick(V &v) { return v[P(uint32_t(v.size()))]; }
    inline uint64_t hmix(uint64_t a, uint64_t b)
    {
        uint64_t z = a * 0x9E3779B97F4A7C15ULL + b + 0x632BE59BD9B4E019ULL;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    inline std::string fmts(const char *f, ...)
    {
        char b[2048];
        va_list ap;
        va_start(ap, f);
        vsnprintf(b, sizeof b, f, ap);
        va_end(ap);
        return b;
    }
    template <class T>
    std::string vstr(const std::vector<T> &v, size_t lim = 24)
    {
        std::string s = "[";
        for (size_t i = 0; i < v.size() && i < lim; i++)
            s += (i ? "," : "") + std::to_string(v[i]);
        return s + (v.size() > lim ? ",...]" : "]");
    }
    // a permutation drawn from the plan
    inline std::vector<int> perm(int n)
    {
        std::vector<int> p(n);
        std::iota(p.begin(), p.end(), 0);
        for (int i = 0; i + 1 < n; i++)
            std::swap(p[i], p[i + P(n - i)]);
        return p;
    }
    // the communication options a user can select through the environment
    struct CommOpts
    {
        int inSitu = 0, strong = 0, oneByOne = 0, lazy = 0;
        void draw()
        {
            inSitu = PB(40), strong = PB(25), oneByOne = PB(30), lazy = PB(25) ? 1 + int(P(3)) * 500 : 0;
        }
        void apply() const
        {
            sim_setenv("DNDS_ARRAY_STRATEGY_USE_IN_SITU", inSitu ? "1" : "0");
            sim_setenv("DNDS_USE_STRONG_SYNC_WAIT", strong ? "1" : "0");
            sim_setenv("DNDS_USE_ASYNC_ONE_BY_ONE", oneByOne ? "1" : "0");
            sim_setenv("DNDS_USE_LAZY_WAIT", std::to_string(lazy).c_str());
            if (inSitu)
                sim_probe("opt:in_situ_pack");
            if (strong)
                sim_probe("opt:strong_sync");
            if (oneByOne)
                sim_probe("opt:one_by_one");
            if (lazy)
                sim_probe("opt:lazy_wait");
        }
        std::string str() const { return fmts("inSitu=%d strong=%d oneByOne=%d lazy=%d", inSitu, strong, oneByOne, lazy); }
    };
}
