// Helpers for the workloads over reconstruction and flow solvers: drawn settings, reference values by cell identity.
#pragma once
#include "mesh.hpp"
#include "CFV/VariationalReconstruction.hpp"
namespace CF
{
    using namespace DNDS;
    using namespace DNDS::Geom;
    using namespace W;
    using DNDS::index;
    // values of one run on one rank that holds all cells; the runs on several ranks have to give the same
    struct Ref
    {
        std::map<std::string, std::vector<std::vector<double>>> q; // quantity, cell, entries
        std::map<std::string, double> scale;
        bool done = false, exact = false;
        double cond = 1;
    };
    struct Cmp
    {
        Ref &R;
        bool ref; // this is the reference run
        const std::vector<int> &cid;
        size_t nOwn, nAll, nCells;
        int me;
        double worst = 0;
        std::string worstOf;
        template <class F>
        void cells(const std::string &name, size_t n, F f, double tol = 1e-9, const char *scaleOf = nullptr, double floor = 1e-3)
        {
            if (ref)
            {
                auto &v = R.q[name];
                v.assign(nCells, {});
                double mx = 0;
                for (size_t i = 0; i < nOwn; i++)
                {
                    auto a = f(index(i));
                    auto &w = v[cid[i]];
                    w.assign(a.data(), a.data() + a.size());
                    for (double x : w)
                    {
                        if (!std::isfinite(x))
                            sim_fail("not-finite", "%s of cell %d is %g on one rank", name.c_str(), cid[i], x);
                        mx = std::max(mx, std::abs(x));
                    }
                }
                R.scale[name] = mx;
                return;
            }
            auto &v = R.q.at(name);
            double sc = R.scale.at(name);
            sc = std::max(sc, floor);
            if (scaleOf)
                sc = std::max(sc, R.scale.at(scaleOf));
            for (size_t i = 0; i < n; i++)
            {
                auto a = f(index(i));
                auto &w = v[cid[i]];
                if (size_t(a.size()) != w.size())
                    sim_fail("differs", "rank %d: %s of cell %d has %zu entries, %zu on one rank", me, name.c_str(), cid[i], size_t(a.size()), w.size());
                for (size_t k = 0; k < w.size(); k++)
                {
                    double d = std::abs(a.data()[k] - w[k]);
                    if (!(d <= tol * sc))
                        sim_fail("differs", "rank %d: %s of %s cell %d entry %zu is %.15g, on one rank %.15g (largest value %g)", me, name.c_str(), i < nOwn ? "owned" : "ghost", cid[i], k, a.data()[k], w[k], sc);
                    if (sc > 0 && d / sc / tol > worst)
                        worst = d / sc / tol, worstOf = name;
                }
            }
        }
        void scalar(const std::string &name, double x, double tol = 1e-9)
        {
            if (ref)
            {
                R.q[name] = {{x}};
                return;
            }
            double y = R.q.at(name)[0][0];
            if (!(std::abs(x - y) <= tol * std::max(std::abs(x), std::abs(y))))
                sim_fail("differs", "rank %d: %s is %.15g, on one rank %.15g", me, name.c_str(), x, y);
        }
    };
    inline double rnd01(uint64_t a, uint64_t b, uint64_t c = 0)
    {
        return double(hmix(hmix(a, b), c) >> 11) / 9007199254740992.0;
    }
    inline double rnd1(uint64_t a, uint64_t b, uint64_t c = 0) { return 2 * rnd01(a, b, c) - 1; }
    // settings of the reconstruction a user can select
    inline void drawVR(CFV::VRSettings &s, int dim)
    {
        auto &f = s.functionalSettings;
        using F = CFV::VRSettings::FunctionalSettings;
        s.maxOrder = 1 + int(P(3));
        s.intOrder = std::array<int, 3>{3, 5, 1}[P(3)];
        if (s.intOrder == 1 && s.maxOrder > 1)
            s.intOrder = 3;
        s.intOrderVR = PB(30) ? std::array<int, 3>{5, 3, 1}[P(3)] : -1;
        s.cacheDiffBase = PB(50);
        int nd = dim == 2 ? (s.maxOrder + 1) * (s.maxOrder + 2) / 2 : (s.maxOrder + 1) * (s.maxOrder + 2) * (s.maxOrder + 3) / 6;
        s.cacheDiffBaseSize = PB(30) ? uint8_t(nd) : PB(30) ? uint8_t(1) : uint8_t(dim + 1);
        s.jacobiRelax = PB(40) ? 0.5 + 0.25 * P(4) : 1.0;
        s.SORInstead = false;
        s.subs2ndOrder = PB(30) ? std::array<int, 3>{1, 2, 11}[P(3)] : 0;
        s.subs2ndOrderGGScheme = PB(30) ? 0 : 1;
        s.smoothThreshold = std::array<double, 4>{0.01, 0, 1e100, 0.3}[P(4)];
        s.limiterBiwayAlter = PB(50) ? std::array<int, 4>{1, 2, 3, 4}[P(4)] : 0;
        s.WBAP_nStd = PB(30) ? 5 : 10;
        s.svdTolerance = PB(15) ? 1e-12 : 0;
        s.nIterCellSmoothScale = int(P(4)) * 5;
        s.bcWeight = PB(25) ? 0.5 : 1;
        s.baseSettings.localOrientation = PB(40);
        s.baseSettings.anisotropicLengths = PB(40);
        f.scaleType = PB(40) ? F::MeanAACBB : F::BaryDiff;
        f.scaleMultiplier = PB(30) ? 0.5 : 1;
        f.dirWeightScheme = std::array<F::DirWeightScheme, 4>{F::Factorial, F::HQM_OPT, F::ManualDirWeight, F::TEST_OPT}[P(4)];
        f.geomWeightScheme = std::array<F::GeomWeightScheme, 3>{F::GWNone, F::HQM_SD, F::SD_Power}[P(3)];
        f.geomWeightBias = PB(30) ? 0.5 : 0;
        f.geomWeightPower1 = PB(30) ? 0.5 : 0, f.geomWeightPower2 = PB(30) ? -0.5 : 0;
        f.useAnisotropicFunctional = PB(30);
        f.tanWeightScale = PB(30) ? 0.5 : 1;
        f.anisotropicType = PB(30) ? F::InertiaCoordBB : F::InertiaCoord;
        if (PB(20))
        {
            f.greenGauss1Weight = 0.5;
            f.greenGauss1Bias = PB(30) ? 0.3 : 0.5;
            f.greenGauss1Penalty = PB(30) ? 0.1 : 0;
            f.greenGaussSpacial = int(P(2));
        }
    }
}
