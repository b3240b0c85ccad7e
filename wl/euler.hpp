// Scenarios of the flow workloads: mesh, partition, settings and boundary conditions a user can select.
#pragma once
#include "cfv.hpp"
#include "Euler/EulerEvaluator.hpp"
#include "DNDS/ExprtkWrapper.hpp"
using namespace CF;
using namespace DNDS::Euler;
// the expression parser is not installed here: initial values by expressions are not used
namespace DNDS
{
    void ExprtkWrapperEvaluator::Compile(const std::string &) { sim_fail("stub", "expression parser"); }
    real ExprtkWrapperEvaluator::Evaluate() { return 0; }
    void ExprtkWrapperEvaluator::Clear() {}
}
namespace
{
    using DNDS::index;
    enum Op
    {
        O_DT,
        O_RHS,
        O_MAT,
        O_BETA,
        O_ALPHA,
        O_NORM,
        O_SMOOTH,
        O_LIMU,
        O_INIT,
        O_AVG,
        O_FIX,
        O_FREE,
        O_CONS,
        O_SOLVE,
        O_BAL,
    };
    const char *opName[] = {"time step", "residual", "operator", "beta", "alpha", "norms", "smoothing", "limiter", "initial", "average", "increment", "free stream", "conservation", "linear solvers", "boundary"};
    // the models of this image
    constexpr EulerModel models[] = {MODELS};
    constexpr int nModels = sizeof(models) / sizeof(models[0]);
    template <class F, size_t... I>
    void onModel(EulerModel m, F f, std::index_sequence<I...>)
    {
        ((models[I] == m ? f(std::integral_constant<EulerModel, models[I]>()) : void()), ...);
    }
    template <class F>
    void onModel(EulerModel m, F f) { onModel(m, f, std::make_index_sequence<nModels>()); }
    struct Plan
    {
        int nr = 1, mRank = 0;
        EulerModel model = NS_2D;
        CommOpts co;
        MG::Mesh e;
        std::vector<int> part, part0;
        MC::Board B, B0;
        CFV::VRSettings s{2};
        nlohmann::ordered_json ej, bcj;
        bool reorder = false, rans = false, source = false, rotating = false, allFar = false, wall = false;
        int wdScheme = 0, nThr = 1;
        double far[8];
        uint64_t seed = 0;
        std::vector<std::array<int, 2>> ops;
        Ref R;
    };
    int nVarsOf(EulerModel m) { return m == NS_2D ? 4 : m == NS_SA ? 6 : m == NS_2EQ ? 7 : 5; }
    int dimOf(EulerModel m) { return m == NS_2D ? 2 : 3; }
    std::string describe(const Plan &p)
    {
        auto &j = p.ej;
        std::string d = fmts("ranks %d, reader %d, model %d, %dD n=%d,%d,%d per=%d,%d,%d O%d, %zu cells, part %s, order %d int %d, threads %d, rs %s/%s/%s eig %d rot %d, wd %d/%d/%d, mu %g/%d, frame %d, bc %s",
                             p.nr, p.mRank, int(p.model), p.e.dim, p.e.n[0], p.e.n[1], p.e.n[2], p.e.per[0], p.e.per[1], p.e.per[2], p.e.o2 ? 2 : 1, p.e.c.size(), vstr(p.part).c_str(), p.s.maxOrder, p.s.intOrder, p.nThr,
                             j["riemannSolverType"].dump().c_str(), j["riemannSolverTypeAux"].dump().c_str(), j["riemannSolverTypeWall"].dump().c_str(), int(j["rsMeanValueEig"]), int(j["rsRotateScheme"]), int(j["wallDistScheme"]), int(j["wallDistExection"]), int(j["wallDistCellLoadSize"]),
                             double(j["idealGasProperty"]["muGas"]), int(j["idealGasProperty"]["muModel"]), int(p.rotating), "");
        std::set<int> z;
        for (auto &b : p.e.b)
            z.insert(b.zone);
        for (int x : z)
            d += fmts("%d%s ", x, x >= BC_ID_DEFAULT_MAX ? p.bcj[x - BC_ID_DEFAULT_MAX]["type"].get<std::string>().c_str() : "");
        for (auto &o : p.ops)
            d += fmts("%s(%d) ", opName[o[0]], o[1]);
        return d + p.co.str();
    }
    // a state with positive density and pressure
    template <class F>
    void stateOf(double *v, EulerModel m, F r, double gamma)
    {
        int dim = dimOf(m), n = nVarsOf(m);
        double rho = 1 + 0.5 * r(), q = 0, p = 1 + 0.5 * r();
        v[0] = rho;
        for (int d = 0; d < dim; d++)
        {
            double w = d < 2 || m == NS_3D ? 0.8 * r() : 0;
            v[1 + d] = rho * w, q += w * w;
        }
        v[dim + 1] = p / (gamma - 1) + 0.5 * rho * q;
        if (m == NS_SA)
            v[dim + 2] = rho * (2 + r());
        if (m == NS_2EQ)
            v[dim + 2] = rho * (0.05 + 0.01 * r()), v[dim + 3] = rho * (5 + r());
    }
    enum Mode
    {
        M_EVAL,
        M_CONS,
        M_SOLVE,
        M_WALL,
        M_RUN
    };
    template <EulerModel M>
    nlohmann::ordered_json settingsOf(Plan *p, Mode mode, bool rot)
    {
        EulerEvaluatorSettings<M> s;
        int n = nVarsOf(M);
        using namespace Gas;
        const RiemannSolverType rs[] = {Roe, HLLC, HLLEP, HLLEP_V1, Roe_M1, Roe_M2, Roe_M3, Roe_M4, Roe_M5};
        s.rsType = rs[P(9)];
        if (PB(40))
            s.rsTypeAux = rs[P(9)];
        if (PB(25))
            s.rsTypeWall = rs[P(9)];
        s.rsMeanValueEig = PB(30) ? 1 : 0;
        s.rsRotateScheme = PB(25) && mode != M_SOLVE && mode != M_RUN ? 1 + int(P(2)) : 0; // its estimates of the eigenvalues may be negative, and the operator singular
        int jm = int(P(3));
        s.useScalarJacobian = jm == 1, s.useRoeJacobian = jm == 2;
        s.noRsOnWall = PB(20), s.noGRPOnWall = PB(20);
        s.direct2ndRecMethod = PB(50) ? 1 : 11;
        s.usePrimGradInVisFlux = PB(30), s.useSourceGradFixGG = PB(30);
        s.forceVolURecBeta = PB(60), s.ppEpsIsRelaxed = PB(30);
        s.uRecBetaCompressPower = PB(30) ? 1 : 11;
        if (mode == M_EVAL || mode == M_RUN)
            s.nCentralSmoothStep = int(P(3));
        if (PB(30) && mode != M_CONS)
            s.constMassForce = {0.3, -0.2, M == NS_3D ? 0.1 : 0.};
        if (rot)
        {
            s.frameConstRotation.enabled = true, s.frameConstRotation.rpm = 3;
            s.frameConstRotation.center = {0, 0, 0};
        }
        p->rans = M == NS_SA || M == NS_2EQ;
        p->source = p->rans || s.constMassForce.norm() > 0 || rot;
        s.ignoreSourceTerm = !p->source && PB(50);
        s.idealGasProperty.muGas = PB(30) ? 1e-200 : PB(50) ? 1e-3 : 0.03;
        s.idealGasProperty.muModel = int(P(3));
        s.idealGasProperty.TRef = 1, s.idealGasProperty.CSutherland = 0.4;
        s.minWallDist = PB(30) ? 0.3 : 1e-12;
        const int wds[] = {0, 1, 2, 20};
        s.wallDistScheme = mode == M_WALL ? wds[P(4)] : PB(70) ? 0 : wds[P(4)];
        s.wallDistExection = PB(50) ? 0 : int(P(4));
        s.wallDistCellLoadSize = PB(50) ? 1 + int(P(8)) : 1024;
        s.wallDistRefineMax = PB(50) ? 1 : 0.05 * (1 + int(P(20)));
        if (mode == M_WALL && PB(20))
        {
            s.wallDistScheme = 3, s.wallDistIter = 1 + (p->rans ? 0 : int(P(2))), s.wallDistIterStart = int(P(3)), s.wallDistPoissonP = 2, s.wallDistNJacobiSweep = 2 + int(P(3));
            s.wallDistResTol = 1e-10;
        }
        if (M == NS_SA)
            s.ransSARotCorrection = int(P(2)), s.ransUseQCR = int(P(2)), s.SADESScale = PB(30) ? 0.65 : veryLargeReal;
        if (M == NS_2EQ)
            s.ransModel = std::array<RANSModel, 3>{RANSModel::RANS_KOWilcox, RANSModel::RANS_KOSST, RANSModel::RANS_RKE}[P(3)], s.ransUseQCR = int(P(2));
        if (p->rans)
            s.ransEigScheme = int(P(2)), s.ransForce2nd = int(P(2)), s.ransSource2nd = int(P(2));
        s.farFieldStaticValue = Eigen::Map<Eigen::VectorXd>(p->far, n);
        uint64_t q = P(1u << 20);
        for (int k = 0, nb = int(P(3)); k < nb; k++)
        {
            typename EulerEvaluatorSettings<M>::BoxInitializer b;
            b.x0 = rnd1(q, k, 0), b.x1 = b.x0 + 1, b.y0 = rnd1(q, k, 1), b.y1 = b.y0 + 1, b.z0 = -1, b.z1 = rnd01(q, k, 2);
            b.v.setConstant(n, 0.5 + k);
            s.boxInitializers.push_back(b);
        }
        if (PB(40))
        {
            typename EulerEvaluatorSettings<M>::PlaneInitializer b;
            b.a = rnd1(q, 8), b.b = rnd1(q, 9), b.c = 0, b.h = 0.3;
            b.v.setConstant(n, 3);
            s.planeInitializers.push_back(b);
        }
        p->wdScheme = s.wallDistScheme;
        nlohmann::ordered_json j;
        s.ReadWriteJSON(j, n, false);
        return j;
    }
    Plan *plan(Mode mode)
    {
        auto p = new Plan;
        auto c = sim_config();
        p->nr = c->nranks = PB(10) ? 1 : PR(2, 5);
        p->co.draw();
        p->co.apply();
        p->mRank = PB(25) ? int(P(p->nr)) : 0;
        p->nThr = c->omp_threads = mode == M_SOLVE ? 1 : 1 + int(P(3));
        p->model = models[P(nModels)];
        bool d3 = p->model == NS_3D;
        MG::GenOpt go;
        go.maxCells2 = 16, go.maxCells3 = 8, go.pO2 = 20, go.p3 = d3 ? 100 : 0;
        go.minPer = 2;
        if (mode == M_WALL)
            go.pPer = 10;
        p->e = MG::generate(go);
        p->part = MG::partition(p->e, p->nr);
        p->part0.assign(p->e.c.size(), 0);
        p->B.reset(p->nr), p->B0.reset(1);
        p->s = CFV::VRSettings(p->e.dim);
        drawVR(p->s, p->e.dim);
        if (d3)
            p->s.maxOrder = 1 + int(P(2));
        p->s.subs2ndOrder = 0;
        p->reorder = PB(30);
        p->seed = P(1u << 30);
        {
            int k = 0;
            stateOf(p->far, p->model, [&] { return rnd1(p->seed, 77, k++); }, 1.4);
        }
        bool rot = (mode == M_EVAL || mode == M_RUN || mode == M_CONS) && !p->e.periodic() && PB(mode == M_CONS ? 30 : 15);
        p->rotating = rot;
        onModel(p->model, [&](auto m) { p->ej = settingsOf<decltype(m)::value>(p, mode, rot); });
        // boundary conditions: the generated zones are mapped to conditions
        int n = nVarsOf(p->model), nc = 1 + int(P(4));
        p->allFar = mode == M_CONS && PB(50);
        p->bcj = nlohmann::ordered_json::array();
        for (int k = 0; k < nc; k++)
        {
            const char *ty[] = {"BCFar", "BCWall", "BCWallInvis", "BCOut", "BCOutP", "BCIn", "BCInPsTs", "BCSym"};
            nlohmann::ordered_json b;
            int t = p->allFar ? 0 : mode == M_WALL && PB(40) ? 1 : int(P(8));
            b["type"] = ty[t], b["name"] = fmts("bc%d", k);
            std::vector<double> v(n);
            int q = 0;
            stateOf(v.data(), p->model, [&] { return rnd1(p->seed, 100 + k, q++); }, 1.4);
            if (p->allFar)
                v.assign(p->far, p->far + n);
            if (t == 6)
                v[0] = 1.5, v[1] = 1.2;
            b["value"] = v;
            b["frameOption"] = mode == M_CONS ? 0 : int(P(2)), b["integrationOption"] = int(P(3)), b["rectifyOption"] = 0, b["specialOption"] = 0;
            b["anchorOption"] = t == 4 ? int(P(3)) : 0;
            b["valueExtra"] = int(b["anchorOption"]) == 2 ? std::vector<double>{10} : int(b["anchorOption"]) || PB(50) ? std::vector<double>{rnd1(p->seed, 200), rnd1(p->seed, 201), 0.1} : std::vector<double>{};
            p->bcj.push_back(b);
        }
        std::map<int, int> zm;
        for (auto &b : p->e.b)
            if (b.zone > 0)
            {
                if (!zm.count(b.zone))
                    zm[b.zone] = !rot && PB(50) ? (p->allFar ? BC_ID_DEFAULT_FAR : std::array<int, 3>{BC_ID_DEFAULT_WALL, BC_ID_DEFAULT_FAR, BC_ID_DEFAULT_WALL_INVIS}[P(3)]) : BC_ID_DEFAULT_MAX + int(P(nc));
                b.zone = zm[b.zone];
                if (b.zone == BC_ID_DEFAULT_WALL || b.zone >= BC_ID_DEFAULT_MAX && p->bcj[b.zone - BC_ID_DEFAULT_MAX]["type"] == "BCWall")
                    p->wall = true;
            }
        if (!p->wall && p->wdScheme == 2) // the distance to no wall is not a number to compare
            p->ej["wallDistScheme"] = p->wdScheme = 0;
        int no = 1 + int(P(4));
        for (int i = 0; i < no; i++)
        {
            int o = mode == M_EVAL ? int(P(O_FREE)) : mode == M_CONS ? (PB(50) ? O_FREE : O_CONS) : mode == M_SOLVE ? O_SOLVE : O_DT;
            if (mode == M_EVAL && PB(35))
                o = PB(70) ? O_RHS : O_BAL;
            p->ops.push_back({o, int(P(64))});
        }
        if (p->nr > 1)
            sim_probe("nontrivial");
        if (p->e.periodic())
            sim_probe("mesh:periodic");
        if (p->e.o2)
            sim_probe("mesh:o2");
        if (p->nThr > 1)
            sim_probe("omp:several_threads");
        sim_probe(fmts("model:%d", int(p->model)).c_str());
        sim_probe(("riemann:" + p->ej["riemannSolverType"].get<std::string>()).c_str());
        sim_probe(fmts("wall distance:%d%s", p->wdScheme, p->wall ? "" : " no wall").c_str());
        sim_sample(describe(*p).c_str());
        return p;
    }
}
