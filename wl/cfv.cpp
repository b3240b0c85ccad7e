// Workload over the reconstruction: geometry, gradients, variational reconstruction, indicators and limiters of a
// distributed mesh are compared with the same on one rank, and with exact geometry and polynomials.
#include "cfv.hpp"
using namespace CF;
namespace
{
    using DNDS::index;
    enum Op
    {
        O_GRAD,
        O_ITER,
        O_INC,
        O_DIFF,
        O_SI,
        O_SI1,
        O_LIMC,
        O_LIM3,
        O_POLY,
        O_SORP,
        O_LIN,
    };
    const char *opName[] = {"grad", "iter", "residual", "linearised", "indicator", "indicatorV1", "limiter-C", "limiter-3", "polynomial", "sor", "linear"};
    struct Plan
    {
        int nr = 1, mRank = 0;
        CommOpts co;
        MG::Mesh e;
        std::vector<int> part, part0;
        MC::Board B, B0;
        CFV::VRSettings s{2};
        bool reorder = false, json = false;
        double tw[3] = {1, 1, 1};
        int bw = 0; // boundary weights: 0 all orders, 1 values only
        uint64_t seed = 0;
        std::vector<std::array<int, 2>> ops;
        Ref R;
    };
    std::string describe(const Plan &p)
    {
        auto &s = p.s;
        auto &f = s.functionalSettings;
        std::string d = fmts("ranks %d, reader %d, %dD n=%d,%d,%d per=%d,%d,%d O%d, %zu cells, part %s, order %d int %d/%d cache %d/%d relax %g subs %d/%d orient %d aniso %d scale %d*%g dir %d geom %d anisoF %d/%d gg %g bw %d bc %g svd %g",
                             p.nr, p.mRank, p.e.dim, p.e.n[0], p.e.n[1], p.e.n[2], p.e.per[0], p.e.per[1], p.e.per[2], p.e.o2 ? 2 : 1, p.e.c.size(), vstr(p.part).c_str(), s.maxOrder, s.intOrder, s.intOrderVR, s.cacheDiffBase, int(s.cacheDiffBaseSize), s.jacobiRelax, s.subs2ndOrder, s.subs2ndOrderGGScheme, s.baseSettings.localOrientation, s.baseSettings.anisotropicLengths, int(f.scaleType), f.scaleMultiplier, int(f.dirWeightScheme), int(f.geomWeightScheme), f.useAnisotropicFunctional, int(f.anisotropicType), f.greenGauss1Weight, p.bw, s.bcWeight, s.svdTolerance);
        for (auto &o : p.ops)
            d += fmts(" %s(%d)", opName[o[0]], o[1]);
        return d + " " + p.co.str();
    }
    Plan *plan(bool exact)
    {
        auto p = new Plan;
        auto c = sim_config();
        p->nr = c->nranks = PB(10) ? 1 : PR(2, 5);
        p->co.draw();
        p->co.apply();
        p->mRank = PB(25) ? int(P(p->nr)) : 0;
        c->omp_threads = 1 + int(P(3));
        MG::GenOpt go;
        go.maxCells2 = 20, go.maxCells3 = 10, go.pO2 = 20, go.p3 = 30;
        go.minPer = PB(30) ? 2 : 3;
        if (exact)
            go.pPer = 0;
        p->e = MG::generate(go);
        p->part = MG::partition(p->e, p->nr);
        p->part0.assign(p->e.c.size(), 0);
        p->B.reset(p->nr), p->B0.reset(1);
        p->s = CFV::VRSettings(p->e.dim);
        drawVR(p->s, p->e.dim);
        if (p->e.dim == 3 && p->s.maxOrder == 3 && PB(70))
            p->s.maxOrder = 2;
        p->reorder = PB(30), p->json = PB(30);
        p->bw = exact || PB(40);
        if (exact)
            p->s.functionalSettings.greenGauss1Weight = 0, p->s.intOrder = std::max(p->s.intOrder, 3);
        if (PB(40))
            p->tw[0] = 2, p->tw[1] = 0.5, p->tw[2] = 1.5;
        p->seed = P(1u << 30);
        int n = 1 + int(P(5));
        bool lim = false;
        for (int i = 0; i < n; i++)
        {
            int o = exact ? std::array<int, 5>{O_POLY, O_SORP, O_LIN, O_INC, O_DIFF}[P(5)] : int(P(10));
            int a = o == O_GRAD ? int(P(3)) : int(P(8));
            lim = lim || o == O_LIMC || o == O_LIM3;
            p->ops.push_back({o, a});
        }
        if (p->nr > 1)
            sim_probe("nontrivial");
        sim_probe(p->e.dim == 3 ? "mesh:3d" : "mesh:2d");
        if (p->e.periodic())
            sim_probe("mesh:periodic");
        if (p->e.o2)
            sim_probe("mesh:o2");
        if (c->omp_threads > 1)
            sim_probe("omp:several_threads");
        sim_probe(fmts("order:%d", p->s.maxOrder).c_str());
        sim_sample(describe(*p).c_str());
        return p;
    }
    template <int dim>
    struct Run
    {
        static constexpr int nV = dim == 2 ? 4 : 5;
        using VR = CFV::VariationalReconstruction<dim>;
        using Vec = Eigen::Vector<real, nV>;
        Plan *p;
        ssp<UnstructuredMesh> mesh;
        ssp<VR> vr;
        std::vector<int> cid;
        Cmp C;
        int me;
        CFV::tUDof<nV> u;
        CFV::tURec<nV> uRec, uRecNew, uRecBuf;
        CFV::tScalarPair si;
        Run(Plan *pp, const MPIInfo &mpi, bool ref) : p(pp), C{pp->R, ref, cid, 0, 0, pp->e.c.size(), mpi.rank}, me(mpi.rank)
        {
            DNDS_MAKE_SSP(mesh, mpi, dim);
            ssp<UnstructuredMeshSerialRW> rd;
            DNDS_MAKE_SSP(rd, mesh, ref ? 0 : p->mRank);
            MC::distribute(mesh, *rd, p->e, ref ? p->part0 : p->part, 0, UnstructuredMeshSerialRW::PartitionOptions());
            MC::Exp x;
            x.e = &p->e, x.part = ref ? &p->part0 : &p->part;
            if (p->reorder && !ref)
                mesh->ReorderLocalCells();
            mesh->InterpolateFace();
            x.faces = true;
            MC::Checker ck(*mesh, x, ref ? p->B0 : p->B, ref ? "one rank" : "distributed");
            ck.all();
            cid = ck.cid;
            C.nOwn = mesh->NumCell(), C.nAll = mesh->NumCellProc();
            DNDS_MAKE_SSP(vr, mpi, mesh);
            if (p->json && !ref)
            {
                CFV::VRSettings::json j = p->s;
                vr->settings = CFV::VRSettings(dim);
                vr->settings.ParseFromJson(CFV::VRSettings::json::parse(j.dump()));
            }
            else
                vr->settings = p->s;
            double *tw = p->tw;
            vr->SetPeriodicTransformations(
                [tw](Eigen::Ref<MatrixXR> v, t_index id)
                { v.col(1) *= tw[FaceIDIsPeriodic1(id) ? 0 : FaceIDIsPeriodic2(id) ? 1 : 2]; },
                [tw](Eigen::Ref<MatrixXR> v, t_index id)
                { v.col(1) /= tw[FaceIDIsPeriodic1(id) ? 0 : FaceIDIsPeriodic2(id) ? 1 : 2]; });
            vr->ConstructMetrics();
            int bw = p->bw;
            vr->ConstructBaseAndWeight([bw](t_index id, int o) -> real
                                       { return FaceIDIsPeriodic(id) ? 1.0 : bw == 1 ? (o == 0 ? 1. : 0.) : 1.0 / (1 + o); });
            vr->ConstructRecCoeff();
            vr->BuildUDof(u, nV);
            vr->BuildURec(uRec, nV);
            vr->BuildURec(uRecNew, nV);
            vr->BuildURec(uRecBuf, nV);
            vr->BuildScalar(si);
        }
        template <class T>
        void pull(T &a)
        {
            a.trans.startPersistentPull();
            a.trans.waitPersistentPull();
        }
        void setRandom(uint64_t s)
        {
            for (index i = 0; i < mesh->NumCell(); i++)
                for (int k = 0; k < nV; k++)
                    u[i](k) = rnd1(s, cid[i], k);
            pull(u);
        }
        void setRandomRec(CFV::tURec<nV> &r, uint64_t s, double a)
        {
            for (index i = 0; i < mesh->NumCell(); i++)
                for (int k = 0; k < r[i].rows(); k++)
                    for (int v = 0; v < nV; v++)
                        r[i](k, v) = a * rnd1(s, cid[i], k * nV + v);
            pull(r);
        }
        auto mat(CFV::tURec<nV> &r)
        {
            return [&r](index i)
            { return MatrixXR(r[i]); };
        }
        typename VR::template TFBoundary<nV> bnd()
        {
            return [this](const Vec &ubl, const Vec &um, index iCell, index iFace, int ig, const tPoint &n, const tPoint &x, t_index id) -> Vec
            {
                if (mesh->face2cell(iFace, 0) != iCell)
                    sim_fail("boundary", "rank %d: the boundary function is called with cell %d and face %d of another cell", me, int(iCell), int(iFace));
                if (mesh->GetFaceZone(iFace) != id)
                    sim_fail("boundary", "rank %d: the boundary function is called with zone %d for a face of zone %d", me, int(id), int(mesh->GetFaceZone(iFace)));
                double a = 0.1 * (int(id) % 5);
                Vec r = a * ubl + (1 - a) * um;
                r(0) += 0.3 * std::sin(x(0) + 2 * x(1) + 3 * x(2));
                r(nV - 1) += 0.1 * n(0) - 0.2 * n(1);
                return r;
            };
        }
        typename VR::template TFBoundaryDiff<nV> bndDiff()
        {
            return [this](const Vec &ubl, const Vec &du, const Vec &um, index iCell, index iFace, int ig, const tPoint &n, const tPoint &x, t_index id) -> Vec
            {
                double a = 0.1 * (int(id) % 5);
                return a * du;
            };
        }
        // polynomial of degree <= maxOrder, drawn coefficients
        double poly(const tPoint &x, int v, uint64_t s)
        {
            double r = 0;
            for (int i = 0; i <= p->s.maxOrder; i++)
                for (int j = 0; i + j <= p->s.maxOrder; j++)
                    for (int k = 0; i + j + k <= p->s.maxOrder && k <= (dim == 3 ? 3 : 0); k++)
                        r += rnd1(s, v * 1000 + i * 100 + j * 10 + k) * std::pow(x(0), i) * std::pow(x(1), j) * std::pow(x(2), k);
            return r;
        }
        // with few integration points the volumes, and with them the base functions, are approximate
        bool exactVolumes()
        {
            for (index i = 0; i < mesh->NumCell(); i++)
            {
                auto q = Elem::Quadrature{mesh->GetCellElement(i), Elem::INT_ORDER_MAX};
                tSmallCoords co;
                mesh->GetCoordsOnCell(i, co);
                real v = 0;
                q.Integration(v, [&](auto &inc, int, const tPoint &, const Elem::tD01Nj &D)
                              {
                                  tJacobi J = Elem::ShapeJacobianCoordD01Nj(co, D);
                                  if constexpr (dim == 2)
                                      inc = J(Eigen::all, 0).cross(J(Eigen::all, 1)).stableNorm();
                                  else
                                      inc = J.determinant(); });
                if (std::abs(v - vr->GetCellVol(i)) > 1e-12 * v)
                    return false;
            }
            return true;
        }
        // largest condition number of the reconstruction matrices
        double condition()
        {
            double c = 1;
            for (index i = 0; i < mesh->NumCell(); i++)
            {
                Eigen::VectorXd v = MatrixXR(vr->GetCellRecMatAInv(i)).jacobiSvd().singularValues();
                c = std::max(c, v.minCoeff() > 0 ? v.maxCoeff() / v.minCoeff() : 1e300);
            }
            return c;
        }
        void setPoly(uint64_t s)
        {
            double mxErr = 0;
            for (index i = 0; i < mesh->NumCell(); i++)
            {
                auto e = mesh->GetCellElement(i);
                auto q = Elem::Quadrature{e, Elem::INT_ORDER_MAX};
                tSmallCoords co;
                mesh->GetCoordsOnCell(i, co);
                std::vector<tPoint> xs;
                Eigen::Vector<real, nV + 1> m;
                m.setZero();
                q.Integration(m, [&](auto &inc, int ig, const tPoint &pp, const Elem::tD01Nj &D)
                              {
                                  tPoint x = Elem::PPhysicsCoordD01Nj(co, D);
                                  tJacobi J = Elem::ShapeJacobianCoordD01Nj(co, D);
                                  real jd;
                                  if constexpr (dim == 2)
                                      jd = J(Eigen::all, 0).cross(J(Eigen::all, 1)).stableNorm();
                                  else
                                      jd = J.determinant();
                                  xs.push_back(x);
                                  inc.resize(nV + 1);
                                  for (int v = 0; v < nV; v++)
                                      inc(v) = poly(x, v, s) * jd;
                                  inc(nV) = jd; });
                for (int v = 0; v < nV; v++)
                    u[i](v) = m(v) / m(nV);
                int nd = uRec[i].rows();
                for (index iCo = 0; iCo < co.cols(); iCo++)
                    xs.push_back(co.col(iCo));
                MatrixXR A(xs.size(), nd), b(xs.size(), nV);
                for (size_t k = 0; k < xs.size(); k++)
                {
                    MatrixXR d(1, nd + 1);
                    vr->FDiffBaseValue(d, xs[k], i, -1, -2, 0);
                    A.row(k) = d(0, Eigen::seq(1, Eigen::last));
                    for (int v = 0; v < nV; v++)
                        b(k, v) = poly(xs[k], v, s) - u[i](v);
                }
                MatrixXR sol = A.colPivHouseholderQr().solve(b);
                double res = (A * sol - b).cwiseAbs().maxCoeff();
                mxErr = std::max(mxErr, res);
                uRec[i] = sol;
            }
            if (mxErr > 1e-8 * 1000)
                sim_fail("base", "rank %d: a polynomial of degree %d is not in the space of the base functions (misfit %g)", me, p->s.maxOrder, mxErr);
            pull(u), pull(uRec);
        }
        void metrics()
        {
            C.cells("volume", C.nAll, [&](index i) { return Eigen::Vector<real, 1>(vr->GetCellVol(i)); }, 1e-11);
            C.cells("barycentre", C.nAll, [&](index i) { return tPoint(vr->GetCellBary(i)); }, 1e-10);
            C.cells("centre", C.nAll, [&](index i) { return tPoint(vr->GetCellQuadraturePPhys(i, -1)); }, 1e-11);
            C.cells("smoothing ratio", C.nAll, [&](index i) { return Eigen::Vector<real, 1>(vr->GetCellSmoothScaleRatio(i)); }, 1e-9);
            C.cells("length scale", C.nAll, [&](index i) { return Eigen::Vector<real, 2>(vr->GetCellMaxLenScale(i), vr->GetCellAR(i)); }, 1e-7);
            C.cells("face metrics", C.nOwn, [&](index i)
                    {
                        auto fs = mesh->cell2face[i];
                        Eigen::VectorXd r(fs.size() * 7);
                        for (rowsize k = 0; k < fs.size(); k++)
                        {
                            int if2c = vr->CellIsFaceBack(i, fs[k]) ? 0 : 1;
                            r(k * 7) = vr->GetFaceArea(fs[k]);
                            r.segment<3>(k * 7 + 1) = vr->GetFaceNormFromCell(fs[k], i, if2c, -1) * (if2c ? -1 : 1);
                            r.segment<3>(k * 7 + 4) = vr->GetFaceQuadraturePPhysFromCell(fs[k], i, if2c, -1);
                        }
                        return r; }, 1e-10);
            C.scalar("global volume", vr->GetGlobalVol());
            double sum = 0;
            for (index i = 0; i < mesh->NumCell(); i++)
            {
                sum += vr->GetCellVol(i);
                tPoint clo{0, 0, 0};
                double div = 0, area = 0, fl = 0;
                bool approx = p->e.o2 && dim == 3;
                for (auto f : mesh->cell2face[i])
                {
                    int if2c = vr->CellIsFaceBack(i, f) ? 0 : 1;
                    double sg = if2c ? -1 : 1;
                    auto q = vr->GetFaceQuad(f);
                    Elem::SummationNoOp noOp;
                    q.Integration(noOp, [&](auto &, int ig, const tPoint &, const Elem::tD01Nj &)
                                  {
                                      double w = std::get<1>(q.GetQuadraturePointInfo(ig)) * vr->GetFaceJacobiDet(f, ig);
                                      tPoint n = vr->GetFaceNormFromCell(f, i, if2c, ig) * sg;
                                      tPoint x = vr->GetFaceQuadraturePPhysFromCell(f, i, if2c, ig);
                                      clo += n * w, area += w;
                                      div += w * n.dot(x - vr->GetCellQuadraturePPhys(i, -1)) / dim; });
                    fl += sg * vr->GetFaceArea(f) * vr->GetFaceNormFromCell(f, i, if2c, -1)(0);
                }
                auto t = mesh->GetCellElement(i).type;
                if (p->s.intOrder >= 3 || dim == 2 && !p->e.o2)
                {
                    if (clo.norm() > 1e-9 * area)
                        sim_fail("closure", "rank %d: the faces of cell %d leave a gap of %g of area %g", me, cid[i], clo.norm(), area);
                    if (std::abs(fl) > 1e-9 * area)
                        sim_fail("closure", "rank %d: the mean normals of cell %d leave a gap of %g of area %g", me, cid[i], fl, area);
                    if (!approx && t != Elem::Pyramid5 && t != Elem::Pyramid14 && std::abs(div - vr->GetCellVol(i)) > 1e-8 * div)
                        sim_fail("closure", "rank %d: the faces of cell %d enclose %.12g, its volume is %.12g", me, cid[i], div, vr->GetCellVol(i));
                }
            }
            double all = 0;
            MPI_Allreduce(&sum, &all, 1, MPI_DOUBLE, MPI_SUM, mesh->getMPI().comm);
            if (std::abs(all - vr->GetGlobalVol()) > 1e-10 * all)
                sim_fail("volume", "rank %d: the global volume is %.12g, the sum over the cells %.12g", me, vr->GetGlobalVol(), all);
        }
        void go()
        {
            metrics();
            if (C.ref)
                p->R.exact = exactVolumes(), p->R.cond = condition();
            if (C.ref)
                sim_probe(fmts("cond:1e%d", int(std::min(20., std::log10(p->R.cond)))).c_str());
            double tolR = std::max(1e-9, p->R.cond * 1e-13); // what rounding may do to the reconstruction
            bool illPosed = tolR > 1e-3;
            sim_probe(illPosed ? "rec:ill_conditioned" : "rec:well_conditioned");
            auto &s = vr->settings;
            bool second = s.maxOrder == 1 && s.subs2ndOrder != 0;
            for (size_t io = 0; io < p->ops.size(); io++)
            {
                int o = p->ops[io][0], a = p->ops[io][1];
                uint64_t sd = hmix(p->seed, io);
                std::string nm = fmts("%s (step %zu)", opName[o], io);
                std::string nin = nm + " input";
                auto input = [&](double amp)
                {
                    setRandom(sd);
                    setRandomRec(uRec, hmix(sd, 1), amp);
                    C.cells(nin, 0, mat(uRec));
                };
                if (illPosed && (o == O_ITER || o == O_INC || o == O_DIFF || o == O_POLY || o == O_SORP))
                    continue;
                switch (o)
                {
                case O_GRAD:
                {
                    setRandom(sd);
                    CFV::tUGrad<nV, dim> g;
                    vr->BuildUGrad(g, nV);
                    vr->DoReconstruction2ndGrad(g, u, bnd(), std::array<int, 3>{1, 2, 11}[a]);
                    pull(g);
                    C.cells(nm, C.nAll, [&](index i) { return MatrixXR(g[i]); }, 1e-9, nullptr, 1);
                    break;
                }
                case O_ITER:
                {
                    input(a & 1 ? 0.5 : 0);
                    int n = 1 + a / 2;
                    for (int it = 0; it < n; it++)
                    {
                        bool pn = (sd >> it) & 1;
                        vr->DoReconstructionIter(uRec, uRecNew, u, bnd(), pn);
                        if (pn)
                            for (index i = 0; i < mesh->NumCell(); i++)
                                uRec[i] = uRecNew[i];
                        pull(uRec);
                    }
                    C.cells(nm, C.nAll, mat(uRec), tolR, nin.c_str());
                    break;
                }
                case O_INC:
                {
                    input(0.5);
                    vr->DoReconstructionIter(uRec, uRecNew, u, bnd(), true, true);
                    pull(uRecNew);
                    C.cells(nm, C.nAll, mat(uRecNew), tolR, nin.c_str());
                    if (!second && s.jacobiRelax == 1.0)
                    { // the residual is the difference to one sweep
                        for (index i = 0; i < mesh->NumCellProc(); i++)
                            uRecBuf[i] = uRec[i] - uRecNew[i];
                        vr->DoReconstructionIter(uRec, uRecNew, u, bnd(), true);
                        for (index i = 0; i < mesh->NumCell(); i++)
                            if ((uRecNew[i] - uRecBuf[i]).cwiseAbs().maxCoeff() > tolR * (1 + uRecNew[i].cwiseAbs().maxCoeff()))
                                sim_fail("residual", "rank %d: sweep and residual of cell %d disagree", me, cid[i]);
                    }
                    break;
                }
                case O_DIFF:
                {
                    input(0.5);
                    setRandomRec(uRecBuf, hmix(sd, 2), 0.7);
                    vr->DoReconstructionIterDiff(uRec, uRecBuf, uRecNew, u, bndDiff());
                    pull(uRecNew);
                    C.cells(nm, C.nAll, mat(uRecNew), tolR, nin.c_str());
                    if (!second)
                    { // the boundary function is affine, so differences of residuals are exact
                        CFV::tURec<nV> r0;
                        vr->BuildURec(r0, nV);
                        vr->DoReconstructionIter(uRec, r0, u, bnd(), true, true);
                        for (index i = 0; i < mesh->NumCellProc(); i++)
                            uRec[i] += uRecBuf[i];
                        vr->DoReconstructionIter(uRec, uRecBuf, u, bnd(), true, true);
                        for (index i = 0; i < mesh->NumCell(); i++)
                        {
                            double d = (uRecBuf[i] - r0[i] - uRecNew[i]).cwiseAbs().maxCoeff(), sc = 1 + uRecBuf[i].cwiseAbs().maxCoeff() + r0[i].cwiseAbs().maxCoeff();
                            if (d > tolR * sc)
                                sim_fail("linearised", "rank %d: the linearised operator of cell %d is off by %g of %g", me, cid[i], d, sc);
                        }
                    }
                    break;
                }
                case O_SI:
                    input(0.5);
                    vr->template DoCalculateSmoothIndicator<nV, 2>(si, uRec, u, std::array<int, 2>{a % nV, nV - 1});
                    pull(si);
                    C.cells(nm, C.nAll, [&](index i) { return Eigen::Vector<real, 1>(si(i, 0)); });
                    break;
                case O_SI1:
                {
                    input(0.5);
                    Vec w;
                    for (int k = 0; k < nV; k++)
                        w(k) = k == a % nV ? 0 : 1;
                    vr->template DoCalculateSmoothIndicatorV1<nV>(si, uRec, u, w, [](Eigen::Matrix<real, 1, nV> &v) { v(0) += 0.1 * v(1); });
                    pull(si);
                    C.cells(nm, C.nAll, [&](index i) { return Eigen::Vector<real, 1>(si(i, 0)); });
                    break;
                }
                case O_LIMC:
                case O_LIM3:
                {
                    input(0.5);
                    vr->template DoCalculateSmoothIndicator<nV, 2>(si, uRec, u, std::array<int, 2>{0, 1});
                    pull(si);
                    using TL = typename VR::template tLimitBatch<nV>;
                    typename VR::template tFMEig<nV> FM = [](const Vec &l, const Vec &r, const tPoint &n, const Eigen::Ref<TL> &d) -> TL
                    { TL x = d; x.col(0) *= 2 + n(0) * n(0); x.col(1) += 0.25 * (l(0) + r(0)) * d.col(0); return x; };
                    typename VR::template tFMEig<nV> FMI = [](const Vec &l, const Vec &r, const tPoint &n, const Eigen::Ref<TL> &d) -> TL
                    { TL x = d; x.col(0) /= 2 + n(0) * n(0); x.col(1) -= 0.25 * (l(0) + r(0)) * x.col(0); return x; };
                    bool all = a & 1, pn = a & 2;
                    if (o == O_LIMC)
                        vr->template DoLimiterWBAP_C<nV>(u, uRec, uRecNew, uRecBuf, si, all, FM, FMI, pn);
                    else
                        vr->template DoLimiterWBAP_3<nV>(u, uRec, uRecNew, uRecBuf, si, all, FM, FMI, pn);
                    C.cells(nm, C.nAll, mat(pn ? uRecNew : uRec), 1e-8, nin.c_str());
                    break;
                }
                case O_LIN:
                {
                    if (p->e.periodic() || !p->R.exact)
                        break;
                    bool planar = dim == 2 && !p->e.o2; // the mid points of the faces are their centroids
                    int method = planar && (a & 1) ? 11 : 2;
                    Eigen::Matrix<real, dim, nV> G;
                    for (int d = 0; d < dim; d++)
                        for (int v = 0; v < nV; v++)
                            G(d, v) = rnd1(sd, d, v);
                    auto lin = [&](const tPoint &x) -> Vec
                    { return G.transpose() * x(Eigen::seq(0, dim - 1)); };
                    for (index i = 0; i < mesh->NumCell(); i++)
                        u[i] = lin(vr->GetCellBary(i));
                    pull(u);
                    typename VR::template TFBoundary<nV> fb = [&](const Vec &ubl, const Vec &um, index iCell, index iFace, int ig, const tPoint &n, const tPoint &x, t_index id) -> Vec
                    {
                        if (method == 11)
                            return 2 * lin(x) - um;
                        tPoint b = vr->GetCellBary(iCell);
                        return lin(b + 2 * (x - b).dot(n) * n);
                    };
                    CFV::tUGrad<nV, dim> g;
                    vr->BuildUGrad(g, nV);
                    vr->DoReconstruction2ndGrad(g, u, fb, method);
                    for (index i = 0; i < mesh->NumCell(); i++)
                        if (double d = (g[i] - G).cwiseAbs().maxCoeff(); !(d < 1e-8))
                            sim_fail("gradient", "rank %d: the gradient (method %d) of a linear function is off by %g in cell %d", me, method, d, cid[i]);
                    break;
                }
                case O_POLY:
                case O_SORP:
                {
                    if (p->e.periodic() || p->bw != 1 || second || !p->R.exact || s.functionalSettings.greenGauss1Weight != 0)
                        break;
                    setPoly(sd);
                    for (index i = 0; i < mesh->NumCellProc(); i++)
                        uRecBuf[i] = uRec[i];
                    typename VR::template TFBoundary<nV> fb = [&](const Vec &ubl, const Vec &um, index iCell, index iFace, int ig, const tPoint &n, const tPoint &x, t_index id) -> Vec
                    {
                        Vec r;
                        for (int v = 0; v < nV; v++)
                            r(v) = poly(x, v, sd);
                        return r;
                    };
                    bool sorNow = o == O_SORP && sim_config()->omp_threads == 1;
                    s.SORInstead = sorNow;
                    vr->DoReconstructionIter(uRec, uRecNew, u, fb, false);
                    s.SORInstead = false;
                    for (index i = 0; i < mesh->NumCell(); i++)
                    {
                        bool in = false;
                        for (auto f : mesh->cell2face[i])
                            in = in || mesh->face2cell(f, 1) != UnInitIndex;
                        if (!in)
                            continue;
                        double d = (uRec[i] - uRecBuf[i]).cwiseAbs().maxCoeff(), sc = uRecBuf[i].cwiseAbs().maxCoeff() + u[i].cwiseAbs().maxCoeff();
                        if (!(d <= tolR * sc))
                            sim_fail("polynomial", "rank %d: a polynomial of degree %d is changed by the reconstruction%s in cell %d by %g of %g", me, s.maxOrder, sorNow ? " (SOR)" : "", cid[i], d, sc);
                    }
                    break;
                }
                }
                sim_probe((std::string("op:") + opName[o]).c_str());
            }
        }
    };
    template <int dim>
    void both(Plan *p, const MPIInfo &mpi)
    {
        if (mpi.rank == 0)
        {
            MPIInfo self = mpi;
            self.comm = MPI_COMM_SELF, self.rank = 0, self.size = 1;
            Run<dim> r(p, self, true);
            r.go();
            p->R.done = true;
        }
        MPI_Barrier(mpi.comm);
        Run<dim> r(p, mpi, false);
        r.go();
        sim_probe(fmts("deviation:1e%d of the tolerance", int(std::floor(std::log10(r.C.worst + 1e-10)))).c_str());
    }
    void rank(void *vp, int)
    {
        auto p = (Plan *)vp;
        MPI_Init(nullptr, nullptr);
        {
            MPIInfo mpi;
            mpi.setWorld();
            MPI::CommStrategy::Instance();
            if (p->e.dim == 2)
                both<2>(p, mpi);
            else
                both<3>(p, mpi);
        }
        MPI_Finalize();
    }
    void fin(void *) {}
    const wl_entry table[] = {
        {"rec", []() -> void * { return plan(false); }, rank, fin},
        {"exact", []() -> void * { return plan(true); }, rank, fin},
    };
}
extern "C" __attribute__((visibility("default"))) const wl_entry *wl_table(int *n)
{
    *n = sizeof(table) / sizeof(table[0]);
    return table;
}
