// Workload over the flow evaluator: time steps, residuals, the implicit operator, limiters, norms and wall distances of a
// distributed mesh are compared with the same on one rank; conservation, free streams and fixed points are checked.
#include "euler.hpp"
namespace
{
    template <EulerModel M>
    struct Run
    {
        using E = EulerEvaluator<M>;
        static constexpr int nV = E::nVarsFixed, dim = E::dim, gDim = E::gDim, I4 = dim + 1;
        using VR = typename E::TVFV;
        using TU = typename E::TU;
        using Vec = Eigen::Vector<real, nV>;
        Plan *p;
        ssp<UnstructuredMesh> mesh;
        ssp<VR> vr;
        ssp<BoundaryHandler<M>> bc;
        ssp<E> ev;
        std::vector<int> cid;
        Cmp C;
        int me;
        ArrayDOFV<nV> u, rhs, a, b, d;
        ArrayRECV<nV> uRec;
        ArrayDOFV<1> dt, beta, alpha, sc;
        JacobianDiagBlock<nV> JS, JD;
        double gamma = 1.4;
        Run(Plan *pp, const MPIInfo &mpi, bool ref) : p(pp), C{pp->R, ref, cid, 0, 0, pp->e.c.size(), mpi.rank}, me(mpi.rank)
        {
            DNDS_MAKE_SSP(mesh, mpi, gDim);
            ssp<UnstructuredMeshSerialRW> rd;
            DNDS_MAKE_SSP(rd, mesh, ref ? 0 : p->mRank);
            MC::distribute(mesh, *rd, p->e, ref ? p->part0 : p->part, 0, UnstructuredMeshSerialRW::PartitionOptions());
            MC::Exp x;
            x.e = &p->e, x.part = ref ? &p->part0 : &p->part;
            if (p->reorder && !ref)
                mesh->ReorderLocalCells();
            mesh->InterpolateFace();
            x.faces = true;
            MC::Checker ck(*mesh, x, ref ? p->B0 : p->B, ref ? "one rank" : "distributed");
            ck.all();
            cid = ck.cid;
            C.nOwn = mesh->NumCell(), C.nAll = mesh->NumCellProc();
            DNDS_MAKE_SSP(bc, nV);
            from_json(p->bcj, *bc);
            DNDS_MAKE_SSP(vr, mpi, mesh);
            vr->settings = p->s;
            auto sq = Eigen::seq(Eigen::fix<1>, Eigen::fix<dim>);
            auto m = mesh;
            vr->SetPeriodicTransformations(
                [m, sq](Eigen::Ref<MatrixXR> v, t_index id)
                { v(Eigen::all, sq) = m->periodicInfo.template TransVector<dim, Eigen::Dynamic>(v(Eigen::all, sq).transpose(), id).transpose(); },
                [m, sq](Eigen::Ref<MatrixXR> v, t_index id)
                { v(Eigen::all, sq) = m->periodicInfo.template TransVectorBack<dim, Eigen::Dynamic>(v(Eigen::all, sq).transpose(), id).transpose(); });
            vr->ConstructMetrics();
            auto h = bc;
            vr->ConstructBaseAndWeight([h](t_index id, int o) -> real
                                       {
                                           auto t = h->GetTypeFromID(id);
                                           if (t == BCSpecial || t == BCOut)
                                               return 0;
                                           if (FaceIDIsPeriodic(id))
                                               return 1;
                                           return o ? 0. : 1.; });
            vr->ConstructRecCoeff();
            for (auto x : {&u, &rhs, &a, &b, &d})
                vr->BuildUDof(*x, nV);
            vr->BuildURec(uRec, nV);
            for (auto x : {&dt, &beta, &alpha, &sc})
                vr->BuildUDof(*x, 1);
            DNDS_MAKE_SSP(ev, mesh, vr, bc, p->ej);
            JS.SetModeAndInit(ev->settings.useScalarJacobian ? 0 : 1, nV, u);
            JD.SetModeAndInit(ev->settings.useScalarJacobian ? 0 : 1, nV, u);
        }
        template <class T>
        void pull(T &x)
        {
            x.trans.startPersistentPull();
            x.trans.waitPersistentPull();
        }
        void vec(const std::string &name, const Eigen::VectorXd &x, double tol = 1e-9, double floor = 1e-3)
        {
            if (C.ref)
            {
                if (!x.allFinite())
                    sim_fail("not-finite", "%s is not finite on one rank", name.c_str());
                p->R.q[name] = {std::vector<double>(x.data(), x.data() + x.size())};
                return;
            }
            auto &y = p->R.q.at(name)[0];
            if (size_t(x.size()) != y.size())
                sim_fail("differs", "rank %d: %s has %d entries, on one rank %zu", me, name.c_str(), int(x.size()), y.size());
            double s = floor;
            for (double v : y)
                s = std::max(s, std::abs(v));
            for (size_t k = 0; k < y.size(); k++)
                if (!(std::abs(x(k) - y[k]) <= tol * s))
                    sim_fail("differs", "rank %d: %s entry %zu is %.15g, on one rank %.15g", me, name.c_str(), k, x(k), y[k]);
        }
        auto V(ArrayDOFV<nV> &x)
        {
            return [&x](index i)
            { return Vec(x[i]); };
        }
        auto S(ArrayDOFV<1> &x)
        {
            return [&x](index i)
            { return Eigen::Vector<real, 1>(x[i](0)); };
        }
        void state(uint64_t sd, double amp)
        {
            for (index i = 0; i < mesh->NumCell(); i++)
            {
                int k = 0;
                double v[8];
                stateOf(v, M, [&] { return rnd1(sd, cid[i], k++); }, gamma);
                for (int j = 0; j < nV; j++)
                    u[i](j) = v[j];
                for (int r = 0; r < uRec[i].rows(); r++)
                    for (int j = 0; j < nV; j++)
                        uRec[i](r, j) = amp * rnd1(hmix(sd, 1), cid[i], r * nV + j) * (j == 3 && dim == 3 && gDim == 2 ? 0 : 1);
            }
            pull(u), pull(uRec);
            beta.setConstant(1.0), alpha.setConstant(1.0);
        }
        void random(ArrayDOFV<nV> &x, uint64_t sd, double amp)
        {
            for (index i = 0; i < mesh->NumCell(); i++)
                for (int j = 0; j < nV; j++)
                    x[i](j) = amp * rnd1(sd, cid[i], j);
            pull(x);
        }
        void limited(const std::string &nm, int flag)
        {
            index nLim = 0;
            real bm = 1;
            ev->EvaluateURecBeta(u, uRec, beta, nLim, bm, flag);
            pull(uRec), pull(beta);
            C.cells(nm + " beta", C.nAll, S(beta), 1e-8);
            vec(nm + " limited cells", Eigen::Vector2d(double(nLim), bm), 1e-8);
        }
        void walls()
        {
            if (p->wdScheme == 3 && C.ref) // the iterations for the Poisson equation may fail, which is not what is asked here
                for (index i = 0; i < mesh->NumCell(); i++)
                    if (!ev->dWall.at(i).allFinite())
                        p->R.q["no wall distance"] = {};
            if (p->R.q.count("no wall distance"))
                return;
            C.cells("wall distance", C.nOwn, [&](index i) { return Eigen::VectorXd(ev->dWall.at(i)); }, 1e-9);
            C.cells("wall distance of faces", C.nOwn, [&](index i)
                    {
                        auto f = mesh->cell2face[i];
                        Eigen::VectorXd r(f.size());
                        for (int k = 0; k < f.size(); k++)
                            r(k) = ev->dWallFace.at(f[k]);
                        return r; }, 1e-9);
            if (p->wdScheme == 3 || !p->wall || p->e.dim != 2 || p->e.o2 || p->e.periodic())
                return;
            // by definition
            for (index i = 0; i < mesh->NumCell(); i++)
                for (int g = 0; g < vr->GetCellQuad(i).GetNumPoints(); g++)
                {
                    tPoint x = vr->GetCellQuadraturePPhys(i, g);
                    double w = ev->dWall.at(i)(g), m = 1e100;
                    for (auto &b : p->e.b)
                        if (b.zone == BC_ID_DEFAULT_WALL || (b.zone >= BC_ID_DEFAULT_MAX && p->bcj[b.zone - BC_ID_DEFAULT_MAX]["type"] == "BCWall"))
                        {
                            tPoint y0(p->e.x[b.n[0]].data()), y1(p->e.x[b.n[1]].data()), v = y1 - y0;
                            double t = std::min(1., std::max(0., v.dot(x - y0) / v.squaredNorm()));
                            m = std::min(m, (x - y0 - v * t).norm());
                        }
                    double mm = std::max(m, double(p->ej["minWallDist"]));
                    if (!(std::abs(w - m) < 1e-9 * (1 + m) || std::abs(w - mm) < 1e-9 * (1 + mm)))
                        sim_fail("wall distance", "rank %d: point %d of cell %d has wall distance %.12g, the nearest wall is at %.12g", me, g, cid[i], w, m);
                    sim_probe("wall distance checked");
                }
        }
        void lambda(const std::string &nm)
        {
            C.cells(nm + " spectral radii", C.nOwn, [&](index i)
                    {
                        auto f = mesh->cell2face[i];
                        Eigen::VectorXd r(f.size() * 3);
                        for (int k = 0; k < f.size(); k++)
                            r(3 * k) = ev->lambdaFace.at(f[k]), r(3 * k + 1) = ev->lambdaFaceC.at(f[k]), r(3 * k + 2) = ev->lambdaFaceVis.at(f[k]);
                        return r; }, 1e-9);
        }
        real timeStep(const std::string &nm, bool local, double CFL = 0.5)
        {
            real mn = 0;
            ev->EvaluateDt(dt, u, uRec, CFL, mn, 1e100, local);
            pull(dt);
            C.cells(nm, C.nAll, S(dt), 1e-9, nullptr, 0);
            vec(nm + " smallest", Eigen::Vector<real, 1>(mn), 1e-9, 0);
            lambda(nm);
            return mn;
        }
        void anchors(const std::string &nm)
        {
            ev->updateBCAnchors(u, uRec);
            for (auto &[i, r] : ev->anchorRecorders)
            {
                bool has = false;
                for (auto &x : p->e.b)
                    has = has || x.zone == i;
                // an anchor at the origin can have two boundary points at the same distance
                if (has && int(p->bcj[i - BC_ID_DEFAULT_MAX]["anchorOption"]) == 1)
                    vec(nm + fmts(" anchor of %d", int(i)), Eigen::VectorXd(r.val));
            }
            if (ev->anchorRecorders.empty())
                return;
            ev->profileRecorders.clear();
            ev->updateBCProfiles(u, uRec);
            bool full = true;
            for (auto &[i, r] : ev->profileRecorders)
            {
                bool has = false;
                for (auto &x : p->e.b)
                    has = has || x.zone == i;
                full = full && has && r.div.minCoeff() > 1e-9;
                if (!has)
                    continue;
                MatrixXR t(nV + 1, r.v.cols());
                t << r.v, r.div;
                vec(nm + fmts(" profile of %d", int(i)), Eigen::Map<Eigen::VectorXd>(t.data(), t.size()));
                vec(nm + fmts(" nodes of %d", int(i)), r.nodes);
            }
            if (full)
                ev->updateBCProfilesPressureRadialEq();
            else
                ev->profileRecorders.clear();
        }
        // what leaves through the boundary, from the recorded fluxes
        Vec outflow(bool wallOnly = false)
        {
            Vec s;
            s.setZero();
            for (index i = 0; i < mesh->NumBnd(); i++)
            {
                index f = mesh->bnd2face.at(i);
                if (f < 0 || f >= mesh->NumFace() || mesh->face2cell(f, 1) != UnInitIndex)
                    continue;
                s += ev->fluxBnd.at(i) * vr->GetFaceArea(f);
            }
            return s;
        }
        uint64_t rhsFlags(int k)
        {
            uint64_t f = 0;
            if (k & 1)
                f |= E::RHS_Ignore_Viscosity;
            // without limiter, the dissipation rate next to a wall extrapolates to negative values, which realizable k-epsilon refuses
            if (M == NS_2EQ && ev->settings.ransModel == RANSModel::RANS_RKE)
                return f;
            if (k & 2)
                f |= E::RHS_Direct_2nd_Rec;
            if ((k & 6) == 6)
                f |= E::RHS_Direct_2nd_Rec_1st_Conv;
            return f;
        }
        void residual(const std::string &nm, uint64_t flags)
        {
            ev->EvaluateRHS(rhs, JS, u, uRec, uRec, beta, alpha, false, 0.1, flags);
        }
        void conserved(const std::string &nm, bool noBoundary)
        {
            Vec s, o = outflow(), all, ao;
            s.setZero();
            double mag = 0, am = 0;
            for (index i = 0; i < mesh->NumCell(); i++)
                s += rhs[i] * vr->GetCellVol(i), mag += rhs[i].cwiseAbs().maxCoeff() * vr->GetCellVol(i);
            MPI_Allreduce(s.data(), all.data(), nV, MPI_DOUBLE, MPI_SUM, mesh->getMPI().comm);
            MPI_Allreduce(o.data(), ao.data(), nV, MPI_DOUBLE, MPI_SUM, mesh->getMPI().comm);
            MPI_Allreduce(&mag, &am, 1, MPI_DOUBLE, MPI_SUM, mesh->getMPI().comm);
            for (int k = 0; k < nV; k++)
                if (!(std::abs(all(k) - ao(k)) <= 1e-11 * (am + 1)))
                    sim_fail("conservation", "rank %d: %s: variable %d changes by %.15g in all cells together, %.15g passes the boundary (of %g)", me, nm.c_str(), k, all(k), ao(k), am);
        }
        void go()
        {
            walls();
            bool perAll = p->e.b.empty() || std::all_of(p->e.b.begin(), p->e.b.end(), [](auto &x) { return x.zone < 0; });
            for (size_t io = 0; io < p->ops.size(); io++)
            {
                int o = p->ops[io][0], k = p->ops[io][1];
                uint64_t sd = hmix(p->seed, io);
                std::string nm = fmts("%s (step %zu)", opName[o], io);
                double amp = k & 8 ? 0.1 : 0.01;
                switch (o)
                {
                case O_DT:
                    state(sd, amp);
                    timeStep(nm, k & 1);
                    break;
                case O_BETA:
                    state(sd, k & 16 ? 1.5 : 0.4);
                    limited(nm, k & 1);
                    C.cells(nm + " reconstruction", C.nAll, [&](index i) { return MatrixXR(uRec[i]); }, 1e-8);
                    break;
                case O_BAL:
                    state(sd, amp);
                    limited(nm, 0);
                    anchors(nm);
                    break;
                case O_RHS:
                case O_CONS:
                {
                    state(sd, amp);
                    if (k & 32)
                        limited(nm, 0);
                    if (o == O_RHS)
                        anchors(nm);
                    auto f = rhsFlags(k);
                    residual(nm, f);
                    pull(rhs);
                    if (o == O_RHS)
                    {
                        C.cells(nm, C.nAll, V(rhs), 1e-9);
                        C.cells(nm + " source Jacobian", C.nOwn, [&](index i) { return MatrixXR(JS.getValue(i)); }, 1e-8);
                        vec(nm + " wall flux", ev->fluxWallSum, 1e-9);
                        for (auto &[i, r] : ev->bndIntegrations)
                        {
                            Eigen::VectorXd t(r.v.size() + 1);
                            t << r.v, r.div;
                            vec(nm + fmts(" boundary integral of %d", int(i)), t, 1e-9);
                        }
                        C.scalar(nm + " reduced faces", double(ev->nFaceReducedOrder));
                    }
                    if (!p->source)
                        conserved(nm, perAll);
                    break;
                }
                case O_FREE:
                {
                    for (index i = 0; i < mesh->NumCell(); i++)
                    {
                        for (int j = 0; j < nV; j++)
                            u[i](j) = p->far[j];
                        uRec[i].setZero();
                    }
                    pull(u), pull(uRec);
                    beta.setConstant(1.0), alpha.setConstant(1.0);
                    bool ok = perAll || p->allFar;
                    if (!ok || p->source && !p->rotating || p->s.intOrder < 3 && (p->e.o2 || gDim == 3))
                        break;
                    residual(nm, rhsFlags(k) & ~uint64_t(E::RHS_Direct_2nd_Rec | E::RHS_Direct_2nd_Rec_1st_Conv));
                    if (p->source) // seen from the frame that turns, the momentum turns
                        for (index i = 0; i < mesh->NumCell(); i++)
                        {
                            Geom::tPoint q = Geom::tPoint::Zero();
                            for (int d = 0; d < dim; d++)
                                q(d) = p->far[1 + d];
                            q = ev->settings.frameConstRotation.vOmega().cross(q);
                            for (int d = 0; d < dim; d++)
                                rhs[i](1 + d) += q(d);
                        }
                    for (index i = 0; i < mesh->NumCell(); i++)
                        if (!(rhs[i].cwiseAbs().maxCoeff() * vr->GetCellVol(i) < 1e-9))
                            sim_fail("free stream", "rank %d: %s: a uniform flow changes in cell %d by %g", me, nm.c_str(), cid[i], rhs[i].cwiseAbs().maxCoeff());
                    sim_probe(p->rotating ? "free stream in a rotating frame checked" : "free stream checked");
                    break;
                }
                case O_MAT:
                case O_SOLVE:
                {
                    state(sd, 0.01);
                    timeStep(nm + " step", true, k & 16 ? 5 : 0.5);
                    residual(nm, k & 1);
                    double dtp = k & 2 ? 0.1 : 1e100, ad = k & 4 ? 0.25 : 1.0;
                    ev->LUSGSMatrixInit(JD, JS, dt, dtp, ad, u, uRec, 0, 0.);
                    C.cells(nm + " diagonal", C.nOwn, [&](index i) { return MatrixXR(JD.getValue(i)); }, 1e-9);
                    random(a, hmix(sd, 3), 1);
                    ev->LUSGSMatrixVec(ad, u, a, JD, b);
                    pull(b);
                    C.cells(nm + " product", C.nAll, V(b), 1e-9);
                    // one Jacobi sweep, through both interfaces
                    random(rhs, hmix(sd, 4), 1);
                    d.setConstant(0.0);
                    TU sum;
                    ev->UpdateSGS(ad, rhs, u, a, d, JD, true, sum);
                    C.cells(nm + " Jacobi", C.nOwn, V(d), 1e-8);
                    if (p->nThr == 1)
                        vec(nm + " Jacobi change", Eigen::VectorXd(sum), 1e-8);
                    {
                        ArrayDOFV<nV> w;
                        vr->BuildUDof(w, nV);
                        ev->UpdateLUSGSForward(ad, rhs, u, a, JD, w);
                        ev->UpdateLUSGSBackward(ad, rhs, u, a, JD, w);
                        for (index i = 0; i < mesh->NumCell(); i++)
                            if (double df = (w[i] - d[i]).cwiseAbs().maxCoeff(); !(df <= 1e-8 * (1 + d[i].cwiseAbs().maxCoeff())))
                                sim_fail("sweeps", "rank %d: %s: the two forms of a Jacobi sweep differ by %g in cell %d", me, nm.c_str(), df, cid[i]);
                    }
                    if (o == O_MAT)
                        break;
                    solvers(nm, sd, k, ad);
                    break;
                }
                case O_ALPHA:
                {
                    state(sd, 0.2);
                    limited(nm, 0);
                    random(a, hmix(sd, 5), k & 4 ? 3 : 1);
                    index nl = 0;
                    real am = 1;
                    int fl = k & 3;
                    if (fl == 3)
                        fl = 0;
                    ev->EvaluateCellRHSAlpha(u, uRec, beta, a, alpha, nl, am, 0.9, 1 + ((k >> 4) & 1), fl);
                    pull(alpha);
                    C.cells(nm, C.nOwn, S(alpha), 1e-8);
                    vec(nm + " smallest", Eigen::Vector2d(double(nl), am), 1e-8);
                    for (index i = 0; i < mesh->NumCell(); i++)
                    {
                        Vec v = u[i] + alpha[i](0) * a[i];
                        double pr = (gamma - 1) * (v(I4) - 0.5 * v.template segment<dim>(1).squaredNorm() / v(0));
                        if (!(v(0) > 0 && pr > 0))
                            sim_fail("positivity", "rank %d: %s: the limited increment leaves density %g and pressure %g in cell %d", me, nm.c_str(), v(0), pr, cid[i]);
                    }
                    if (k & 8)
                    {
                        ev->EvaluateCellRHSAlphaExpansion(u, uRec, beta, a, alpha, nl, am);
                        pull(alpha);
                        C.cells(nm + " expanded", C.nOwn, S(alpha), 1e-8);
                    }
                    break;
                }
                case O_NORM:
                {
                    state(sd, amp);
                    random(a, hmix(sd, 6), 1);
                    Eigen::VectorXd r;
                    const index Ps[] = {1, 2, 3};
                    index q = Ps[k % 3];
                    ev->EvaluateNorm(r, a, q, k & 4, k & 8);
                    vec(nm, r, 1e-10);
                    if (!(q == 2 && (k & 8))) // by definition (what "average" means for order 2 is not stated anywhere)
                    {
                        Eigen::VectorXd w = Eigen::VectorXd::Zero(nV), wa(nV);
                        double vol = 0, va = 0;
                        for (index i = 0; i < mesh->NumCell(); i++)
                        {
                            double f = k & 4 ? vr->GetCellVol(i) : 1;
                            vol += f;
                            for (int j = 0; j < nV; j++)
                                w(j) = q >= 3 ? std::max(w(j), std::abs(a[i](j))) : w(j) + f * std::pow(std::abs(a[i](j)), double(q));
                        }
                        MPI_Allreduce(w.data(), wa.data(), nV, MPI_DOUBLE, q >= 3 ? MPI_MAX : MPI_SUM, mesh->getMPI().comm);
                        MPI_Allreduce(&vol, &va, 1, MPI_DOUBLE, MPI_SUM, mesh->getMPI().comm);
                        if (q < 3)
                            for (int j = 0; j < nV; j++)
                                wa(j) = std::pow((k & 8) ? wa(j) / va : wa(j), 1. / q);
                        if (!((wa - r).cwiseAbs().maxCoeff() <= 1e-9 * (1 + wa.cwiseAbs().maxCoeff())))
                            sim_fail("norm", "rank %d: %s: order %d%s%s is off by %g", me, nm.c_str(), int(q), k & 4 ? " by volume" : "", k & 8 ? " mean" : "", (wa - r).cwiseAbs().maxCoeff());
                    }
                    ev->EvaluateRecNorm(r, u, uRec, q, k & 16, [](const tPoint &x, real t)
                                        { TU r; r.setConstant(nV, std::sin(x(0))); return r; }, [](const tPoint &x, real t)
                                        { return 1 + 0.1 * x(0); }, 0);
                    vec(nm + " of the reconstruction", r, 1e-10);
                    vec(nm + " dot", Eigen::Vector3d(a.dot(u), a.norm2(), dt.Size() ? 0. : 0.), 1e-10);
                    break;
                }
                case O_SMOOTH:
                {
                    state(sd, amp);
                    timeStep(nm + " step", true);
                    ev->MinSmoothDTau(dt, sc);
                    C.cells(nm, C.nOwn, S(sc), 1e-9);
                    random(a, hmix(sd, 7), 1);
                    ev->CentralSmoothResidual(a, b, d, k % 3);
                    if (k % 3 || ev->settings.nCentralSmoothStep)
                        C.cells(nm + " of a residual", C.nOwn, V(b), 1e-9);
                    break;
                }
                case O_LIMU:
                {
                    state(sd, amp);
                    ArrayGRADV<nV, gDim> g, gn;
                    vr->BuildUGrad(g, nV), vr->BuildUGrad(gn, nV);
                    for (index i = 0; i < mesh->NumCell(); i++)
                        for (int r = 0; r < gDim; r++)
                            for (int j = 0; j < nV; j++)
                                g[i](r, j) = rnd1(hmix(sd, 8), cid[i], r * nV + j);
                    pull(g);
                    ev->LimiterUGrad(u, g, gn);
                    pull(gn);
                    C.cells(nm, C.nAll, [&](index i) { return MatrixXR(gn[i]); }, 1e-9);
                    break;
                }
                case O_INIT:
                    state(sd, amp);
                    ev->InitializeUDOF(a);
                    pull(a);
                    C.cells(nm, C.nAll, V(a), 1e-12);
                    break;
                case O_AVG:
                {
                    real t = 0;
                    b.setConstant(0.0);
                    std::vector<Vec> ex(mesh->NumCell(), Vec::Zero());
                    double tt = 0;
                    for (int s = 0; s < 1 + k % 3; s++)
                    {
                        state(hmix(sd, s), amp);
                        ev->MeanValueCons2Prim(u, a);
                        double w = 0.1 + rnd01(sd, 50 + s);
                        for (index i = 0; i < mesh->NumCell(); i++)
                            ex[i] += w * a[i];
                        tt += w;
                        ev->TimeAverageAddition(a, b, w, t);
                    }
                    for (index i = 0; i < mesh->NumCell(); i++)
                        if (!((b[i] - ex[i] / tt).cwiseAbs().maxCoeff() < 1e-10) || std::abs(t - tt) > 1e-12)
                            sim_fail("average", "rank %d: %s: the time average of cell %d is off by %g", me, nm.c_str(), cid[i], (b[i] - ex[i] / tt).cwiseAbs().maxCoeff());
                    ev->MeanValuePrim2Cons(a, d);
                    for (index i = 0; i < mesh->NumCell(); i++)
                        if (!((d[i] - u[i]).cwiseAbs().maxCoeff() < 1e-11 * (1 + u[i].cwiseAbs().maxCoeff())))
                            sim_fail("average", "rank %d: %s: conserved and primitive variables of cell %d do not invert", me, nm.c_str(), cid[i]);
                    break;
                }
                case O_FIX:
                {
                    state(sd, amp);
                    random(a, hmix(sd, 9), k & 1 && !p->ej["ppEpsIsRelaxed"] ? 3 : 0.3); // with relaxed bounds rounding decides the sign of a vanishing density
                    ev->AddFixedIncrement(u, a, k & 2 ? 0.5 : 1.0);
                    pull(u);
                    C.cells(nm, C.nAll, V(u), 1e-9);
                    for (index i = 0; i < mesh->NumCell(); i++)
                    {
                        Vec v = u[i];
                        double pr = (gamma - 1) * (v(I4) - 0.5 * v.template segment<dim>(1).squaredNorm() / v(0));
                        if (!(v(0) > 0 && pr > 0))
                            sim_fail("positivity", "rank %d: %s: the fixed increment leaves density %g and pressure %g in cell %d", me, nm.c_str(), v(0), pr, cid[i]);
                    }
                    if (!ev->AssertMeanValuePP(u, false))
                        sim_fail("positivity", "rank %d: %s: the increment is reported as not positive", me, nm.c_str());
                    break;
                }
                }
                sim_probe((std::string("op:") + opName[o]).c_str());
            }
        }
        // x is a fixed point of every solver for A x = b
        void solvers(const std::string &nm, uint64_t sd, int k, double ad)
        {
            random(a, hmix(sd, 3), 1);
            ev->LUSGSMatrixVec(ad, u, a, JD, b);
            pull(b);
            auto same = [&](ArrayDOFV<nV> &x, const char *what, double tol = 1e-6)
            {
                for (index i = 0; i < mesh->NumCell(); i++)
                    for (int j = 0; j < nV; j++)
                        if (double df = std::abs(x[i](j) - rnd1(hmix(sd, 3), cid[i], j)); !(df <= tol))
                            sim_fail("fixed point", "rank %d: %s: %s moves the solution by %g in cell %d", me, nm.c_str(), what, df, cid[i]);
            };
            TU sum;
            d.setConstant(0.0);
            ev->UpdateSGS(ad, b, u, a, d, JD, true, sum);
            same(d, "a Jacobi sweep");
            for (int t = 0; t < 2; t++)
            {
                ev->UpdateSGS(ad, b, u, a, a, JD, t == 0, sum);
                pull(a);
                same(a, t ? "a backward sweep" : "a forward sweep");
            }
            Direct::DirectPrecControl dc;
            dc.useDirectPrec = true, dc.iluCode = int(k % 5) - 1;
            const int oc[] = {INT32_MIN, 0, 1, 2};
            dc.orderingCode = oc[(k / 8) % 4];
            { // boost::minimum_degree_ordering fails for complete graphs
                auto g = mesh->GetCell2CellFaceVLocal();
                bool complete = true;
                for (auto &r : g)
                    complete = complete && r.size() + 1 >= g.size();
                if (complete)
                    dc.orderingCode = 0;
            }
            DNDS_MAKE_SSP(ev->symLU, mesh->getMPI(), mesh->NumCell());
            mesh->ObtainLocalFactFillOrdering(*ev->symLU, dc);
            mesh->ObtainSymmetricSymbolicFactorization(*ev->symLU, dc);
            JacobianLocalLU<nV> lu(ev->symLU, nV);
            ev->LUSGSMatrixToJacobianLU(ad, u, JD, lu);
            random(a, hmix(sd, 3), 1);
            {
                ArrayDOFV<nV> buf, w;
                vr->BuildUDof(buf, nV), vr->BuildUDof(w, nV);
                ev->LUSGSMatrixSolveJacobianLU(ad, b, u, a, w, buf, JD, lu, sum);
                for (index i = 0; i < mesh->NumCell(); i++)
                    if (!Vec(w[i]).allFinite())
                        sim_fail("fixed point", "rank %d: %s: an incomplete factorisation gives infinite values", me, nm.c_str());
                if (dc.iluCode == -1)
                {
                    same(w, "a factorised sweep");
                    // the factorisation is complete: one sweep solves the part of the rank
                    a.setConstant(0.0);
                    random(d, hmix(sd, 3), 1);
                    for (index i = mesh->NumCell(); i < mesh->NumCellProc(); i++)
                        a[i] = d[i];
                    ev->LUSGSMatrixSolveJacobianLU(ad, b, u, a, w, buf, JD, lu, sum);
                    same(w, "a complete factorisation", 1e-6);
                }
            }
        }
    };
    template <EulerModel M>
    void both(Plan *p, const MPIInfo &mpi)
    {
        if (mpi.rank == 0)
        {
            MPIInfo self = mpi;
            self.comm = MPI_COMM_SELF, self.rank = 0, self.size = 1;
            Run<M> r(p, self, true);
            r.go();
            p->R.done = true;
        }
        MPI_Barrier(mpi.comm);
        Run<M> r(p, mpi, false);
        r.go();
        sim_probe(fmts("deviation:1e%d of the tolerance", int(std::floor(std::log10(r.C.worst + 1e-10)))).c_str());
    }
    void rank(void *vp, int)
    {
        auto p = (Plan *)vp;
        MPI_Init(nullptr, nullptr);
        {
            MPIInfo mpi;
            mpi.setWorld();
            MPI::CommStrategy::Instance();
            onModel(p->model, [&](auto m) { both<decltype(m)::value>(p, mpi); });
        }
        MPI_Finalize();
    }
    void fin(void *) {}
    const wl_entry table[] = {
        {"eval", []() -> void * { return plan(M_EVAL); }, rank, fin},
        {"cons", []() -> void * { return plan(M_CONS); }, rank, fin},
        {"solve", []() -> void * { return plan(M_SOLVE); }, rank, fin},
        {"wall", []() -> void * { return plan(M_WALL); }, rank, fin},
    };
}
extern "C" __attribute__((visibility("default"))) const wl_entry *wl_table(int *n)
{
    *n = sizeof(table) / sizeof(table[0]);
    return table;
}
