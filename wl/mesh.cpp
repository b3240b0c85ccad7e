// Workloads over the distributed mesh: distribution of a generated mesh, face interpolation, inverse relations,
// cell reordering, numbering changes.
#include "mesh.hpp"
#include "DNDS/SerializerFactory.hpp"
using namespace DNDS;
using namespace DNDS::Geom;
using namespace W;
namespace
{
    using DNDS::index;
    enum Op
    {
        O_FACES,
        O_N2CB,
        O_REORDER,
        O_TP,  // primary to global and back
        O_TF,  // faces
        O_TC,  // cell2face
        O_TN,  // node2cell, node2bnd
        O_PULL,    // ghost rows of all relations pulled again, in global numbering
        O_RECOVER, // cell2cell and bnd2cell again from cell2node
        O_N,
        O_SER = O_N, // serial output arrays
        O_BND,       // boundary mesh and its outputs
        O_VTK,       // parallel output connectivity
        O_ELEV,
        O_BISECT
    };
    const char *opName[] = {"faces", "inverse", "reorder", "toggle-primary", "toggle-facial", "toggle-c2f", "toggle-n2cb", "refresh", "recover", "serial-out", "bnd-mesh", "vtk", "elevate", "bisect"};
    struct Plan
    {
        int nr = 1, mRank = 0, metis = 0;
        CommOpts co;
        MG::Mesh e;
        std::vector<int> part;
        UnstructuredMeshSerialRW::PartitionOptions po;
        std::vector<int> ops;
        bool every = true;
        MC::Board B;
        std::vector<MC::Bis> bis; // one per bisection
        // archive
        int inc = 1;
        bool json = false;
        Serializer::SerializerFactory fac;
        std::vector<int> ops2; // after reading
        // smoothing of elevated nodes
        bool smooth = false;
        std::set<int> curved; // zones
        double angle = 15, radius = 1;
        RBF::RBFKernelType kernel = RBF::InversedDistanceA1;
        std::vector<int> part0;
        MC::Board B0;
        std::unique_ptr<MG::Mesh> e0;
        std::vector<std::array<double, 3>> X; // where one rank puts the nodes
    };
    std::string describe(const Plan &p)
    {
        std::string s = fmts("ranks %d, reader %d, %dD n=%d,%d,%d per=%d,%d,%d O%d, %zu cells %zu nodes %zu bnds, part %s%s, ops", p.nr, p.mRank, p.e.dim, p.e.n[0], p.e.n[1], p.e.n[2], p.e.per[0], p.e.per[1], p.e.per[2], p.e.o2 ? 2 : 1, p.e.c.size(), p.e.x.size(), p.e.b.size(), p.metis ? "METIS" : "", vstr(p.part).c_str());
        for (int o : p.ops)
            s += std::string(" ") + opName[o];
        if (p.ops2.size())
            s += " | after reading";
        for (int o : p.ops2)
            s += std::string(" ") + opName[o];
        if (p.smooth)
        {
            s += fmts(", smooth: angle %g, radius %g, kernel %d, zones", p.angle, p.radius, int(p.kernel));
            for (int z : p.curved)
                s += fmts(" %d", z);
        }
        return s + ", " + p.co.str();
    }
    void probes(const Plan &p)
    {
        if (p.nr > 1)
            sim_probe("nontrivial");
        sim_probe(p.e.dim == 3 ? "mesh:3d" : "mesh:2d");
        if (p.e.periodic())
            sim_probe("mesh:periodic");
        if (p.e.o2)
            sim_probe("mesh:o2");
        if (p.metis)
            sim_probe("mesh:metis");
        std::set<int> ts, used(p.part.begin(), p.part.end());
        for (auto &c : p.e.c)
            ts.insert(c.type);
        if (ts.size() > 1)
            sim_probe("mesh:mixed_types");
        if ((int)used.size() < p.nr && !p.metis)
            sim_probe("mesh:empty_rank");
    }
    void drawBase(Plan *p, const MG::GenOpt &go)
    {
        auto c = sim_config();
        p->nr = c->nranks = PB(12) ? 1 : PR(2, 5);
        p->co.draw();
        p->co.apply();
        p->mRank = PB(25) ? int(P(p->nr)) : 0;
        c->omp_threads = PB(15) ? 2 : 1;
        p->e = MG::generate(go);
        p->part = MG::partition(p->e, p->nr);
        if ((int)p->e.c.size() >= 2 * p->nr && MG::connected(p->e) && PB(20))
        {
            p->metis = 1;
            p->po.metisType = PB(30) ? "RB" : "KWAY";
            p->po.metisSeed = int(P(5));
            p->po.metisNcuts = 1 + int(P(2));
        }
        p->B.reset(p->nr);
        p->every = PB(50);
    }
    enum Fl
    {
        F_DIST,
        F_FACES,
        F_REORDER,
        F_INV,
        F_REFINE,
        F_OUT,
        F_ARCHIVE,
        F_SMOOTH
    };
    struct Gen // legal sequences of operations
    {
        bool faces = false, n2cb = false, o2 = false;
        std::vector<int> ops;
        void add(int o)
        {
            ops.push_back(o);
            faces = faces || o == O_FACES, n2cb = n2cb || o == O_N2CB || o == O_RECOVER;
            if (o == O_ELEV || o == O_BISECT)
                faces = false, n2cb = o == O_BISECT, o2 = o == O_ELEV;
        }
        void rnd(int n, const std::vector<int> &allowed)
        {
            for (int i = 0; i < n; i++)
            {
                int o = allowed[P(allowed.size())];
                bool ok = true;
                switch (o)
                {
                case O_FACES: ok = !faces; break;
                case O_RECOVER: ok = !faces; break;
                case O_TF: case O_TC: case O_BND: ok = faces; break;
                case O_TN: ok = n2cb; break;
                }
                add(ok ? o : O_TP);
            }
        }
    };
    Plan *planCore(Fl fl)
    {
        auto p = new Plan;
        MG::GenOpt go;
        go.pO2 = fl == F_REFINE || fl == F_SMOOTH ? 0 : 20;
        if (fl == F_REFINE || fl == F_SMOOTH)
            go.maxCells2 = 14, go.maxCells3 = 8;
        if (fl == F_SMOOTH)
            go.pPer = 0, go.maxCells2 = 24, go.maxCells3 = 12; // radial functions do not know of periodic images
        // with two layers, cells share faces with the same nodes; recovery and elevation need three layers
        bool two = fl != F_REFINE && fl != F_SMOOTH && fl != F_INV && PB(30);
        go.minPer = two ? 2 : 3;
        drawBase(p, go);
        Gen g;
        switch (fl)
        {
        case F_DIST: g.rnd(int(P(3)), {O_TP}); break;
        case F_FACES:
            g.rnd(int(P(2)), {O_TP, O_N2CB, O_RECOVER});
            g.add(O_FACES);
            g.rnd(int(P(4)), {O_TP, O_TF, O_TC, O_N2CB, O_TN});
            break;
        case F_INV:
            g.rnd(int(P(3)), {O_TP, O_N2CB, O_FACES, O_RECOVER, O_REORDER});
            if (!g.n2cb)
                g.add(g.faces || P(2) == 0 ? O_N2CB : O_RECOVER);
            g.rnd(int(P(4)), {O_TP, O_N2CB, O_RECOVER, O_TN, O_FACES, O_TC});
            break;
        case F_REORDER:
            g.rnd(int(P(3)), {O_TP, O_FACES, O_N2CB, O_TF, O_TC, O_RECOVER});
            g.add(O_REORDER);
            g.rnd(int(P(4)), {O_TP, O_FACES, O_N2CB, O_TF, O_TC, O_TN, O_REORDER, O_RECOVER});
            break;
        case F_REFINE:
            g.rnd(int(P(2)), {O_TP, O_REORDER, O_FACES});
            if (p->e.c.size() <= 4 && P(4) == 3)
                g.add(O_BISECT);
            g.add(P(2) ? O_BISECT : O_ELEV);
            g.rnd(int(P(4)), {O_TP, O_FACES, O_N2CB, O_TF, O_TC, O_TN, O_REORDER, O_RECOVER, O_SER, O_VTK});
            break;
        case F_SMOOTH:
        {
            g.rnd(int(P(2)), {O_TP, O_REORDER, O_FACES});
            g.add(O_ELEV);
            g.rnd(int(P(3)), {O_TP, O_FACES, O_TF, O_TC, O_REORDER});
            if (!g.faces)
                g.add(O_FACES);
            p->smooth = true;
            std::set<int> z;
            for (auto &b : p->e.b)
                if (b.zone > 0)
                    z.insert(b.zone);
            for (int q : z)
                if (PB(60))
                    p->curved.insert(q);
            const double angles[] = {15, 40, 70};
            p->angle = angles[P(3)];
            p->radius = 0.53 + 0.31 * P(4);
            const RBF::RBFKernelType kernels[] = {RBF::InversedDistanceA1, RBF::InversedDistanceA1Compact, RBF::CPC2, RBF::CPC0};
            p->kernel = kernels[P(4)];
            p->part0.assign(p->e.c.size(), 0);
            p->B0.reset(1);
            break;
        }
        case F_OUT:
            if (P(4))
                g.add(O_FACES);
            g.rnd(int(P(2)), {O_REORDER, O_TP, O_N2CB});
            g.rnd(1 + int(P(4)), {O_SER, O_BND, O_VTK, O_SER, O_BND, O_VTK, O_TP, O_REORDER});
            break;
        case F_ARCHIVE:
            g.rnd(int(P(3)), {O_TP, O_REORDER, O_FACES, O_N2CB});
            if (!p->e.o2 && p->e.c.size() <= 8 && P(4) == 3)
                g.add(P(2) ? O_BISECT : O_ELEV);
            {
                Gen h;
                h.rnd(int(P(4)), {O_TP, O_REORDER, O_FACES, O_N2CB, O_SER, O_VTK, O_TF, O_BND, O_RECOVER});
                p->ops2 = h.ops;
            }
            p->inc = sim_config()->incarnations = PB(50) ? 2 : 1;
            p->fac.type = P(2) ? "JSON" : "H5";
            p->json = p->fac.type == "JSON";
            p->fac.hdfDeflateLevel = P(2) ? int(P(4)) : 0;
            p->fac.hdfChunkSize = p->fac.hdfDeflateLevel ? 1 + int(P(64)) : int(P(3)) * 32;
            p->fac.hdfCollOnMeta = P(2), p->fac.hdfCollOnData = P(2);
            p->fac.jsonBinaryDeflateLevel = P(6);
            p->fac.jsonUseCodecOnUInt8 = P(2);
            break;
        }
        auto refresh = [&](std::vector<int> &v)
        {
            if (PB(25))
                v.insert(v.begin() + P(v.size() + 1), O_PULL);
        };
        refresh(g.ops);
        if (fl == F_ARCHIVE)
            refresh(p->ops2);
        auto drop = [&](std::vector<int> &v)
        {
            for (int &o : v)
                if (o == O_RECOVER)
                    o = O_N2CB;
                else if (o == O_ELEV || o == O_BISECT)
                    o = O_TP;
        };
        if (two)
            drop(g.ops), drop(p->ops2);
        p->ops = g.ops;
        int nb = 0;
        for (auto &v : {p->ops, p->ops2})
            for (int o : v)
                nb += o == O_BISECT || o == O_ELEV;
        p->bis.resize(nb);
        for (auto &b : p->bis)
            b.reset(p->nr);
        probes(*p);
        sim_sample(describe(*p).c_str());
        return p;
    }
    void runOps(ssp<UnstructuredMesh> &mesh, ssp<UnstructuredMeshSerialRW> &rd, Plan *p, MC::Exp &x, const std::vector<int> &ops, size_t &iBis, std::string hist)
    {
        auto chk = [&](const std::string &w)
        { MC::check(*mesh, x, p->B, w); };
        if (p->every || ops.empty())
            chk(hist);
        for (size_t i = 0; i < ops.size(); i++)
        {
            int o = ops[i];
            auto &m = *mesh;
            hist += std::string(", ") + opName[o];
            switch (o)
            {
            case O_FACES:
                m.InterpolateFace();
                m.AssertOnFaces();
                x.faces = true;
                break;
            case O_N2CB:
                m.AdjLocal2GlobalPrimary();
                m.RecoverNode2CellAndNode2Bnd();
                x.n2cb = true, x.n2cbGhost = false;
                m.AdjGlobal2LocalPrimary();
                if (p->every)
                    chk(hist + " (before ghosts)");
                m.BuildGhostN2CB();
                x.n2cbGhost = true;
                if (p->every)
                    chk(hist + " (global)");
                m.AdjGlobal2LocalN2CB();
                m.AssertOnN2CB();
                break;
            case O_RECOVER:
                m.AdjLocal2GlobalPrimary();
                m.RecoverNode2CellAndNode2Bnd();
                m.RecoverCell2CellAndBnd2Cell();
                m.BuildGhostPrimary();
                m.AdjGlobal2LocalPrimary();
                m.AdjGlobal2LocalN2CB();
                x.n2cb = true, x.n2cbGhost = false;
                break;
            case O_REORDER:
                m.ReorderLocalCells();
                break;
            case O_TP:
                m.AdjLocal2GlobalPrimary();
                if (p->every)
                    chk(hist + " (global)");
                m.AdjGlobal2LocalPrimary();
                break;
            case O_PULL:
            {
                m.AdjLocal2GlobalPrimary();
                m.coords.trans.pullOnce();
                m.cell2cell.trans.pullOnce();
                m.cell2node.trans.pullOnce();
                m.cellElemInfo.trans.pullOnce();
                m.bnd2cell.trans.pullOnce();
                m.bnd2node.trans.pullOnce();
                m.bndElemInfo.trans.pullOnce();
                if (m.isPeriodic)
                    m.cell2nodePbi.trans.pullOnce();
                m.AdjGlobal2LocalPrimary();
                if (x.faces)
                {
                    m.AdjLocal2GlobalC2F();
                    m.cell2face.trans.pullOnce();
                    m.AdjGlobal2LocalC2F();
                    m.AdjLocal2GlobalFacial();
                    m.face2cell.trans.pullOnce();
                    m.face2node.trans.pullOnce();
                    m.faceElemInfo.trans.pullOnce();
                    if (m.isPeriodic)
                        m.face2nodePbi.trans.pullOnce();
                    m.AdjGlobal2LocalFacial();
                }
                if (x.n2cbGhost)
                {
                    m.AdjLocal2GlobalN2CB();
                    m.node2cell.trans.pullOnce();
                    m.node2bnd.trans.pullOnce();
                    m.AdjGlobal2LocalN2CB();
                }
                break;
            }
            case O_TF:
                m.AdjLocal2GlobalFacial();
                if (p->every)
                    chk(hist + " (global)");
                m.AdjGlobal2LocalFacial();
                break;
            case O_TC:
                m.AdjLocal2GlobalC2F();
                if (p->every)
                    chk(hist + " (global)");
                m.AdjGlobal2LocalC2F();
                break;
            case O_TN:
                m.AdjLocal2GlobalN2CB();
                if (p->every)
                    chk(hist + " (global)");
                m.AdjGlobal2LocalN2CB();
                break;
            case O_SER:
            {
                MC::Checker c(m, x, p->B, hist);
                c.all();
                m.AdjLocal2GlobalPrimary();
                rd->BuildSerialOut();
                m.AdjGlobal2LocalPrimary();
                c.serialOut(*rd);
                break;
            }
            case O_VTK:
            {
                MC::Checker c(m, x, p->B, hist);
                c.all();
                m.RecreatePeriodicNodes();
                m.BuildVTKConnectivity();
                c.vtk();
                break;
            }
            case O_BND:
            {
                MC::Checker c(m, x, p->B, hist);
                c.all();
                ssp<UnstructuredMesh> bm;
                DNDS_MAKE_SSP(bm, m.getMPI(), m.dim - 1);
                bm->mRank = m.mRank;
                m.ConstructBndMesh(*bm);
                c.bndMesh(*bm);
                UnstructuredMeshSerialRW rb(bm, p->mRank);
                bm->AdjLocal2GlobalPrimaryForBnd();
                rb.BuildSerialOut();
                bm->AdjGlobal2LocalPrimaryForBnd();
                c.bndMesh(*bm);
                c.bndSerialOut(rb);
                bm->RecreatePeriodicNodes();
                bm->BuildVTKConnectivity();
                c.bndVtk(*bm);
                break;
            }
            case O_ELEV:
            case O_BISECT:
            {
                auto &bs = p->bis[iBis++];
                if (m.getMPI().rank == 0)
                    bs.e2 = std::make_unique<MG::Mesh>(x.e->elevate());
                ssp<UnstructuredMesh> m2;
                DNDS_MAKE_SSP(m2, m.getMPI(), m.dim);
                m2->BuildO2FromO1Elevation(m);
                m2->BuildGhostPrimary();
                MPI_Barrier(m.getMPI().comm);
                MC::Exp x2;
                x2.e = bs.e2.get(), x2.part = x.part, x2.bndOrdered = false;
                if (o == O_ELEV)
                {
                    if (p->every)
                        MC::check(*m2, x2, p->B, hist + " (global)");
                    m2->AdjGlobal2LocalPrimary();
                    mesh = m2, x = x2;
                }
                else
                {
                    ssp<UnstructuredMesh> m1;
                    DNDS_MAKE_SSP(m1, m.getMPI(), m.dim);
                    m1->BuildBisectO1FormO2(*m2);
                    m1->RecoverNode2CellAndNode2Bnd();
                    m1->RecoverCell2CellAndBnd2Cell();
                    m1->BuildGhostPrimary();
                    m1->AdjGlobal2LocalPrimary();
                    m1->AdjGlobal2LocalN2CB();
                    MC::Checker c(*m1, x2, p->B, hist);
                    c.children(bs, *x2.part);
                    mesh = m1;
                    x = MC::Exp();
                    x.e = bs.e1.get(), x.part = &bs.part, x.bndOrdered = false, x.n2cb = true;
                }
                rd->mesh = mesh;
                break;
            }
            }
            sim_probe((std::string("op:") + opName[o]).c_str());
            if (p->every || i + 1 == ops.size())
                chk(hist);
        }
    }
    // The curved boundaries and the nodes inside follow: on every partition to the same places.
    void smooth(UnstructuredMesh &m, Plan *p, MC::Exp &x, bool ref)
    {
        MC::Checker c(m, x, ref ? p->B0 : p->B, ref ? "to be smoothed on one rank" : "to be smoothed");
        c.all();
        m.elevationInfo.nSearch = 1 << 12; // all of them: the nearest few may be ties
        m.elevationInfo.RBFRadius = p->radius, m.elevationInfo.MaxIncludedAngle = p->angle, m.elevationInfo.kernel = p->kernel;
        m.ElevatedNodesGetBoundarySmooth([&](t_index z) { return p->curved.count(int(z)) > 0; });
        m.ElevatedNodesSolveInternalSmooth();
        if (ref)
            p->X.assign(x.e->x.size(), {});
        double moved = 0;
        for (index i = 0; i < m.coords.Size(); i++)
        {
            auto &X = p->X[c.nid[i]];
            for (int d = 0; d < 3; d++)
            {
                double v = m.coords[i](d);
                if (!std::isfinite(v))
                    sim_fail("smooth", "rank %d: node %d is nowhere", m.getMPI().rank, c.nid[i]);
                moved = std::max(moved, std::abs(v - x.e->x[c.nid[i]][d]));
                if (ref)
                    X[d] = v;
                else if (!(std::abs(v - X[d]) <= 1e-8))
                    sim_fail("smooth", "rank %d: smoothing moves node %d (%s) to %.12g in direction %d, on one rank to %.12g (from %.12g)", m.getMPI().rank, c.nid[i], i < m.coords.father->Size() ? "owned" : "ghost", v, d, X[d], x.e->x[c.nid[i]][d]);
            }
        }
        if (ref && moved > 1e-3)
            sim_probe("smooth:moved");
    }
    void smoothOnOne(Plan *p, const MPIInfo &mpi)
    {
        MPIInfo self = mpi;
        self.comm = MPI_COMM_SELF, self.rank = 0, self.size = 1;
        ssp<UnstructuredMesh> m, m2;
        DNDS_MAKE_SSP(m, self, p->e.dim);
        ssp<UnstructuredMeshSerialRW> rd;
        DNDS_MAKE_SSP(rd, m, 0);
        MC::distribute(m, *rd, p->e, p->part0, 0, UnstructuredMeshSerialRW::PartitionOptions());
        DNDS_MAKE_SSP(m2, self, p->e.dim);
        m2->BuildO2FromO1Elevation(*m);
        m2->BuildGhostPrimary();
        m2->AdjGlobal2LocalPrimary();
        m2->InterpolateFace();
        p->e0 = std::make_unique<MG::Mesh>(p->e.elevate());
        MC::Exp x;
        x.e = p->e0.get(), x.part = &p->part0, x.bndOrdered = false, x.faces = true;
        smooth(*m2, p, x, true);
    }
    void rankCore(void *vp, int r)
    {
        auto p = (Plan *)vp;
        MPI_Init(nullptr, nullptr);
        {
            MPIInfo mpi;
            mpi.setWorld();
            MPI::CommStrategy::Instance();
            ssp<UnstructuredMesh> mesh;
            DNDS_MAKE_SSP(mesh, mpi, p->e.dim);
            ssp<UnstructuredMeshSerialRW> rd;
            DNDS_MAKE_SSP(rd, mesh, p->mRank);
            MC::distribute(mesh, *rd, p->e, p->part, p->metis, p->po);
            MC::Exp x;
            x.e = &p->e, x.part = &p->part;
            size_t iBis = 0;
            runOps(mesh, rd, p, x, p->ops, iBis, "distributed");
            if (p->smooth)
            {
                if (mpi.rank == 0)
                    smoothOnOne(p, mpi);
                MPI_Barrier(mpi.comm);
                smooth(*mesh, p, x, false);
            }
        }
        MPI_Finalize();
    }
    void rankArchive(void *vp, int r)
    {
        auto p = (Plan *)vp;
        bool w = sim_incarnation() == 0, last = sim_incarnation() == p->inc - 1;
        MPI_Init(nullptr, nullptr);
        {
            MPIInfo mpi;
            mpi.setWorld();
            MPI::CommStrategy::Instance();
            std::string name = std::string(sim_workdir()) + "/mesh" + (p->json ? fmts("_%d.json", mpi.rank) : std::string(".dnds.h5"));
            size_t iBis = 0;
            MC::Exp x;
            x.e = &p->e, x.part = &p->part;
            if (w)
            {
                ssp<UnstructuredMesh> mesh;
                DNDS_MAKE_SSP(mesh, mpi, p->e.dim);
                ssp<UnstructuredMeshSerialRW> rd;
                DNDS_MAKE_SSP(rd, mesh, p->mRank);
                MC::distribute(mesh, *rd, p->e, p->part, p->metis, p->po);
                runOps(mesh, rd, p, x, p->ops, iBis, "distributed");
                auto s = p->fac.BuildSerializer(mpi);
                s->OpenFile(name, false);
                mesh->WriteSerialize(s, "meshPart");
                s->CloseFile();
                MC::check(*mesh, x, p->B, "after writing");
                MPI_Barrier(mpi.comm);
            }
            if (last)
            {
                for (auto &b : p->bis)
                {
                    x.e = b.e1 ? b.e1.get() : b.e2 ? b.e2.get() : x.e;
                    if (b.e1)
                        x.part = &b.part;
                    if (b.e1 || b.e2)
                        x.bndOrdered = false;
                }
                x.faces = x.n2cb = x.n2cbGhost = false;
                ssp<UnstructuredMesh> mesh;
                DNDS_MAKE_SSP(mesh, mpi, p->e.dim);
                mesh->mRank = p->mRank;
                ssp<UnstructuredMeshSerialRW> rd;
                DNDS_MAKE_SSP(rd, mesh, p->mRank);
                auto s = p->fac.BuildSerializer(mpi);
                s->OpenFile(name, true);
                mesh->ReadSerialize(s, "meshPart");
                s->CloseFile();
                iBis = p->bis.size();
                runOps(mesh, rd, p, x, p->ops2, iBis, "read from an archive");
                sim_probe("archive:read");
            }
        }
        MPI_Finalize();
    }
    void fin(void *vp) {}
    const wl_entry table[] = {
        {"dist", []() -> void * { return planCore(F_DIST); }, rankCore, fin},
        {"faces", []() -> void * { return planCore(F_FACES); }, rankCore, fin},
        {"reorder", []() -> void * { return planCore(F_REORDER); }, rankCore, fin},
        {"inverse", []() -> void * { return planCore(F_INV); }, rankCore, fin},
        {"refine", []() -> void * { return planCore(F_REFINE); }, rankCore, fin},
        {"smooth", []() -> void * { return planCore(F_SMOOTH); }, rankCore, fin},
        {"out", []() -> void * { return planCore(F_OUT); }, rankCore, fin},
        {"archive", []() -> void * { return planCore(F_ARCHIVE); }, rankArchive, fin},
    };
}
extern "C" __attribute__((visibility("default"))) const wl_entry *wl_table(int *n)
{
    *n = sizeof(table) / sizeof(table[0]);
    return table;
}
