// Workload over whole runs of the flow solver, from its configuration and mesh archive to its logs, output and restart files.
#include "euler.hpp"
#include <future>
#include <mutex>
#include <fstream>
#include <filesystem>
#include <sstream>
#define private public
#include "Euler/EulerSolver.hpp"
#undef private
namespace
{
    using json = nlohmann::ordered_json;
    enum Kind
    {
        K_PART,
        K_RESTART
    };
    struct RP
    {
        Plan *b;
        Kind kind;
        json c;       // the user's configuration
        int N = 1;    // steps
        int ode = 0;
        bool meshH5 = false, out = false;
        // restart
        bool crash = false, stampC = false, h5 = false;
        int every[2] = {INT_MAX, INT_MAX}, last = 0; // steps between restart files, stamped and overwritten ones
        std::array<std::array<int, 3>, 3> more;       // further jobs: these and whether outputs at the same step cover each other
        bool other = false;
        bool rounding = false; // the number of iterations depends on rounding
        int armIo = 0, armStep = 0;
        uint64_t jobIo = 0, jobSteps = 0; // what the job takes
        std::vector<std::vector<std::vector<double>>> S; // the flow after every step of the uninterrupted run
        std::string cfgFile;                             // the configuration the job leaves behind
        int jobEnded = 0;
        std::map<std::string, std::vector<std::vector<double>>> tab;
    };
    std::string wd() { return sim_workdir(); }
    void writeJson(const std::string &name, const json &j)
    {
        std::ofstream f(name);
        f << std::setw(1) << j;
    }
    // the last step after which a restart file is due
    int due(const int *every, int N)
    {
        int last = 0;
        for (int j = 1; j <= N; j++)
            if (j % every[0] == 0 || j % every[1] == 0)
                last = j;
        return last;
    }
    RP *planRun(Kind kind)
    {
        auto r = new RP;
        r->b = plan(M_RUN);
        r->kind = kind;
        auto &p = *r->b;
        p.ops.clear();
        // a state the flow starts from, with regions of other states
        auto &e = p.ej;
        json st = json::array();
        auto near = [&](int k)
        {
            std::vector<double> v(nVarsOf(p.model));
            int q = 0;
            stateOf(v.data(), p.model, [&] { return 0.15 * rnd1(p.seed, 300 + k, q++); }, 1.4);
            return v;
        };
        e["ppEpsIsRelaxed"] = false; // refused together with full steps
        e["farFieldStaticValue"] = near(0);
        for (auto &x : e["boxInitializers"])
            x["v"] = near(1);
        for (auto &x : e["planeInitializers"])
            x["v"] = near(2);
        int k = 3;
        for (auto &x : p.bcj)
            if (x.value("anchorOption", 0) == 2)
            {
                x["anchorOption"] = 1; // a profile along the radius needs a patch without gaps
                x["valueExtra"] = std::vector<double>{rnd1(p.seed, 200), rnd1(p.seed, 201), 0.1}; // no two boundary points at the same distance
            }
        for (auto &x : p.bcj)
            if (kind == K_RESTART)
                x["frameOption"] = 0; // a continued run starts its clock again
        for (auto &x : p.bcj)
            if (x["type"] != "BCInPsTs")
                x["value"] = near(k++);
        for (auto k : {"timeMarchControl", "implicitReconstructionControl", "limiterControl", "linearSolverControl", "convergenceControl", "implicitCFLControl",
                       "timeAverageControl", "outputControl", "dataIOControl", "boundaryDefinition", "eulerSettings", "vfvSettings", "bcSettings"})
            r->c[k] = json::object(); // first, for adding entries moves the others
        auto &t = r->c["timeMarchControl"];
        r->N = t["nTimeStep"] = 1 + int(P(3));
        sim_config()->long_run = kind == K_RESTART ? 5 : 2;
        t["dtImplicit"] = PB(50) ? 0.002 : 0.0005;
        const int odes[] = {103, 2, 101, 0, 1, 102, 401};
        r->ode = kind == K_RESTART ? odes[P(3)] : odes[P(7)];
        t["odeCode"] = r->ode;
        if (kind == K_PART)
            t["useImplicitPP"] = (r->ode == 102 || r->ode == 1) && PB(50);
        t["dtCFLLimitScale"] = PB(25) ? 0.1 : 1e100;
        t["useDtPPLimit"] = kind == K_PART && PB(25);
        t["dtPPLimitScale"] = PB(50) ? 1 : 5;
        const int fpp[] = {0, 0, 1, 11, 2};
        t["rhsFPPMode"] = fpp[P(5)];
        t["tEnd"] = kind == K_PART && PB(20) ? 0.0013 : 1e100;
        auto &rc = r->c["implicitReconstructionControl"];
        rc["nInternalRecStep"] = 1 + int(P(3));
        rc["recLinearScheme"] = PB(60) ? 0 : 1 + int(P(2));
        if (rc["recLinearScheme"] != 0)
            r->N = t["nTimeStep"] = 1; // it magnifies rounding with every iteration
        rc["nGmresSpace"] = 1 + int(P(4));
        rc["nGmresIter"] = 1 + int(P(2));
        rc["gmresRecScale"] = int(P(2));
        rc["fpcgResetScheme"] = int(P(3));
        rc["nRecMultiplyForZeroedGrad"] = 1 + int(P(3));
        rc["recThreshold"] = PB(50) ? 1e-5 : 1e-1;
        rc["zeroGrads"] = kind == K_RESTART || PB(30);
        rc["storeRecInc"] = PB(30);
        rc["dampRecIncDTau"] = PB(30);
        rc["zeroRecForSteps"] = PB(15) ? 1 : 0;
        rc["zeroRecForStepsInternal"] = PB(15) ? 1 : 0;
        if (kind == K_RESTART)
            rc["zeroRecForSteps"] = 0;
        if (rc["recLinearScheme"] != 0)
        {
            // a Krylov space that closes leaves the rest to rounding
            if (p.e.c.size() < 10)
                rc["recLinearScheme"] = 0;
            rc["nInternalRecStep"] = rc["nRecMultiplyForZeroedGrad"] = 1;
            rc["nGmresIter"] = rc["recLinearScheme"] == 2 ? 1 + int(P(3)) : 1;
        }
        auto &lc = r->c["limiterControl"];
        lc["useLimiter"] = PB(50) && rc["recLinearScheme"] == 0; // limiters switch, Krylov solvers magnify rounding
        lc["usePPRecLimiter"] = p.s.maxOrder > 1 || rc["recLinearScheme"] != 0 || PB(60); // or the run may leave the admissible states
        lc["useViscousLimited"] = PB(50);
        lc["limiterProcedure"] = int(P(2));
        lc["smoothIndicatorProcedure"] = int(P(2));
        lc["preserveLimited"] = PB(20);
        lc["ppRecLimiterCompressToMean"] = PB(60);
        lc["nPartialLimiterStartLocal"] = PB(50) ? 2 : INT_MAX;
        auto &s = r->c["linearSolverControl"];
        s["jacobiCode"] = kind == K_PART ? 0 : int(P(3)); // sweeps in the order of a rank's cells differ between partitions by design
        s["directPrecControl"] = json{{"useDirectPrec", s["jacobiCode"] == 2}, {"iluCode", -1}, {"orderingCode", 0}};
        s["sgsIter"] = int(P(3));
        s["gmresCode"] = PB(60) ? 0 : 1 + int(P(2));
        s["gmresScale"] = int(P(3));
        s["nGmresSpace"] = 1 + int(P(4));
        s["nGmresIter"] = 1 + int(P(2));
        if (PB(20))
            s["multiGridLP"] = 1 + int(P(2)), s["multiGridLPInnerNIter"] = 1 + int(P(2));
        auto &cc = r->c["convergenceControl"];
        cc["nTimeStepInternal"] = 1 + int(P(4));
        cc["nTimeStepInternalMin"] = 1;
        cc["rhsThresholdInternal"] = PB(70) ? 1e-100 : 0.5;
        cc["useVolWiseResidual"] = PB(50);
        auto &cf = r->c["implicitCFLControl"];
        cf["CFL"] = PB(50) ? 2 : 0.5;
        cf["useLocalDt"] = PB(60);
        cf["nSmoothDTau"] = int(P(3));
        if (PB(30))
            cf["nCFLRampStart"] = int(P(2)), cf["nCFLRampLength"] = 2, cf["CFLRampEnd"] = 5;
        r->c["timeAverageControl"]["enabled"] = kind == K_PART && PB(30);
        auto &oc = r->c["outputControl"];
        r->out = PB(35);
        oc["nDataOut"] = r->out ? 1 + int(P(2)) : 10000;
        oc["nDataOutC"] = r->out && PB(50) ? 1 : 10000;
        oc["nDataOutInternal"] = 10000, oc["nDataOutCInternal"] = 10000;
        oc["nTimeAverageOut"] = r->out && r->c["timeAverageControl"]["enabled"] ? 1 : INT_MAX;
        oc["tDataOut"] = kind == K_PART && PB(20) ? 0.0007 : 1e100;
        oc["dataOutAtInit"] = r->out && PB(30);
        oc["useCollectiveTimer"] = PB(30);
        oc["consoleOutputMode"] = int(P(2)), oc["consoleOutputEveryFix"] = int(P(5));
        oc["nRestartOut"] = INT_MAX;
        oc["nPrecisionLog"] = 16;
        auto &io = r->c["dataIOControl"];
        io["uniqueStamps"] = PB(50);
        io["readMeshMode"] = 1;
        io["meshReorderCells"] = int(P(2));
        r->meshH5 = PB(50);
        io["meshPartitionedReaderType"] = r->meshH5 ? "H5" : "JSON";
        io["meshFile"] = wd() + "/m";
        io["outPltMode"] = int(P(2));
        io["outPltTecplotFormat"] = PB(40), io["outPltVTKFormat"] = PB(40), io["outPltVTKHDFFormat"] = PB(40);
        if (!io["outPltTecplotFormat"] && !io["outPltVTKFormat"])
            io["outPltVTKHDFFormat"] = true;
        io["outAtPointData"] = true, io["outAtCellData"] = true;
        io["outBndData"] = PB(50);
        io["restartWriter"]["type"] = PB(50) ? "H5" : "JSON";
        auto &bd = r->c["boundaryDefinition"];
        for (int q = 1; q <= 3; q++)
        {
            auto x = p.e.trans(q);
            bd[fmts("PeriodicTranslation%d", q)] = std::vector<double>{x[0], x[1], x[2]};
        }
        if (kind == K_PART && PB(40)) // the angle of attack follows the lift
        {
            std::vector<std::string> on;
            std::set<int> zones;
            for (auto &x : p.e.b)
                zones.insert(x.zone);
            for (size_t i = 0; i < p.bcj.size(); i++)
                if (int(p.bcj[i]["integrationOption"]) == 1 && PB(80))
                    on.push_back(p.bcj[i]["name"]);
            if (zones.count(BC_ID_DEFAULT_WALL) && PB(80))
                on.push_back("WALL");
            if (on.size())
            {
                bool y = dimOf(p.model) == 3 && PB(50);
                p.ej["cLDriverBCNames"] = on;
                p.ej["cLDriverSettings"] = json{{"AOAInit", PB(50) ? 0 : 3}, {"AOAAxis", y ? "y" : "z"}, {"CL0Axis", y ? "z" : "y"}, {"CD0Axis", "x"}, {"refArea", 20}, {"refDynamicPressure", 0.5}, {"targetCL", 0.1}, {"CLIncrementRelax", 0.25}, {"thresholdTargetRatio", 1e10}, {"nIterStartDrive", int(P(3))}, {"nIterConvergeMin", 1 + int(P(3))}, {"CLconvergeThreshold", 1e10}, {"CLconvergeWindow", 2}, {"CLconvergeLongThreshold", 0}, {"CLconvergeLongWindow", 10}};
                r->c["convergenceControl"]["useCLDriver"] = PB(50);
                sim_probe("lift driver");
            }
        }
        r->c["eulerSettings"] = p.ej;
        if (p.s.limiterBiwayAlter == 3)
            p.s.limiterBiwayAlter = 2; // 3 takes the shorter of two slopes: symmetric flows have ties
        if (rc["recLinearScheme"] != 0)
        {
            // the norm depends on the axes of the cells, which squares do not determine
            p.s.baseSettings.localOrientation = p.s.functionalSettings.useAnisotropicFunctional = false;
            // nor should cubic functions on few cells be left to rounding
            p.s.svdTolerance = 0;
            p.s.maxOrder = std::min(int(p.s.maxOrder), 2);
        }
        json vs = p.s;
        vs["jacobiRelax"] = 0.3 + 0.1 * P(3); // the reconstruction iteration may diverge without relaxation
        r->c["vfvSettings"] = vs;
        r->c["bcSettings"] = p.bcj;
        if (kind == K_RESTART)
        {
            r->crash = PB(60), r->h5 = io["restartWriter"]["type"] == "H5";
            r->stampC = PB(50) && !(r->crash && r->h5); // nothing is promised about an HDF5 file whose writer was killed
            if (r->crash && r->h5)
                io["uniqueStamps"] = true;
            sim_config()->incarnations = r->crash || PB(30) ? 2 : 1;
            if (r->crash)
                (PB(70) ? r->armIo : r->armStep) = PB(30) ? 1 + int(P(1000)) : 701 + int(P(300)); // thousandths of the job
            // when restarts are written; a killed job: after every step, under one kind of name
            oc["lazyCoverDataOutput"] = PB(60);
            r->every[r->stampC] = 1;
            if (!r->crash)
                for (auto &x : r->every)
                    x = PB(75) ? 1 + int(P(3)) : INT_MAX;
            if (!r->crash && rc["recLinearScheme"] == 0 && PB(60))
                r->N = t["nTimeStep"] = 3;
            r->last = due(r->every, r->N);
            for (auto &x : r->more)
                x = {PB(75) ? 1 + int(P(3)) : INT_MAX, PB(75) ? 1 + int(P(3)) : INT_MAX, int(P(2))};
            for (auto k : {"nRestartOutInternal", "nRestartOutCInternal"}) // of unfinished steps
                if (!r->crash && r->last == r->N && PB(20))
                    oc[k] = 1 + int(P(3));
            r->other = !r->crash && r->last && PB(30);
            r->S.assign(r->N + 2, std::vector<std::vector<double>>(p.e.c.size()));
            for (auto &x : r->S)
                for (auto &y : x)
                    y.assign(nVarsOf(p.model), 0.);
        }
        if (getenv("SIM_PATCH")) // to narrow a replay down by hand
            r->c.merge_patch(json::parse(getenv("SIM_PATCH")));
        sim_probe(fmts("ode:%d", r->ode).c_str());
        if (r->out)
            sim_probe("output");
        sim_sample((describe(p) + " ode " + std::to_string(r->ode) + " " + r->c["timeMarchControl"].dump() + r->c["implicitReconstructionControl"].dump() + lc.dump() + s.dump()).c_str());
        return r;
    }
    template <EulerModel M>
    struct Run
    {
        using S = EulerSolver<M>;
        static constexpr int nV = S::nVarsFixed, gDim = S::gDim;
        RP *r;
        Plan *p;
        bool ref;
        std::vector<int> cid, nid;
        Cmp C;
        std::unique_ptr<S> s;
        MPIInfo mpi;
        json c;
        std::string tag;
        Run(RP *rr, const MPIInfo &m, bool re, const std::string &tg) : r(rr), p(rr->b), ref(re), C{p->R, re, cid, 0, 0, p->e.c.size(), m.rank}, mpi(m), c(rr->c), tag(tg)
        {
            c["dataIOControl"]["outPltName"] = wd() + "/" + tag + "/o";
        }
        std::vector<int> &part() { return ref ? p->part0 : p->part; }
        // the archive of the distributed mesh
        void archive()
        {
            ssp<UnstructuredMesh> mesh;
            DNDS_MAKE_SSP(mesh, mpi, gDim);
            ssp<UnstructuredMeshSerialRW> rd;
            DNDS_MAKE_SSP(rd, mesh, 0);
            MC::distribute(mesh, *rd, p->e, part(), 0, UnstructuredMeshSerialRW::PartitionOptions());
            mesh->InterpolateFace();
            std::string name = wd() + "/m_part_" + std::to_string(mpi.size);
            if (r->meshH5)
                name += ".dnds.h5";
            else
            {
                std::filesystem::create_directories(name + ".dir");
                name += ".dir/part_" + std::to_string(mpi.rank) + ".json";
            }
            auto a = Serializer::SerializerFactory(r->meshH5 ? "H5" : "JSON").BuildSerializer(mpi);
            a->OpenFile(name, false);
            mesh->WriteSerialize(a, "meshPart");
            a->CloseFile();
            MPI_Barrier(mpi.comm);
        }
        // as the console application does
        void go()
        {
            std::string user = wd() + "/" + tag + ".json", def = wd() + "/" + tag + "_default.json";
            if (mpi.rank == 0)
                std::filesystem::create_directories(wd() + "/" + tag), writeJson(user, c);
            MPI_Barrier(mpi.comm);
            if (mpi.rank == 0 && getenv("SIM_OUTPUT"))
                fprintf(stderr, "CONFIG %s\n", c.dump().c_str());
            s = std::make_unique<S>(mpi);
            s->ConfigureFromJson(def, false);
            s->ConfigureFromJson(def, true, user);
            s->ReadMeshAndInitialize();
            if (tag == "job")
                r->cfgFile = cfg();
            identify();
            s->RunImplicitEuler();
        }
        std::string cfg() { return s->config.dataIOControl.getOutLogName() + "_" + s->output_stamp + ".config.json"; }
        void identify()
        {
            MC::Exp x;
            x.e = &p->e, x.part = &part(), x.faces = true;
            MC::Checker ck(*s->mesh, x, ref ? p->B0 : p->B, ref ? "solver on one rank" : "solver");
            ck.all();
            cid = ck.cid, nid = ck.nid;
            C.nOwn = s->mesh->NumCell(), C.nAll = s->mesh->NumCellProc();
        }
        void compare()
        {
            auto V = [](auto &w)
            { return [&w](index i) { return Eigen::VectorXd(w[i]); }; };
            // a Krylov space that almost closes magnifies rounding
            double tol = krylov() ? 1e-5 : 2e-7 * cubic();
            if (getenv("SIM_PATCH") && mpi.rank == 0)
                logs();
            if (mpi.rank == 0)
                logs();
            MPI_Barrier(mpi.comm);
            if (!ref && r->rounding) // decided how many iterations were done
                return sim_probe("log:rounding");
            C.cells("flow", C.nOwn, V(s->u), tol);
            if (r->c["timeAverageControl"]["enabled"])
                C.cells("average", C.nOwn, V(s->wAveraged), tol);
        }
        double cubic() { return p->s.maxOrder == 3 ? 30 : 1; } // badly conditioned on the smallest meshes
        bool krylov() { return r->c["implicitReconstructionControl"]["recLinearScheme"] != 0 || r->c["linearSolverControl"]["gmresCode"] != 0; }
        // the boundary values of such a reconstruction need not be admissible: the run refuses to go on
        bool recKrylov() { return r->c["implicitReconstructionControl"]["recLinearScheme"] != 0; }
        // the log is a table with one title line
        void logs()
        {
            std::ifstream f(s->config.dataIOControl.getOutLogName() + "_" + s->output_stamp + ".log");
            std::string line;
            if (!f || !std::getline(f, line))
                sim_fail("log", "no log");
            std::vector<std::string> names;
            auto split = [](const std::string &l)
            {
                std::vector<std::string> v;
                std::stringstream ss(l);
                for (std::string x; std::getline(ss, x, ',');)
                {
                    x.erase(std::remove_if(x.begin(), x.end(), [](char c) { return c == ' ' || c == '"' || c == '\r'; }), x.end());
                    v.push_back(x);
                }
                return v;
            };
            names = split(line);
            std::vector<std::vector<double>> rows;
            while (std::getline(f, line))
            {
                auto w = split(line);
                if (w.size() != names.size())
                    sim_fail("log", "a line of the log has %zu of %zu entries: %s", w.size(), names.size(), line.c_str());
                std::vector<double> x;
                for (auto &y : w)
                    x.push_back(atof(y.c_str()));
                rows.push_back(x);
            }
            auto &T = r->tab["log"];
            if (ref)
            {
                T = rows;
                return;
            }
            if (T.size() != rows.size())
            {
                // the solver ends the iterations of a step by the residual of the density alone: one that is
                // nothing but rounding (a density without change) ends them where rounding says
                for (auto X : {&T, &rows})
                    for (auto &q : *X)
                    {
                        double mx = 1e-3;
                        for (size_t k = 0; k < names.size(); k++)
                            if (names[k].substr(0, 3) == "res")
                                mx = std::max(mx, std::abs(q[k]));
                        for (size_t k = 0; k < names.size(); k++)
                            if (names[k] == "res0" && std::abs(q[k]) < 1e-11 * mx)
                                r->rounding = true;
                    }
                if (r->rounding)
                    return;
                sim_fail("log", "the log has %zu lines, on one rank %zu", rows.size(), T.size());
            }
            for (size_t i = 0; i < rows.size() && getenv("SIM_PATCH"); i++) // by hand
            {
                printf("LOGDIFF %zu:", i);
                for (size_t k = 0; k < names.size(); k++)
                    if (names[k].substr(0, 3) == "res")
                        printf(" %.6g(%.1e)", T[i][k], rows[i][k] - T[i][k]);
                printf("\n");
                fflush(stdout);
            }
            for (size_t k = 0; k < names.size(); k++)
            {
                auto &n = names[k];
                if (n[0] == 't' && n != "tSimu")
                    continue;
                double mx = 1e-3;
                for (auto &q : T)
                    for (size_t l = 0; l < names.size(); l++)
                        if (l == k || (krylov() && names[l].substr(0, 3) == "res" && n.substr(0, 3) == "res"))
                            mx = std::max(mx, std::abs(q[l]));
                for (size_t i = 0; i < rows.size(); i++)
                    if (!(std::abs(rows[i][k] - T[i][k]) <= (recKrylov() ? 1e-2 * std::pow(20., i) : krylov() ? 1e-5 * std::pow(20., i) : 1e-6 * cubic() * std::pow(1.4, i)) * mx))
                        sim_fail("log", "line %zu of the log: %s is %.12g, on one rank %.12g", i, n.c_str(), rows[i][k], T[i][k]);
            }
            sim_probe_n("log lines", rows.size());
        }
    };
    template <EulerModel M>
    void partition(RP *r, const MPIInfo &mpi)
    {
        if (mpi.rank == 0)
        {
            MPIInfo self = mpi;
            self.comm = MPI_COMM_SELF, self.rank = 0, self.size = 1;
            Run<M> a(r, self, true, "one");
            a.archive();
            sim_expect_abort(a.recKrylov());
            a.go();
            sim_expect_abort(0);
            a.compare();
            r->b->R.done = true;
        }
        MPI_Barrier(mpi.comm);
        Run<M> a(r, mpi, false, "all");
        a.archive();
        a.go();
        a.compare();
        sim_probe(fmts("deviation:1e%d of the tolerance", int(std::floor(std::log10(a.C.worst + 1e-10)))).c_str());
    }
    // A job writes restart files and ends or is killed; another one continues from what its configuration names.
    template <EulerModel M>
    void restart(RP *r, const MPIInfo &mpi)
    {
        auto state = [&](Run<M> &a, int j, bool put)
        {
            double worst = 0;
            for (index i = 0; i < a.s->mesh->NumCell(); i++)
                for (int k = 0; k < Run<M>::nV; k++)
                {
                    auto &v = r->S[j][a.cid[i]][k];
                    if (put)
                        v = a.s->u[i](k);
                    worst = std::max(worst, std::abs(a.s->u[i](k) - v));
                }
            real w = worst;
            MPI::AllreduceOneReal(w, MPI_MAX, mpi);
            return w;
        };
        auto files = [&](json &c)
        { c["outputControl"]["nRestartOut"] = r->every[0], c["outputControl"]["nRestartOutC"] = r->every[1]; };
        auto tol = [](Run<M> &a)
        { return a.krylov() ? 1e-5 : 2e-7 * a.cubic(); };
        if (sim_incarnation() == 0)
        {
            for (int j = 0; j <= r->N; j++)
            {
                Run<M> a(r, mpi, false, fmts("s%d", j));
                if (!j)
                    a.archive();
                sim_expect_abort(a.recKrylov());
                a.c["timeMarchControl"]["nTimeStep"] = j;
                if (j == r->N && r->crash)
                {
                    files(a.c);
                    MPI_Barrier(mpi.comm);
                    if (mpi.rank == 0)
                        r->jobIo = sim_io_events(), r->jobSteps = sim_step();
                    MPI_Barrier(mpi.comm);
                }
                a.go();
                state(a, j, true);
            }
            for (auto &e : r->more)
            {
                if (r->crash || r->N < 2 || (e[0] == e[1] && e[0] == INT_MAX))
                    continue;
                Run<M> a(r, mpi, false, fmts("more%d_%d_%d", e[0] == INT_MAX ? 0 : e[0], e[1] == INT_MAX ? 0 : e[1], e[2]));
                auto &oc = a.c["outputControl"];
                oc["nRestartOut"] = e[0], oc["nRestartOutC"] = e[1], oc["lazyCoverDataOutput"] = !!e[2];
                for (auto k : {"nRestartOutInternal", "nRestartOutCInternal"})
                    oc[k] = INT_MAX;
                a.go();
                MPI_Barrier(mpi.comm); // the configuration is written by one rank
                std::ifstream f(a.cfg());
                auto c = f ? json::parse(f, nullptr, false) : json();
                int want = due(&e[0], r->N), at = c.is_object() ? std::max(0, c["restartState"]["iStep"].get<int>()) : 0;
                if (at != want)
                    sim_fail("restart", "the job's last restart file was due after step %d; its configuration names step %d", want, at);
            }
            MPI_Barrier(mpi.comm);
            if (mpi.rank == 0)
            {
                sim_expect_abort(0);
                if (r->armIo)
                    sim_config()->crash_io = int(sim_io_events() + 1 + (sim_io_events() - r->jobIo) * r->armIo / 1000);
                if (r->armStep)
                    sim_config()->crash_step = int(sim_step() + 1 + (sim_step() - r->jobSteps) * r->armStep / 1000);
            }
            MPI_Barrier(mpi.comm);
            Run<M> a(r, mpi, false, "job");
            files(a.c);
            a.go();
            if (double w = state(a, r->N, false); !(w < tol(a)))
                sim_fail("restart", "writing restart files changes the flow by %g", w);
            state(a, r->N + 1, true); // what it wrote last
            r->jobEnded++;
            MPI_Barrier(mpi.comm);
            sim_config()->crash_io = sim_config()->crash_step = 0;
            if (sim_config()->incarnations == 2)
                return;
        }
        bool killed = r->jobEnded != mpi.size;
        json c;
        {
            std::ifstream f(r->cfgFile);
            c = r->cfgFile.empty() || !f ? json() : json::parse(f, nullptr, false);
        }
        if (!c.is_object() || c["restartState"]["lastRestartFile"] == "")
        {
            if (!killed && r->last)
                sim_fail("restart", "the job ended without a usable configuration %s", r->cfgFile.c_str());
            sim_probe("killed before a restart file");
            return;
        }
        MPI_Barrier(mpi.comm);
        sim_expect_abort(killed); // refusing what a killed job left is the right answer
        int j;
        {
            Run<M> a(r, mpi, false, "read");
            a.c["restartState"] = c["restartState"];
            a.c["timeMarchControl"]["useRestart"] = true;
            a.c["timeMarchControl"]["nTimeStep"] = 0;
            a.go();
            const int at = c["restartState"]["iStep"];
            for (j = r->N; j >= 0; j--)
                if (state(a, j, false) < tol(a))
                    break;
            if (j < 1)
                sim_fail("restart", "the restart file of step %d holds the flow of no step", at);
            if (!killed)
            {
                double w = r->last == r->N ? state(a, r->N + 1, false) : state(a, r->last, false);
                if (at != r->last || !(r->last == r->N ? w == 0 : w < tol(a)))
                    sim_fail("restart", "the job's last restart file was due after step %d; the file of step %d that it names differs by %g", r->last, at, w);
                j = r->last;
            }
            else if (!r->stampC && !(state(a, at, false) < tol(a)))
                sim_fail("restart", "the file named for step %d holds the flow of step %d", at, j);
        }
        if (r->other)
        {
            // some variables are taken over by a run with initial values of its own
            std::vector<int> dims;
            for (int k = 0; k < Run<M>::nV; k++)
                if (k == 0 || (k % 2 == r->N % 2))
                    dims.push_back(k);
            Run<M> a(r, mpi, false, "other");
            a.c["restartState"] = json{{"otherRestartFile", c["restartState"]["lastRestartFile"]}, {"otherRestartStoreDim", dims}};
            a.c["timeMarchControl"]["useRestart"] = true;
            a.c["timeMarchControl"]["nTimeStep"] = 0;
            a.go();
            for (index i = 0; i < a.s->mesh->NumCell(); i++)
                for (int k = 0; k < Run<M>::nV; k++)
                {
                    bool in = std::find(dims.begin(), dims.end(), k) != dims.end();
                    double v = r->S[in ? r->last : 0][a.cid[i]][k], u = a.s->u[i](k);
                    if (!(std::abs(u - v) < tol(a)))
                        sim_fail("other restart", "variable %d of cell %d is %.12g: %s %.12g", k, a.cid[i], u, in ? "the restart file has" : "the initial value is", v);
                }
            sim_probe("other solver's restart");
        }
        sim_expect_abort(0);
        {
            Run<M> a(r, mpi, false, "cont");
            a.c["restartState"] = c["restartState"];
            a.c["timeMarchControl"]["useRestart"] = true;
            a.c["timeMarchControl"]["nTimeStep"] = r->N - j;
            a.go();
            double w = state(a, r->N, false);
            if (!(w < 10 * tol(a)))
                sim_fail("restart", "continued from step %d, the flow after step %d differs from the uninterrupted run by %g", j, r->N, w);
        }
        sim_probe(killed ? "continued after a kill" : "continued");
    }
    void rank(void *vp, int)
    {
        auto r = (RP *)vp;
        MPI_Init(nullptr, nullptr);
        {
            MPIInfo mpi;
            mpi.setWorld();
            MPI::CommStrategy::Instance();
            onModel(r->b->model, [&](auto m)
                    { r->kind == K_PART ? partition<decltype(m)::value>(r, mpi) : restart<decltype(m)::value>(r, mpi); });
        }
        MPI_Finalize();
    }
    void fin(void *) {}
    const wl_entry table[] = {
        {"part", []() -> void * { return planRun(K_PART); }, rank, fin},
        {"restart", []() -> void * { return planRun(K_RESTART); }, rank, fin},
    };
}
extern "C" __attribute__((visibility("default"))) const wl_entry *wl_table(int *n)
{
    *n = sizeof(table) / sizeof(table[0]);
    return table;
}
