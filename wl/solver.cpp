// Workload over distributed vectors, Krylov solvers, rank-local factorisations and time integrators. Everything is compared with
// dense arithmetic on the whole vector, which does not know of ranks.
#include "common.hpp"
#include "Euler/EulerJacobian.hpp"
#include "Solver/Linear.hpp"
#include "Solver/ODE.hpp"
using namespace DNDS;
using namespace W;
namespace
{
    using DNDS::index;
    constexpr int nV = 2;
    using DOF = Euler::ArrayDOFV<nV>;
    using DTAU = Euler::ArrayDOFV<1>;
    using REC = Euler::ArrayRECV<nV>;
    using VX = Eigen::VectorXd;
    using MX = Eigen::MatrixXd;
    double rnd01(uint64_t s, uint64_t a = 0, uint64_t b = 0) { return double(hmix(hmix(s, a), b) >> 11) / 9007199254740992.0; }
    double rnd1(uint64_t s, uint64_t a = 0, uint64_t b = 0) { return 2 * rnd01(s, a, b) - 1; }
    enum Mode
    {
        M_VEC,
        M_KRYLOV,
        M_DIRECT,
        M_ODE
    };
    struct Plan
    {
        Mode mode;
        int nr = 1, N = 1, nThr = 1;
        CommOpts co;
        std::vector<int> first; // first row of each rank, and N
        std::vector<std::set<int>> nb;
        std::vector<std::vector<index>> ghosts;
        std::vector<std::array<int, 2>> ops;
        uint64_t seed = 0;
        // decisions every rank has to take alike
        std::map<std::string, std::vector<double>> said;
    };
    const char *kind(Mode m) { return std::array<const char *, 4>{"vectors", "krylov", "direct", "ode"}[m]; }
    Plan *plan(Mode mode)
    {
        auto p = new Plan;
        auto c = sim_config();
        p->mode = mode;
        p->nr = c->nranks = PB(10) ? 1 : PR(2, 5);
        p->co.draw();
        p->co.apply();
        p->nThr = c->omp_threads = 1 + int(P(3));
        p->N = 1 + int(P(mode == M_ODE ? 6 : 10));
        p->first.assign(p->nr + 1, 0);
        for (int i = 0; i < p->N; i++)
            p->first[1 + P(p->nr)]++;
        for (int r = 0; r < p->nr; r++)
            p->first[r + 1] += p->first[r];
        p->nb.resize(p->N);
        int dens = 10 + int(P(80));
        for (int i = 0; i < p->N; i++)
            for (int j = 0; j < i; j++)
                if (PB(dens))
                    p->nb[i].insert(j), p->nb[j].insert(i);
        p->ghosts.resize(p->nr);
        for (int r = 0; r < p->nr; r++)
        {
            std::set<index> g;
            for (int i = p->first[r]; i < p->first[r + 1]; i++)
                for (int j : p->nb[i])
                    if (j < p->first[r] || j >= p->first[r + 1])
                        g.insert(j);
            for (int i = 0; i < p->N; i++)
                if ((i < p->first[r] || i >= p->first[r + 1]) && PB(15))
                    g.insert(i);
            p->ghosts[r].assign(g.begin(), g.end());
        }
        p->seed = P(1u << 30);
        int no = 1 + int(P(3));
        for (int i = 0; i < no; i++)
            p->ops.push_back({int(P(16)), int(P(4096))});
        if (p->nr > 1)
            sim_probe("nontrivial");
        std::string d = fmts("%s: ranks %d threads %d rows %s ghosts", kind(mode), p->nr, p->nThr, vstr(p->first).c_str());
        for (auto &g : p->ghosts)
            d += " " + vstr(g);
        d += ", operations";
        for (auto &o : p->ops)
            d += fmts(" %d/%d", o[0], o[1]);
        sim_sample((d + " " + p->co.str()).c_str());
        return p;
    }
    struct Run
    {
        Plan *p;
        MPIInfo mpi;
        int me, n0, n;
        std::vector<int> gid; // of own and ghost rows
        std::map<int, int> loc;
        DOF base; // carries the mapping
        Run(Plan *pp, const MPIInfo &m) : p(pp), mpi(m), me(m.rank)
        {
            n0 = p->first[me], n = p->first[me + 1] - n0;
            DNDS_MAKE_SSP(base.father, mpi);
            DNDS_MAKE_SSP(base.son, mpi);
            base.father->Resize(n, nV, 1);
            base.TransAttach();
            base.trans.createFatherGlobalMapping();
            auto g = p->ghosts[me];
            base.trans.createGhostMapping(g);
            base.trans.createMPITypes();
            for (int i = 0; i < base.Size(); i++)
            {
                int k = int((*base.trans.pLGhostMapping)(-1, i));
                gid.push_back(k), loc[k] = i;
            }
        }
        template <class T>
        void build(T &x, int rows, int cols)
        {
            DNDS_MAKE_SSP(x.father, mpi);
            DNDS_MAKE_SSP(x.son, mpi);
            x.father->Resize(n, rows, cols);
            x.son->Resize(base.son->Size(), rows, cols);
            x.TransAttach();
            x.trans.BorrowGGIndexing(base.trans);
            x.trans.createMPITypes();
            x.trans.initPersistentPull();
            for (index i = 0; i < x.Size(); i++)
                x[i].setZero();
        }
        void build(DOF &x) { build(x, nV, 1); }
        void build(DTAU &x) { build(x, 1, 1); }
        template <class T>
        void pull(T &x)
        {
            x.trans.startPersistentPull();
            x.trans.waitPersistentPull();
        }
        void put(DOF &x, const VX &v)
        {
            for (index i = 0; i < x.Size(); i++)
                x[i] = v.segment(gid[i] * nV, nV);
        }
        VX gather(DOF &x)
        {
            VX v = VX::Zero(p->N * nV), a(p->N * nV);
            for (int i = 0; i < n; i++)
                v.segment((n0 + i) * nV, nV) = x[i];
            MPI_Allreduce(v.data(), a.data(), int(v.size()), MPI_DOUBLE, MPI_SUM, mpi.comm);
            return a;
        }
        void same(DOF &x, const VX &v, const char *what, double tol, bool ghosts = true)
        {
            double sc = 1 + v.cwiseAbs().maxCoeff();
            for (index i = 0; i < (ghosts ? x.Size() : x.father->Size()); i++)
                for (int j = 0; j < nV; j++)
                    if (!(std::abs(x[i](j) - v(gid[i] * nV + j)) <= tol * sc))
                        sim_fail("differs", "rank %d: %s: entry %d of %s row %d is %.15g, should be %.15g", me, what, j, i < n ? "own" : "ghost", gid[i], x[i](j), v(gid[i] * nV + j));
        }
        void number(double a, double b, const char *what, double tol)
        {
            if (!(std::abs(a - b) <= tol * (1 + std::abs(b))))
                sim_fail("differs", "rank %d: %s is %.15g, should be %.15g", me, what, a, b);
        }
        // all ranks have to take the same decisions
        std::map<std::string, size_t> nsaid;
        void say(const std::string &what, double v)
        {
            auto &s = p->said[what];
            size_t k = nsaid[what]++;
            if (k == s.size())
                s.push_back(v);
            else if (k > s.size() || std::memcmp(&s[k], &v, sizeof v))
                sim_fail("ranks disagree", "rank %d: %s, call %zu: %.17g, another rank has %.17g", me, what.c_str(), k, v, k < s.size() ? s[k] : NAN);
        }
        VX vec(uint64_t s, double amp = 1)
        {
            VX v(p->N * nV);
            for (int i = 0; i < v.size(); i++)
                v(i) = amp * rnd1(s, i);
            return v;
        }
        // a matrix over the graph
        MX mat(uint64_t s, bool sym, double diag, double off)
        {
            MX A = MX::Zero(p->N * nV, p->N * nV);
            for (int i = 0; i < p->N; i++)
            {
                for (int j : p->nb[i])
                    for (int a = 0; a < nV; a++)
                        for (int b = 0; b < nV; b++)
                            A(i * nV + a, j * nV + b) = off * rnd1(s, i * nV + a, j * nV + b);
                for (int a = 0; a < nV; a++)
                    for (int b = 0; b < nV; b++)
                        A(i * nV + a, i * nV + b) = off * rnd1(s, i * nV + a, i * nV + b);
            }
            if (sym)
                A = (0.5 * (A + A.transpose())).eval();
            for (int i = 0; i < A.rows(); i++)
                A(i, i) += diag * (1 + rnd01(s, 1000 + i)) + (diag > 0 ? A.row(i).cwiseAbs().sum() : 0);
            return A;
        }
        void apply(const MX &A, DOF &x, DOF &y)
        {
            pull(x);
            for (int i = 0; i < n; i++)
            {
                int g = n0 + i;
                Eigen::Vector2d r = A.block<nV, nV>(g * nV, g * nV) * x[i];
                for (int j : p->nb[g])
                    r += A.block<nV, nV>(g * nV, j * nV) * x[loc.at(j)];
                y[i] = r;
            }
            pull(y);
        }
        void vectors()
        {
            DOF x, y, z;
            build(x), build(y), build(z);
            DTAU w;
            build(w);
            VX vx = vec(hmix(p->seed, 1)), vy = vec(hmix(p->seed, 2));
            put(x, vx), put(y, vy);
            for (auto &o : p->ops)
            {
                double c = rnd1(p->seed, 40, o[1]);
                switch (o[0])
                {
                case 0:
                    x.setConstant(c), vx.setConstant(c);
                    break;
                case 1:
                    x += y, vx += vy;
                    break;
                case 2:
                    x -= y, vx -= vy;
                    break;
                case 3:
                    x *= c, vx *= c;
                    break;
                case 4:
                    x.addTo(y, c), vx += c * vy;
                    break;
                case 5:
                    x = y, vx = vy;
                    break;
                case 6:
                    x *= y, vx.array() *= vy.array();
                    break;
                case 7:
                    y.setAbs(), y += 0.1, vy = vy.cwiseAbs().array() + 0.1;
                    x /= y, vx.array() /= vy.array();
                    break;
                case 8:
                    x.setMaxWith(c), vx = vx.cwiseMax(c);
                    break;
                case 9:
                    x.setMinWith(c), vx = vx.cwiseMin(c);
                    break;
                case 10:
                {
                    for (index i = 0; i < w.Size(); i++)
                        w[i](0) = rnd1(p->seed, 41, gid[i]);
                    x *= w;
                    for (int i = 0; i < vx.size(); i++)
                        vx(i) *= rnd1(p->seed, 41, i / nV);
                    break;
                }
                case 11:
                {
                    std::vector<real> f(n);
                    for (int i = 0; i < n; i++)
                        f[i] = rnd1(p->seed, 42, gid[i]);
                    x *= f;
                    pull(x);
                    for (int i = 0; i < vx.size(); i++)
                        vx(i) *= rnd1(p->seed, 42, i / nV);
                    break;
                }
                case 12:
                {
                    Eigen::Vector<real, nV> f(c, 1 - c);
                    x += f, x *= f;
                    for (int i = 0; i < vx.size(); i++)
                        vx(i) = (vx(i) + f(i % nV)) * f(i % nV);
                    break;
                }
                case 13:
                    x.setConstant(Eigen::Vector<real, nV>(c, 2 * c));
                    for (int i = 0; i < vx.size(); i++)
                        vx(i) = c * (1 + i % nV);
                    break;
                default:
                    matrices(o[1]);
                }
                same(x, vx, "vector", 1e-13), same(y, vy, "other vector", 1e-13);
                double d;
                number(d = x.dot(y), vx.dot(vy), "dot", 1e-12), say("dot", d);
                number(d = x.norm2(), vx.norm(), "norm2", 1e-12), say("norm2", d);
                Eigen::Vector2d s(0, 0), mn(veryLargeReal, veryLargeReal);
                double wd = 0;
                for (int i = 0; i < vx.size(); i++)
                    s(i % nV) += std::abs(vx(i)), mn(i % nV) = std::min(mn(i % nV), vx(i)), wd += (i % nV ? 0.5 : 2) * vx(i) * vy(i) * 3;
                auto b = x.componentWiseNorm1(), m = x.min(); // normInc does not compile and is used nowhere
                for (int j = 0; j < nV; j++)
                    number(b(j), s(j), "componentWiseNorm1", 1e-12), number(m(j), mn(j), "min", 0);
                number(x.dot(y, Eigen::Array2d(2, 0.5), Eigen::Array2d(3, 3)), wd, "weighted dot", 1e-12);
            }
        }
        void matrices(int k)
        {
            int R = 1 + k % 4;
            REC x, y;
            build(x, R, nV), build(y, R, nV);
            MX vx(p->N * R, nV), vy(p->N * R, nV);
            for (int i = 0; i < vx.rows(); i++)
                for (int j = 0; j < nV; j++)
                    vx(i, j) = rnd1(p->seed, 50 + k, i * nV + j), vy(i, j) = rnd1(p->seed, 51 + k, i * nV + j);
            auto rows = [&](REC &x, const MX &v)
            {
                for (index i = 0; i < x.Size(); i++)
                    x[i] = v.middleRows(gid[i] * R, R);
            };
            rows(x, vx), rows(y, vy);
            double c = rnd1(p->seed, 52, k);
            Eigen::Array<real, 1, nV> f(c, 1 - c);
            switch ((k / 4) % 6)
            {
            case 0:
                x += y, vx += vy;
                break;
            case 1:
                x -= y, vx -= vy;
                break;
            case 2:
                x.addTo(y, c), vx += c * vy;
                break;
            case 3:
                x.addTo(y, f), vx.array() += vy.array().rowwise() * f;
                break;
            case 4:
                x *= f, vx.array().rowwise() *= f;
                break;
            case 5:
                x = y, x *= c, vx = vy * c;
                break;
            }
            for (index i = 0; i < x.Size(); i++)
                if (!((x[i] - vx.middleRows(gid[i] * R, R)).cwiseAbs().maxCoeff() < 1e-13))
                    sim_fail("differs", "rank %d: matrices (%d): row %d differs", me, (k / 4) % 6, gid[i]);
            number(x.norm2(), vx.norm(), "norm2 of matrices", 1e-12);
            number(x.dot(y), (vx.array() * vy.array()).sum(), "dot of matrices", 1e-12);
            auto d = x.dotV(y);
            for (int j = 0; j < nV; j++)
                number(d(j), (vx.col(j).array() * vy.col(j).array()).sum(), "dotV of matrices", 1e-12);
        }
        void krylov()
        {
            for (size_t io = 0; io < p->ops.size(); io++)
            {
                int o = p->ops[io][0] % 2, k = p->ops[io][1];
                uint64_t sd = hmix(p->seed, 100 + io);
                bool unit = k & 1; // the operator is a multiple of the identity: the first direction is the solution
                MX A = unit ? MX(MX::Identity(p->N * nV, p->N * nV) * 2) : mat(sd, o == 1, 0.5, 1);
                MX L = MX::Zero(A.rows(), A.cols());
                for (int i = 0; i < p->N; i++)
                    L.block<nV, nV>(i * nV, i * nV) = k & 2 ? MX(A.block<nV, nV>(i * nV, i * nV).inverse()) : MX(MX::Identity(nV, nV));
                if (o == 1)
                    L = (0.5 * (L + L.transpose())).eval();
                VX b = vec(hmix(sd, 1)), x0 = k & 4 ? vec(hmix(sd, 2)) : VX(VX::Zero(b.size()));
                if (k & 8) // one entry only
                    b = VX::Unit(b.size(), int(hmix(sd, 9) % b.size()));
                VX xe = A.fullPivLu().solve(b);
                DOF x, B;
                build(x), build(B);
                put(x, x0), put(B, b);
                auto dot = [&](DOF &a, DOF &b) { return a.dot(b); };
                if (o == 0)
                {
                    int m = 1 + (k >> 4) % (p->N * nV + 2), nRestart = 1 + (k >> 8) % 4;
                    double tol = 1e-10;
                    Linear::GMRES_LeftPreconditioned<DOF> g(uint32_t(m), [&](DOF &v) { build(v); });
                    // residuals by definition: the least possible in each Krylov space
                    VX r0 = L * (b - A * x0);
                    std::string nm = fmts("gmres %zu", io);
                    int calls = 0;
                    double last = -1;
                    bool stopped = false;
                    bool ok = g.solve([&](DOF &a, DOF &c) { apply(A, a, c); }, [&](DOF &a, DOF &c)
                                      {
                                          for (index i = 0; i < c.Size(); i++)
                                              c[i] = L.block<nV, nV>(gid[i] * nV, gid[i] * nV) * a[i]; },
                                      dot, B, x, uint32_t(nRestart), [&](uint32_t i, real res, real resB)
                                      {
                                          say(nm, res);
                                          VX xx = gather(x);
                                          double ex = (L * (b - A * xx)).norm(), sb = (L * b).norm();
                                          if (!(std::abs(ex - res) <= 1e-9 * (sb + ex + r0.norm())) || !(std::abs(sb - resB) <= 1e-12 * (1 + sb)))
                                              sim_fail("gmres", "rank %d: the residual is reported as %g (of %g), it is %g (of %g)", me, res, resB, ex, sb);
                                          if (int(i) != calls++)
                                              sim_fail("gmres", "rank %d: restart %d is reported as %u", me, calls - 1, i);
                                          if (last >= 0 && !(res <= last * (1 + 1e-9) + 1e-12 * (1 + sb)))
                                              sim_fail("gmres", "rank %d: the residual grows from %g to %g", me, last, res);
                                          last = res;
                                          stopped = res <= tol * resB;
                                          return stopped; });
                    VX xx = gather(x);
                    double rn = (L * (b - A * xx)).norm();
                    say(nm + " ok", ok);
                    // m steps are enough for the dimension of the space; a multiple of the identity needs one
                    if ((m >= p->N * nV || unit) && !(rn <= 1e-8 * (L * b).norm() + 1e-8 * r0.norm()))
                        sim_fail("gmres", "rank %d: after %d restarts of %d steps for %d unknowns%s the residual is %g of %g", me, nRestart, m, p->N * nV, unit ? " (identity)" : "", rn, r0.norm());
                    // one cycle is a minimisation over the Krylov space
                    if (nRestart == 1 && !stopped)
                    {
                        int d = std::min<int>(m, p->N * nV);
                        MX K(r0.size(), d);
                        VX v = r0;
                        for (int j = 0; j < d; j++)
                        {
                            v.normalize();
                            for (int q = 0; q < j; q++)
                                v -= K.col(q) * K.col(q).dot(v);
                            if (v.norm() < 1e-9)
                            {
                                K.conservativeResize(Eigen::NoChange, j);
                                break;
                            }
                            v.normalize();
                            K.col(j) = v;
                            v = L * (A * v);
                        }
                        MX LAK = L * A * K;
                        VX y = LAK.colPivHouseholderQr().solve(r0);
                        double best = (r0 - LAK * y).norm();
                        if (!(rn <= best * (1 + 1e-6) + 1e-8 * (1 + r0.norm())))
                            sim_fail("gmres", "rank %d: one cycle of %d steps leaves a residual of %g, the best is %g (of %g)", me, m, rn, best, r0.norm());
                        sim_probe("gmres minimum checked");
                    }
                    pull(x);
                    same(x, xx, "solution", 0);
                    sim_probe(unit ? "gmres identity" : "gmres");
                }
                else
                {
                    MX LI = L.inverse();
                    Linear::PCG_PreconditionedRes<DOF, real> g([&](DOF &v) { build(v); });
                    DOF t;
                    build(t);
                    std::string nm = fmts("pcg %zu", io);
                    auto blk = [&](const MX &D, DOF &a, DOF &c)
                    {
                        for (index i = 0; i < c.Size(); i++)
                            c[i] = D.block<nV, nV>(gid[i] * nV, gid[i] * nV) * a[i];
                    };
                    bool ok = false;
                    int left = 2 * p->N * nV + 4, it = 0;
                    double r0n = std::max(1e-30, std::sqrt(std::abs((b - A * x0).dot(L * (b - A * x0)))));
                    VX pl;
                    double el = -1;
                    while (left > 0 && !ok)
                    {
                        int now = std::min(left, 1 + (k >> 4) % 8);
                        left -= now;
                        ok = g.solve([&](DOF &a, DOF &c) { apply(A, a, c); }, [&](DOF &a, DOF &c) { blk(LI, a, c); }, [&](DOF &a, DOF &c)
                                     {
                                         apply(A, a, t);
                                         DOF q;
                                         build(q);
                                         q = B, q -= t;
                                         blk(L, q, c); },
                                     dot, x, uint32_t(now), [&](int i, real zr, real zz)
                                     {
                                         say(nm, zr);
                                         VX r = b - A * gather(x), z = L * r;
                                         if (!(std::abs(zr - z.dot(r)) <= 1e-9 * (r0n * r0n + 1) && std::abs(zz - z.dot(z)) <= 1e-9 * (1 + z.squaredNorm() + r0n * r0n)))
                                             sim_fail("pcg", "rank %d: residual products %g %g, should be %g %g", me, zr, zz, z.dot(r), z.dot(z));
                                         // the error in the energy norm never grows
                                         VX e = gather(x) - xe;
                                         double en = std::sqrt(e.dot(A * e));
                                         if (el >= 0 && !(en <= el * (1 + 1e-7) + 1e-8))
                                             sim_fail("pcg", "rank %d: the error grows from %g to %g", me, el, en);
                                         el = en;
                                         it++;
                                         return std::sqrt(std::abs(zr)) < 1e-10 * r0n; });
                        say(nm + " ok", ok);
                    }
                    VX xx = gather(x);
                    if (!((xx - xe).cwiseAbs().maxCoeff() <= 1e-6 * (1 + xe.cwiseAbs().maxCoeff())))
                        sim_fail("pcg", "rank %d: %d steps for %d unknowns leave an error of %g", me, it, p->N * nV, (xx - xe).cwiseAbs().maxCoeff());
                    sim_probe("pcg");
                }
            }
        }
        template <class LU>
        void factorised(const char *what, LU &lu, const MX &A, bool complete, int variant)
        {
            // the part of the matrix of this rank
            lu.setZero();
            auto &S = *lu.symLU;
            for (int i = 0; i < n; i++)
            {
                lu.GetDiag(i) = A.block<nV, nV>((n0 + i) * nV, (n0 + i) * nV);
                for (size_t j = 0; j < S.lowerTriStructure[i].size(); j++)
                    lu.GetLower(i, int(j)) = A.block<nV, nV>((n0 + i) * nV, (n0 + S.lowerTriStructure[i][j]) * nV);
                if constexpr (std::is_same_v<LU, Euler::JacobianLocalLU<nV>>)
                    for (size_t j = 0; j < S.upperTriStructure[i].size(); j++)
                        lu.GetUpper(i, int(j)) = A.block<nV, nV>((n0 + i) * nV, (n0 + S.upperTriStructure[i][j]) * nV);
            }
            VX v = vec(hmix(p->seed, 77));
            DOF x, y, z;
            build(x), build(y), build(z);
            put(x, v);
            lu.MatMul(x, y);
            MX al = A.block(n0 * nV, n0 * nV, n * nV, n * nV);
            VX av = al * v.segment(n0 * nV, n * nV);
            for (int i = 0; i < n; i++)
                if (!((y[i] - av.segment(i * nV, nV)).cwiseAbs().maxCoeff() < 1e-11 * (1 + av.cwiseAbs().maxCoeff())))
                    sim_fail("factorisation", "rank %d: %s: the product differs in row %d", me, what, n0 + i);
            if constexpr (std::is_same_v<LU, Euler::JacobianLocalLU<nV>>)
                variant ? lu.InPlaceDecomposeV2() : lu.InPlaceDecompose();
            else
                lu.InPlaceDecompose();
            lu.Solve(y, z);
            for (int i = 0; i < n; i++)
            {
                if (!Eigen::Vector2d(z[i]).allFinite())
                    sim_fail("factorisation", "rank %d: %s: not finite in row %d", me, what, n0 + i);
                if (complete && !((z[i] - v.segment((n0 + i) * nV, nV)).cwiseAbs().maxCoeff() < 1e-9))
                    sim_fail("factorisation", "rank %d: %s: a complete factorisation does not give back row %d", me, what, n0 + i);
            }
            sim_probe((std::string("factorisation: ") + what).c_str());
        }
        void direct()
        {
            for (size_t io = 0; io < p->ops.size(); io++)
            {
                int o = p->ops[io][0], k = p->ops[io][1];
                ssp<Direct::SerialSymLUStructure> S;
                DNDS_MAKE_SSP(S, mpi, n);
                if (k & 1)
                { // an ordering
                    std::vector<index> q(n);
                    std::iota(q.begin(), q.end(), 0);
                    for (int i = 0; i + 1 < n; i++)
                        std::swap(q[i], q[i + hmix(hmix(p->seed, io), i) % (n - i)]);
                    S->localFillOrderingNew2Old = q;
                    S->localFillOrderingOld2New.resize(n);
                    for (int i = 0; i < n; i++)
                        S->localFillOrderingOld2New[q[i]] = i;
                }
                std::vector<std::vector<index>> adj(n);
                for (int i = 0; i < n; i++)
                    for (int j : p->nb[n0 + i])
                        if (j >= n0 && j < n0 + n)
                            adj[i].push_back(j - n0);
                int ilu = o % 4 < 2 ? -1 : (k >> 1) % 4;
                S->ObtainSymmetricSymbolicFactorization(adj, ilu);
                // the positions of the neighbours in the full rows
                for (int i = 0; i < n; i++)
                    for (size_t j = 0; j < adj[i].size(); j++)
                    {
                        size_t q = size_t(S->cell2cellFaceVLocal2FullRowPos[i][j]), nl = S->lowerTriStructure[i].size();
                        index at = q < 1 ? -1 : q - 1 < nl ? S->lowerTriStructure[i][q - 1] : q - 1 - nl < S->upperTriStructure[i].size() ? S->upperTriStructure[i][q - 1 - nl] : -1;
                        if (at != adj[i][j])
                            sim_fail("factorisation", "rank %d: neighbour %d of row %d is looked up as %d", me, int(adj[i][j]), i, int(at));
                    }
                bool sym = o & 4;
                MX A = mat(hmix(p->seed, 200 + io), sym, 0.5, 1);
                if (sym)
                {
                    Euler::JacobianLocalLDLT<nV> l(S, nV);
                    for (int t = 0; t < 2; t++)
                        factorised("LDLT", l, A, ilu == -1, 0);
                }
                Euler::JacobianLocalLU<nV> l(S, nV);
                for (int t = 0; t < 2; t++)
                    factorised(k & 16 ? "LU second form" : "LU", l, A, ilu == -1, k & 16);
            }
        }
        // x' = A x + nl sin(x) + g(t)
        MX A;
        double nl = 0, gt = 0;
        VX g0;
        VX F(double t, const VX &x) { return A * x + nl * x.array().sin().matrix() + gt * g0 * (std::cos(2 * t) + t * t); }
        MX J(const VX &x)
        {
            MX j = A;
            j.diagonal() += nl * x.array().cos().matrix();
            return j;
        }
        // x = b + h F(t, x)
        VX implicit(const VX &b, double h, double t, VX x)
        {
            for (int i = 0; i < 30; i++)
            {
                VX r = b + h * F(t, x) - x;
                x += (MX::Identity(x.size(), x.size()) - h * J(x)).partialPivLu().solve(r);
            }
            return x;
        }
        // weights of a function of the polynomial through the values at nodes (and the slope at the last one, if it says so)
        static VX weights(const std::vector<double> &at, bool slope, std::function<double(int)> rhs)
        {
            int m = int(at.size()) + slope;
            MX V(m, m);
            VX r(m);
            for (int d = 0; d < m; d++)
            {
                for (size_t j = 0; j < at.size(); j++)
                    V(d, j) = std::pow(at[j], d);
                if (slope)
                    V(d, m - 1) = d ? d * std::pow(at.back(), d - 1) : 0;
                r(d) = rhs(d);
            }
            return V.fullPivLu().solve(r);
        }
        void ode()
        {
            for (size_t io = 0; io < p->ops.size(); io++)
            {
                int o = p->ops[io][0] % 13, k = p->ops[io][1];
                uint64_t sd = hmix(p->seed, 300 + io);
                A = mat(sd, false, 0, 0.6);
                nl = k & 1 ? 0.5 : 0, gt = k & 2 ? 1 : 0, g0 = vec(hmix(sd, 1));
                int nStep = 1 + (k >> 2) % 5;
                bool pp = k & 32, vary = k & 64;
                double relax = k & 128 ? 1 : 0.8;
                std::vector<VX> xs{vec(hmix(sd, 2))};
                std::vector<double> ts{rnd1(sd, 3)};
                using Base = ODE::ImplicitDualTimeStep<DOF, DTAU>;
                using BDF = ODE::ImplicitBDFDualTimeStep<DOF, DTAU>;
                using VBDF = ODE::ImplicitVBDFDualTimeStep<DOF, DTAU>;
                std::shared_ptr<Base> S;
                auto fi = [&](DOF &v) { build(v); };
                auto fd = [&](DTAU &v) { build(v); };
                int order = 0;
                double alpha = 0.3 + 0.4 * rnd01(sd, 4);
                bool localDt = false;
                switch (o)
                {
                case 0:
                    S = std::make_shared<ODE::ImplicitEulerDualTimeStep<DOF, DTAU>>(n, fi, fd);
                    break;
                case 1:
                case 2:
                    S = std::make_shared<ODE::ImplicitSDIRK4DualTimeStep<DOF, DTAU>>(n, fi, fd, o - 1);
                    break;
                case 3:
                case 4:
                case 5:
                case 6:
                    order = o - 2, vary = false;
                    S = std::make_shared<BDF>(n, fi, fd, order);
                    break;
                case 7:
                case 8:
                    order = o - 6;
                    S = std::make_shared<VBDF>(n, fi, fd, order);
                    break;
                case 9:
                case 10:
                case 11:
                    S = std::make_shared<ODE::ImplicitHermite3SimpleJacobianDualStep<DOF, DTAU>>(n, fi, fd, alpha, 0, (k >> 8) % 3, 0.9146, o - 9);
                    break;
                case 12:
                    localDt = k & 256;
                    if (localDt)
                        gt = 0;
                    S = std::make_shared<ODE::ExplicitSSPRK3TimeStepAsImplicitDualTimeStep<DOF, DTAU>>(n, fi, fd, localDt);
                    break;
                }
                const char *names[] = {"implicit Euler", "SDIRK4", "ESDIRK4", "BDF1", "BDF2", "BDF3", "BDF4", "VBDF1", "VBDF2", "Hermite U2R2", "Hermite U2R1", "Hermite U3R1", "SSPRK3"};
                std::string nm = fmts("%s%s (operation %zu)", names[o], pp && o >= 3 && o <= 8 ? " with positivity" : "", io);
                DOF x, inc;
                build(x), build(inc);
                put(x, xs[0]);
                double t = ts[0], dt = 0.05 + 0.1 * rnd01(sd, 5);
                VX dtau(p->N);
                for (int i = 0; i < p->N; i++)
                    dtau(i) = 0.05 + 0.1 * rnd01(sd, 6, i);
                double tol = 1e-9;
                for (int s = 0; s < nStep; s++)
                {
                    if (vary && s)
                        dt *= 0.5 + 1.3 * rnd01(sd, 7, s);
                    VX aim;
                    typename Base::Frhs frhs = [&](DOF &r, DOF &c, DTAU &, int iter, real ct, int)
                    {
                        pull(c);
                        VX f = F(t + ct * dt, gather(c));
                        put(r, f);
                        VX v = gather(c);
                        same(c, v, nm.c_str(), 0);
                    };
                    typename Base::Fdt fdt = [&](DOF &, DTAU &d, real, int)
                    {
                        for (index i = 0; i < d.Size(); i++)
                            d[i](0) = dtau(gid[i]);
                    };
                    typename Base::Fsolve fsolve = [&](DOF &c, DOF &res, DOF &other, DTAU &, real h, real a, DOF &xi, int iter, real ct, int uPos)
                    {
                        VX v = gather(c), r = gather(res);
                        if (!(std::abs(h - dt) <= 1e-12 * dt))
                            sim_fail("ode", "rank %d: %s: solves with a step of %g, not %g", me, nm.c_str(), h, dt);
                        if (o < 9)
                        {
                            VX ex = gather(other) - v / dt + a * F(t + ct * dt, v);
                            if (!((ex - r).cwiseAbs().maxCoeff() < 1e-10 * (1 + v.cwiseAbs().maxCoeff() / dt)))
                                sim_fail("ode", "rank %d: %s: the residual is not the sum of its parts (off by %g, iteration %d)", me, nm.c_str(), (ex - r).cwiseAbs().maxCoeff(), iter);
                        }
                        // what is limited, a state and its increment, adds up to the state the step aims at
                        if (aim.size() && !((v + dt * r - aim).cwiseAbs().maxCoeff() < 1e-10 * (1 + v.cwiseAbs().maxCoeff())))
                            sim_fail("ode", "rank %d: %s: state and increment to be limited do not add up to the aim of the step (off by %g, iteration %d)", me, nm.c_str(), (v + dt * r - aim).cwiseAbs().maxCoeff(), iter);
                        VX d = relax * (MX::Identity(v.size(), v.size()) / dt - a * J(v)).partialPivLu().solve(r);
                        put(xi, d);
                    };
                    int lastIter = 0;
                    typename Base::Fstop fstop = [&](int iter, DOF &res, int stage)
                    {
                        double v = res.norm2();
                        say(nm, v);
                        lastIter = iter;
                        return v * dt < 1e-13;
                    };
                    typename Base::Fincrement finc = [&](DOF &c, DOF &d, real a, int) { c.addTo(d, a); };
                    int maxIter = 60;
                    VX x0 = xs.back();
                    if (auto b = std::dynamic_pointer_cast<VBDF>(S); b && k & 512)
                    { // a step that keeps the extrapolation within a bound
                        double L = rnd01(sd, 8, s) * 1.3, wish = dt * (0.5 + 2 * rnd01(sd, 9, s)), got = wish;
                        double before = s ? t - ts[xs.size() - 2] : 0;
                        auto B = [&](double d) { return d / before * (d / (d + before)) / (1 + d / (d + before)); };
                        bool asked = false;
                        b->LimitDt_StepPPV2(x, [&](DOF &u, DOF &ui) -> real
                                            {
                                                asked = true;
                                                same(u, x0, "state to be limited", 1e-12, false);
                                                same(ui, s ? VX(B(wish) * (x0 - xs[xs.size() - 2])) : x0, "extrapolation", 1e-10, false);
                                                return L; }, got, 2);
                        say("limited step", got);
                        if (order == 1 || !s ? asked || got != wish : !asked || !(got > 0 && got <= wish))
                            sim_fail("ode", "rank %d: %s: a step of %g is limited to %g", me, nm.c_str(), wish, got);
                        if (asked && L >= 1 && got != wish)
                            sim_fail("ode", "rank %d: %s: a step of %g needs no limit, it becomes %g", me, nm.c_str(), wish, got);
                        if (asked && L < 1 && !(B(got) <= L * B(wish) * (1 + 1e-12) && (got == wish || got >= 2 * before * (1 - 1e-12) || B(got) >= 0.98 * L * B(wish) - 1e-5)))
                            sim_fail("ode", "rank %d: %s: with a bound of %g a step of %g becomes %g", me, nm.c_str(), L, wish, got);
                        sim_probe("step limited");
                        if (vary && got > 0.02 && got < 0.2)
                            dt = got;
                    }
                    if (pp && o >= 3 && o <= 8)
                    {
                        // limiters that limit nothing
                        auto lim = [](DOF &, int) {};
                        auto inc2 = [&](DOF &, DOF &base, DOF &, DOF &rp, const std::function<void()> &renew, real, int)
                        {
                            renew();
                            aim = gather(base) + gather(rp);
                        };
                        if (auto b = std::dynamic_pointer_cast<BDF>(S))
                            b->StepPP(x, inc, frhs, fdt, fsolve, maxIter, fstop, finc, dt, lim, inc2);
                        else
                            std::dynamic_pointer_cast<VBDF>(S)->StepPP(x, inc, frhs, fdt, fsolve, maxIter, fstop, finc, dt, lim, inc2);
                    }
                    else
                        S->Step(x, inc, frhs, fdt, fsolve, maxIter, fstop, finc, dt);
                    // the same step by the definition of the scheme
                    VX e;
                    int h = int(xs.size());
                    if (o == 0)
                        e = implicit(x0, dt, t + dt, x0);
                    else if (o <= 2)
                        e = VX(); // below
                    else if (o <= 8)
                    { // the derivative at the end of the polynomial through the last values is F
                        std::vector<double> at;
                        for (int q = std::max(0, h - order); q < h; q++)
                            at.push_back((ts[q] - t) / dt - 1);
                        at.push_back(0);
                        VX w = weights(at, false, [](int d) { return d == 1 ? 1. : 0.; });
                        VX b = VX::Zero(x0.size());
                        int q0 = std::max(0, h - order);
                        for (int q = q0; q < h; q++)
                            b -= w(q - q0) / w(w.size() - 1) * xs[q];
                        e = implicit(b, dt / w(w.size() - 1), t + dt, x0);
                    }
                    else if (o <= 11)
                    {
                        double al = alpha;
                        bool first = o == 11 && s == 0;
                        if (first)
                            al = 0.25;
                        VX w = weights({0, al, 1}, false, [](int d) { return 1. / (d + 1); });
                        VX f0 = F(t, x0), y = x0, m = x0;
                        // the value at al from values and slopes
                        VX c;
                        if (o == 9)
                            c = weights({0, 1}, true, [al](int d) { return std::pow(al, d); });
                        std::function<VX(const VX &)> mid;
                        if (o == 9)
                            mid = [&](const VX &y) -> VX
                            { double a = al; return (1 + 2 * a) * (1 - a) * (1 - a) * x0 + a * a * (3 - 2 * a) * y + dt * (a * (1 - a) * (1 - a) * f0 + a * a * (a - 1) * F(t + dt, y)); };
                        else
                        {
                            std::vector<double> at;
                            if (o == 11 && !first)
                                at.push_back((ts[h - 2] - t) / dt);
                            at.push_back(0), at.push_back(1);
                            VX c = weights(at, true, [al](int d) { return std::pow(al, d); });
                            mid = [&, c, at](const VX &y) -> VX
                            {
                                VX r = c(c.size() - 1) * dt * F(t + dt, y) + c(at.size() - 1) * y + c(at.size() - 2) * x0;
                                if (at.size() == 3)
                                    r += c(0) * xs[h - 2];
                                return r;
                            };
                        }
                        for (int it = 0; it < 200; it++) // the steps are small enough
                            y = x0 + dt * (w(0) * f0 + w(1) * F(t + al * dt, mid(y)) + w(2) * F(t + dt, y));
                        e = y;
                    }
                    else
                    {
                        VX D(x0.size());
                        for (int i = 0; i < D.size(); i++)
                            D(i) = localDt ? dtau(i / nV) : dt;
                        VX x1 = x0 + D.cwiseProduct(F(t, x0));
                        VX x2 = 0.75 * x0 + 0.25 * (x1 + D.cwiseProduct(F(t + dt, x1)));
                        e = x0 / 3 + 2. / 3 * (x2 + D.cwiseProduct(F(t + dt / 2, x2)));
                    }
                    if (o == 1 || o == 2)
                    { // fourth order: compare with a much finer integration
                        VX y = x0;
                        int sub = 64;
                        double hh = dt / sub;
                        for (int q = 0; q < sub; q++)
                        {
                            double tt = t + q * hh;
                            VX k1 = F(tt, y), k2 = F(tt + hh / 2, y + hh / 2 * k1), k3 = F(tt + hh / 2, y + hh / 2 * k2), k4 = F(tt + hh, y + hh * k3);
                            y += hh / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
                        }
                        VX d = gather(x) - y;
                        double z = dt * std::max(2., A.cwiseAbs().rowwise().sum().maxCoeff() + nl);
                        double bound = (o == 1 ? 0.0005 : 0.003) * std::pow(z, 5) * (2 + x0.cwiseAbs().maxCoeff()) + 1e-9;
                        if (!(d.cwiseAbs().maxCoeff() <= bound))
                            sim_fail("ode", "rank %d: %s: step %d is off by %g, the fifth power of the step is %g", me, nm.c_str(), s, d.cwiseAbs().maxCoeff(), bound);
                        sim_probe(fmts("order:%s 1e%d of the bound", names[o], int(std::ceil(std::log10(d.cwiseAbs().maxCoeff() / bound + 1e-9)))).c_str());
                        e = gather(x);
                        pull(x);
                        same(x, e, nm.c_str(), 0);
                    }
                    else
                        same(x, e, nm.c_str(), tol, false);
                    sim_probe((std::string("ode:") + names[o]).c_str());
                    t += dt;
                    xs.push_back(gather(x));
                    ts.push_back(t);
                }
            }
        }
        void go()
        {
            if (p->mode == M_VEC)
                vectors();
            else if (p->mode == M_KRYLOV)
                krylov();
            else if (p->mode == M_DIRECT)
                direct();
            else
                ode();
        }
    };
    void rank(void *vp, int)
    {
        auto p = (Plan *)vp;
        MPI_Init(nullptr, nullptr);
        {
            MPIInfo mpi;
            mpi.setWorld();
            MPI::CommStrategy::Instance();
            Run(p, mpi).go();
        }
        MPI_Finalize();
    }
    void fin(void *) {}
    const wl_entry table[] = {
        {"vec", []() -> void * { return plan(M_VEC); }, rank, fin},
        {"krylov", []() -> void * { return plan(M_KRYLOV); }, rank, fin},
        {"direct", []() -> void * { return plan(M_DIRECT); }, rank, fin},
        {"ode", []() -> void * { return plan(M_ODE); }, rank, fin},
    };
}
extern "C" __attribute__((visibility("default"))) const wl_entry *wl_table(int *n)
{
    *n = sizeof(table) / sizeof(table[0]);
    return table;
}
