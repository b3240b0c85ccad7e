// Workloads over DNDS::ParArray / ArrayTransformer / ArrayPair / index mappings: histories of ghost
// communication on several arrays at once, against a sequential reference model.
#include "common.hpp"
#include "DNDS/ArrayPair.hpp"
using namespace DNDS;
using namespace W;

namespace

{
    using DNDS::index;
    using Row = std::vector<uint64_t>;
    enum Kind
    {
        K_real1,
        K_real5,
        K_realDyn,
        K_realMax,
        K_realSMax,
        K_realCSR,
        K_idxCSR,
        K_arr3CSR,
        K_i32SMax,
        K_u8Dyn,
        K_arr2Fix,
        K_N
    };
    const char *kindName[] = {"real<1>", "real<5>", "real<dyn>", "real<max-dyn>", "real<max 4>", "real<csr>", "index<csr>", "array3<csr>", "int32<max 3>", "uint8<dyn>", "array2<2>"};
    bool isCSRk(int k) { return k == K_realCSR || k == K_idxCSR || k == K_arr3CSR; }
    bool isMaxk(int k) { return k == K_realMax || k == K_realSMax || k == K_i32SMax; }
    enum OpT
    {
        O_WF,
        O_WS,
        O_PULL1,
        O_PUSH1,
        O_INITL,
        O_INITS,
        O_STARTL,
        O_WAITL,
        O_STARTS,
        O_WAITS,
        O_CLEARL,
        O_CLEARS,
        O_SWAP,
        O_REINIT,
        O_REBUILD,
        O_STRAT,
        O_COPYF,
        O_N
    };
    const char *opName[] = {"writeFather", "writeSon", "pullOnce", "pushOnce", "initPull", "initPush", "startPull", "waitPull", "startPush", "waitPush", "clearPull", "clearPush", "swap", "reInit", "rebuild", "setStrategy", "copyFather"};
    struct Geo // sizes, rows and ghosts of one array version
    {
        std::vector<int> sizes;                  // per rank
        std::vector<std::vector<int>> rows;      // row sizes, per rank per row
        int dyn = 1;                             // run-time row size (max)
        int how = 0;                             // 0 pull set, 1 push lists, 2 borrowed
        std::vector<std::vector<index>> pull;    // as given by the user: unsorted, with repeats
        std::vector<std::vector<std::vector<int>>> push; // [rank][to][k] local rows
        std::vector<std::vector<index>> ghost;   // expected ghost index per rank
        bool uniqueHolder = true;                // no row has two ghost copies (push well defined)
        bool ascending = true;
        std::vector<index> off;
        index N = 0;
    };
    struct ArrP
    {
        int kind = 0, twinOf = -1, borrow = -1, compressFirst = 1;
    };
    struct Op
    {
        int t, a, b;
        int geo; // for rebuild
        uint32_t ver;
        int mode = 0; // for rebuild: 0 new arrays; same arrays with new rows and 1 new types, 2 and new ghosts, 3 and new sizes
    };
    struct Group
    {
        int nr = 1;
        std::vector<int> members; // world ranks in the order of the group's communicator
        std::vector<ArrP> arrs;
        std::vector<Geo> geos; // geos[a] initial geometry of array a; rebuilds append
        std::vector<Op> ops;
    };
    struct Plan
    {
        int nr = 1;
        int commMode = 0;
        CommOpts co;
        std::vector<Group> groups;
        bool checkMaps = true;
    };
    void finishGeo(Geo &g, int nr)
    {
        g.off.assign(nr + 1, 0);
        for (int r = 0; r < nr; r++)
            g.off[r + 1] = g.off[r] + g.sizes[r];
        g.N = g.off[nr];
        g.ghost.assign(nr, {});
        g.ascending = true;
        if (g.how == 0)
            for (int r = 0; r < nr; r++)
            {
                g.ghost[r] = g.pull[r];
                std::sort(g.ghost[r].begin(), g.ghost[r].end());
                g.ghost[r].erase(std::unique(g.ghost[r].begin(), g.ghost[r].end()), g.ghost[r].end());
            }
        else
            for (int r = 0; r < nr; r++)
                for (int s = 0; s < nr; s++)
                    for (int l : g.push[s][r])
                        g.ghost[r].push_back(g.off[s] + l);
        std::map<index, int> cnt;
        for (auto &v : g.ghost)
        {
            for (auto i : v)
                cnt[i]++;
            if (!std::is_sorted(v.begin(), v.end()))
                g.ascending = false;
        }
        g.uniqueHolder = true;
        for (auto &p : cnt)
            if (p.second > 1)
                g.uniqueHolder = false;
    }
    void drawRows(Geo &g, int nr, int kind)
    {
        g.dyn = kind == K_u8Dyn ? PR(1, 9) : PR(1, 4);
        if (PB(4))
            g.dyn = PR(5, 40);
        g.rows.assign(nr, {});
        bool zeroRows = PB(30), allZero = PB(5);
        for (int r = 0; r < nr; r++)
            for (int i = 0; i < g.sizes[r]; i++)
            {
                int m = 1;
                switch (kind)
                {
                case K_real1: m = 1; break;
                case K_real5: m = 5; break;
                case K_realDyn: m = g.dyn; break;
                case K_u8Dyn: m = g.dyn; break;
                case K_arr2Fix: m = 2; break;
                case K_realMax: m = PR(zeroRows ? 0 : 1, g.dyn); break;
                case K_realSMax: m = PR(zeroRows ? 0 : 1, 4); break;
                case K_i32SMax: m = PR(zeroRows ? 0 : 1, 3); break;
                default: m = allZero ? 0 : PR(zeroRows ? 0 : 1, 6);
                }
                g.rows[r].push_back(m);
            }
    }
    Geo drawGeo(int nr, int kind, const Geo *space, bool wantUnique)
    {
        Geo g;
        if (space)
            g.sizes = space->sizes;
        else
        {
            int big = PB(10) ? 40 : PB(40) ? 8 : 4;
            for (int r = 0; r < nr; r++)
                g.sizes.push_back(PB(20) ? 0 : PR(1, big));
            if (PB(5))
                std::fill(g.sizes.begin(), g.sizes.end(), 0);
        }
        drawRows(g, nr, kind);
        g.off.assign(nr + 1, 0);
        for (int r = 0; r < nr; r++)
            g.off[r + 1] = g.off[r] + g.sizes[r];
        g.N = g.off[nr];
        g.how = PB(25) ? 1 : 0;
        g.pull.assign(nr, {});
        g.push.assign(nr, std::vector<std::vector<int>>(nr));
        int density = PR(0, 3);
        bool self = PB(35);
        if (wantUnique)
        {
            // every row gets at most one holder
            for (index i = 0; i < g.N; i++)
            {
                int o = int(std::upper_bound(g.off.begin(), g.off.end(), i) - g.off.begin()) - 1;
                if (density == 0 && !PB(30))
                    continue;
                int h = int(P(nr + 1)) - 1;
                if (h < 0 || (h == o && !self))
                    continue;
                if (g.how == 0)
                    g.pull[h].push_back(i);
                else
                    g.push[o][h].push_back(int(i - g.off[o]));
            }
            if (g.how == 0)
                for (auto &v : g.pull)
                    if (v.size() > 1 && PB(60))
                    {
                        auto p = perm(int(v.size()));
                        auto w = v;
                        for (size_t k = 0; k < v.size(); k++)
                            v[k] = w[p[k]];
                    }
        }
        else
            for (int r = 0; r < nr; r++)
            {
                if (PB(15))
                    continue; // this rank needs nothing
                int n = g.N == 0 ? 0 : (density == 3 ? int(g.N) : PR(0, std::min<int>(int(g.N), 2 + density * 4)));
                for (int k = 0; k < n; k++)
                {
                    index i = density == 3 ? k : index(P(uint32_t(g.N)));
                    int o = int(std::upper_bound(g.off.begin(), g.off.end(), i) - g.off.begin()) - 1;
                    if (o == r && !self)
                        continue;
                    if (g.how == 0)
                    {
                        g.pull[r].push_back(i);
                        if (PB(10))
                            g.pull[r].push_back(i); // repeated requests
                    }
                    else
                    {
                        auto &v = g.push[o][r];
                        int l = int(i - g.off[o]);
                        if (std::find(v.begin(), v.end(), l) == v.end())
                            v.push_back(l);
                    }
                }
            }
        finishGeo(g, nr);
        return g;
    }
    struct St
    {
        bool iL = false, iS = false, aL = false, aS = false;
        int geo;
        int strat;
    };
    void drawOps(Group &G, int nOps, bool allowPush, bool allowPull, bool allowRebuild, bool allowSwap, int strat0)
    {
        int na = int(G.arrs.size());
        std::vector<St> st(na);
        for (int a = 0; a < na; a++)
            st[a].geo = a, st[a].strat = strat0;
        int curStrat = strat0;
        uint32_t ver = 1;
        auto emit = [&](int t, int a, int b = -1, int geo = -1) { G.ops.push_back({t, a, b, geo, ver++}); };
        auto twin = [&](int a)
        {
            bool t = G.arrs[a].twinOf >= 0;
            for (auto &x : G.arrs)
                t = t || x.twinOf == a;
            return t;
        };
        auto tied = [&](int a) // its mapping is or was borrowed
        {
            bool t = G.arrs[a].borrow >= 0;
            for (auto &x : G.arrs)
                t = t || x.borrow == a;
            return t;
        };
        auto canRebuild = [&](int a)
        { return !twin(a) && (allowRebuild || G.nr > 1); };
        for (int k = 0; k < nOps; k++)
        {
            int a = int(P(na));
            auto &s = st[a];
            bool act = s.aL || s.aS;
            bool canPush = allowPush && G.geos[s.geo].uniqueHolder;
            std::vector<int> c;
            if (act)
            {
                c.push_back(s.aL ? O_WAITL : O_WAITS);
                c.push_back(c[0]);
            }
            else
            {
                c = {O_WF, O_WS};
                if (allowPull)
                {
                    c.insert(c.end(), {O_PULL1, O_INITL});
                    if (s.iL)
                        c.insert(c.end(), {O_STARTL, O_STARTL, O_STARTL, O_CLEARL});
                }
                if (canPush)
                {
                    c.insert(c.end(), {O_PUSH1, O_INITS});
                    if (s.iS)
                        c.insert(c.end(), {O_STARTS, O_STARTS, O_STARTS, O_CLEARS});
                }
                if (s.iL || s.iS)
                    c.push_back(O_REINIT);
                if (canRebuild(a))
                    c.push_back(O_REBUILD);
                if (allowSwap)
                    for (int b = 0; b < na; b++)
                        if (b != a && (G.arrs[b].twinOf == a || G.arrs[a].twinOf == b) && !st[b].aL && !st[b].aS)
                            c.insert(c.end(), {O_SWAP, O_SWAP, O_COPYF});
            }
            int o = c[P(uint32_t(c.size()))];
            switch (o)
            {
            case O_INITL: s.iL = true; break;
            case O_INITS: s.iS = true; break;
            case O_PULL1: s.iL = false; break;
            case O_PUSH1: s.iS = false; break;
            case O_CLEARL: s.iL = false; break;
            case O_CLEARS: s.iS = false; break;
            case O_STARTL: s.aL = true; break;
            case O_STARTS: s.aS = true; break;
            case O_WAITL: s.aL = false; break;
            case O_WAITS: s.aS = false; break;
            default:;
            }
            if (o == O_SWAP || o == O_COPYF)
            {
                int b = -1;
                for (int x = 0; x < na; x++)
                    if (x != a && (G.arrs[x].twinOf == a || G.arrs[a].twinOf == x) && !st[x].aL && !st[x].aS)
                        b = x;
                emit(o, a, b);
                if (o == O_COPYF) // storage is replaced: persistent requests have to be set up again
                    st[a].iL = st[a].iS = false;
            }
            else if (o == O_REBUILD)
            {
                int mode = tied(a) ? 1 : int(P(4));
                if (!allowRebuild && mode == 0)
                    mode = 1;
                Geo g;
                if (mode == 1)
                    g = G.geos[s.geo], drawRows(g, G.nr, G.arrs[a].kind);
                else
                    g = drawGeo(G.nr, G.arrs[a].kind, mode == 2 ? &G.geos[s.geo] : nullptr, allowRebuild ? PB(60) : allowPush);
                G.geos.push_back(g);
                s.geo = int(G.geos.size()) - 1;
                s.iL = s.iS = false;
                emit(o, a, allowRebuild ? int(P(3)) : 0, s.geo); // b: strategy change before the new types (0 none, 1 hindexed, 2 in-situ)
                G.ops.back().mode = mode;
            }
            else
                emit(o, a);
        }
        for (int a = 0; a < na; a++)
        {
            if (st[a].aL)
                emit(O_WAITL, a);
            if (st[a].aS)
                emit(O_WAITS, a);
        }
        if (allowPull)
            for (int a = 0; a < na; a++)
                if (PB(50))
                    emit(O_PULL1, a);
        (void)curStrat;
    }
    Plan *mkPlan(bool pull, bool push, bool life, bool maps)
    {
        auto *p = new Plan;
        sim_cfg *c = sim_config();
        p->nr = c->nranks = PB(10) ? 1 : PR(2, 6);
        p->co.draw();
        p->co.apply();
        p->commMode = PB(25) ? PR(1, 3) : 0; // 0 world 1 reversed 2 dup 3 two groups
        if (p->nr < 3 && p->commMode == 3)
            p->commMode = 1;
        int ng = p->commMode == 3 ? 2 : 1;
        p->groups.resize(ng);
        for (int r = 0; r < p->nr; r++)
            p->groups[ng == 2 ? r % 2 : 0].members.push_back(r);
        for (auto &G : p->groups)
        {
            if (p->commMode == 1 || p->commMode == 3)
                std::reverse(G.members.begin(), G.members.end());
            G.nr = int(G.members.size());
            int na = life ? PR(1, 3) : PR(1, 2);
            for (int a = 0; a < na; a++)
            {
                ArrP A;
                int mode = a == 0 ? 0 : int(P(4));
                if (mode == 1 && life)
                {
                    A.twinOf = 0, A.kind = G.arrs[0].kind;
                    G.geos.push_back(G.geos[0]);
                    G.geos.back().how = PB(50) ? 2 : G.geos[0].how;
                    if (G.geos.back().how == 2)
                        A.borrow = 0;
                }
                else if (mode == 2)
                {
                    A.kind = int(P(K_N)), A.borrow = 0;
                    Geo g = G.geos[0];
                    drawRows(g, G.nr, A.kind);
                    g.how = 2;
                    G.geos.push_back(g);
                }
                else
                {
                    A.kind = int(P(K_N));
                    G.geos.push_back(drawGeo(G.nr, A.kind, mode == 3 ? &G.geos[0] : nullptr, push && (!pull || PB(60))));
                }
                G.arrs.push_back(A);
            }
            int nOps = life ? PR(4, 40) : PR(2, 12);
            drawOps(G, nOps, push, pull, life, life, p->co.inSitu);
        }
        std::string s = fmts("ranks=%d comm=%d %s", p->nr, p->commMode, p->co.str().c_str());
        for (auto &G : p->groups)
        {
            s += " {";
            for (size_t a = 0; a < G.arrs.size(); a++)
                s += fmts(" a%zu=%s sizes=%s %s", a, kindName[G.arrs[a].kind], vstr(G.geos[a].sizes).c_str(), G.geos[a].how == 0 ? "pull" : G.geos[a].how == 1 ? "push" : "borrowed");
            for (auto &o : G.ops)
                s += o.t == O_REBUILD ? fmts(" %s%d(%d)", opName[o.t], o.mode, o.a) : fmts(" %s(%d)", opName[o.t], o.a);
            s += " }";
        }
        sim_sample(s.c_str());
        p->checkMaps = maps;
        return p;
    }
    // ------------------------------------------------------------------ values
    template <class T>
    struct Conv
    {
        static T to(uint64_t v) { return T(v); }
        static std::string s(const T &v) { return std::to_string(v); }
    };
    template <>
    struct Conv<real>
    {
        static real to(uint64_t v) { return real(int64_t(v >> 12)) * 0.3725; }
        static std::string s(real v) { return fmts("%.17g", v); }
    };
    template <class U, size_t n>
    struct Conv<std::array<U, n>>
    {
        static std::array<U, n> to(uint64_t v)
        {
            std::array<U, n> r;
            for (size_t i = 0; i < n; i++)
                r[i] = Conv<U>::to(hmix(v, i));
            return r;
        }
        static std::string s(const std::array<U, n> &v)
        {
            std::string o = "(";
            for (auto &x : v)
                o += Conv<U>::s(x) + " ";
            return o + ")";
        }
    };
    // ------------------------------------------------------------------ the real thing behind one interface
    struct Base
    {
        virtual ~Base() = default;
        virtual void build(const Geo &g, const MPIInfo &mpi, Base *borrow) = 0;
        virtual void rebuild(const Geo &g, const MPIInfo &mpi, int mode) = 0;
        virtual void setFather(int row, const Row &v) = 0;
        virtual void setSon(int row, const Row &v) = 0;
        virtual void op(int t, Base *other) = 0;
        virtual std::string cmpFather(const std::vector<Row> &m) = 0;
        virtual std::string cmpSon(const std::vector<Row> &m) = 0;
        virtual ssp<OffsetAscendIndexMapping> ghostMap() = 0;
        virtual ssp<GlobalOffsetsMapping> globMap() = 0;
        virtual std::string cmpPair(const std::vector<Row> &f, const std::vector<Row> &s) = 0;
        virtual index globalSize() = 0;
        virtual bool consistent() = 0;
    };
    template <class T, rowsize rs, rowsize rm = rs>
    struct Impl : Base
    {
        using TA = ParArray<T, rs, rm>;
        ArrayPair<TA> pr;
        static constexpr auto lay = TA::_dataLayout;
        Geo cur;
        void mk(const Geo &g, const MPIInfo &mpi, int mode = 0)
        {
            cur = g;
            if (mode == 0)
            {
                DNDS_MAKE_SSP(pr.father, mpi);
                DNDS_MAKE_SSP(pr.son, mpi);
            }
            auto &f = *pr.father;
            f.Decompress();
            int n = g.sizes[mpi.rank];
            auto &rows = g.rows[mpi.rank];
            if constexpr (lay == TABLE_StaticFixed || lay == TABLE_StaticMax)
                f.Resize(n);
            else if constexpr (lay == CSR)
                f.Resize(n);
            else
                f.Resize(n, g.dyn);
            if constexpr (lay == CSR || isTABLE_Max(lay))
                for (int i = 0; i < n; i++)
                    f.ResizeRow(i, rows[i]);
        }
        void build(const Geo &g, const MPIInfo &mpi, Base *borrow) override
        {
            mk(g, mpi);
            finish(g, mpi, borrow);
        }
        void finish(const Geo &g, const MPIInfo &mpi, Base *borrow, int mode = 0)
        {
            if (mode == 0)
                pr.TransAttach();
            if (mode == 1)
                ; // mappings stay
            else if (borrow)
            {
                struct Lender
                {
                    ssp<TA> father;
                    ssp<OffsetAscendIndexMapping> pLGhostMapping;
                    ssp<GlobalOffsetsMapping> pLGlobalMapping;
                } l{pr.father, borrow->ghostMap(), borrow->globMap()};
                pr.trans.BorrowGGIndexing(l);
            }
            else
            {
                if (mode != 2)
                    pr.trans.createFatherGlobalMapping();
                if (g.how == 0)
                {
                    auto v = g.pull[mpi.rank];
                    pr.trans.createGhostMapping(v);
                }
                else
                {
                    std::vector<index> loc, st{0};
                    for (int r = 0; r < mpi.size; r++)
                    {
                        for (int l : g.push[mpi.rank][r])
                            loc.push_back(l);
                        st.push_back(index(loc.size()));
                    }
                    pr.trans.createGhostMapping(loc, st);
                }
            }
            pr.trans.createMPITypes();
        }
        void rebuild(const Geo &g, const MPIInfo &mpi, int mode) override
        {
            // reuse of one pair, or of its arrays, for a new distribution or new rows, as the mesh code does
            mk(g, mpi, mode);
            finish(g, mpi, nullptr, mode);
        }
        void setRow(TA &a, int row, const Row &v)
        {
            T *p = a[row];
            for (size_t j = 0; j < v.size(); j++)
                p[j] = Conv<T>::to(v[j]);
        }
        void setFather(int row, const Row &v) override { setRow(*pr.father, row, v); }
        void setSon(int row, const Row &v) override { setRow(*pr.son, row, v); }
        std::string cmpA(TA &a, const std::vector<Row> &m, const char *who)
        {
            if (a.Size() != index(m.size()))
                return fmts("%s has %lld rows, expected %zu", who, (long long)a.Size(), m.size());
            for (index i = 0; i < a.Size(); i++)
            {
                if (a.RowSize(i) != rowsize(m[i].size()))
                    return fmts("%s row %lld has size %d, expected %zu", who, (long long)i, int(a.RowSize(i)), m[i].size());
                for (size_t j = 0; j < m[i].size(); j++)
                    if (m[i][j] && !(a(i, rowsize(j)) == Conv<T>::to(m[i][j])))
                        return fmts("%s(%lld,%zu) is %s, expected %s", who, (long long)i, j, Conv<T>::s(a(i, rowsize(j))).c_str(), Conv<T>::s(Conv<T>::to(m[i][j])).c_str());
            }
            return "";
        }
        std::string cmpFather(const std::vector<Row> &m) override { return cmpA(*pr.father, m, "father"); }
        std::string cmpSon(const std::vector<Row> &m) override { return cmpA(*pr.son, m, "son"); }
        std::string cmpPair(const std::vector<Row> &f, const std::vector<Row> &s) override
        {
            if (pr.Size() != index(f.size() + s.size()))
                return fmts("pair size %lld, expected %zu", (long long)pr.Size(), f.size() + s.size());
            for (index i = 0; i < pr.Size(); i++)
            {
                auto &m = i < index(f.size()) ? f[i] : s[i - f.size()];
                if (pr.RowSize(i) != rowsize(m.size()))
                    return fmts("pair row %lld size %d, expected %zu", (long long)i, int(pr.RowSize(i)), m.size());
                T *p = pr[i];
                for (size_t j = 0; j < m.size(); j++)
                    if (m[j] && (!(p[j] == Conv<T>::to(m[j])) || !(pr(i, rowsize(j)) == p[j])))
                        return fmts("pair(%lld,%zu) is %s, expected %s", (long long)i, j, Conv<T>::s(p[j]).c_str(), Conv<T>::s(Conv<T>::to(m[j])).c_str());
            }
            return "";
        }
        ssp<OffsetAscendIndexMapping> ghostMap() override { return pr.trans.pLGhostMapping; }
        ssp<GlobalOffsetsMapping> globMap() override { return pr.trans.pLGlobalMapping; }
        index globalSize() override { return pr.father->globalSize(); }
        bool consistent() override { return pr.father->AssertConsistent(); }
        void op(int t, Base *o) override
        {
            auto &tr = pr.trans;
            switch (t)
            {
            case O_PULL1: tr.pullOnce(); break;
            case O_PUSH1: tr.pushOnce(); break;
            case O_INITL: tr.initPersistentPull(); break;
            case O_INITS: tr.initPersistentPush(); break;
            case O_STARTL: tr.startPersistentPull(); break;
            case O_STARTS: tr.startPersistentPush(); break;
            case O_WAITL: tr.waitPersistentPull(); break;
            case O_WAITS: tr.waitPersistentPush(); break;
            case O_CLEARL: tr.clearPersistentPull(); break;
            case O_CLEARS: tr.clearPersistentPush(); break;
            case O_REINIT: tr.reInitPersistentPullPush(); break;
            case O_SWAP: pr.SwapDataFatherSon(static_cast<Impl *>(o)->pr); break;
            case O_COPYF:
                pr.CopyFather(static_cast<Impl *>(o)->pr);
                break;
            default: sim_fail("harness", "op %d", t);
            }
        }
    };
    Base *mkArr(int k)
    {
        switch (k)
        {
        case K_real1: return new Impl<real, 1>;
        case K_real5: return new Impl<real, 5>;
        case K_realDyn: return new Impl<real, DynamicSize>;
        case K_realMax: return new Impl<real, NonUniformSize, DynamicSize>;
        case K_realSMax: return new Impl<real, NonUniformSize, 4>;
        case K_realCSR: return new Impl<real, NonUniformSize, NonUniformSize>;
        case K_idxCSR: return new Impl<index, NonUniformSize, NonUniformSize>;
        case K_arr3CSR: return new Impl<std::array<real, 3>, NonUniformSize, NonUniformSize>;
        case K_i32SMax: return new Impl<int32_t, NonUniformSize, 3>;
        case K_u8Dyn: return new Impl<uint8_t, DynamicSize>;
        case K_arr2Fix: return new Impl<std::array<int64_t, 2>, 2>;
        }
        return nullptr;
    }
    // ------------------------------------------------------------------ reference model
    struct Model
    {
        Geo g;
        std::vector<std::vector<Row>> f, s; // [rank][row]; token 0: unspecified
        void reset(const Geo &gg, int nr)
        {
            g = gg;
            f.assign(nr, {}), s.assign(nr, {});
            for (int r = 0; r < nr; r++)
            {
                for (int n : g.rows[r])
                    f[r].push_back(Row(n, 0));
                for (auto i : g.ghost[r])
                {
                    auto [o, l] = own(i);
                    s[r].push_back(Row(g.rows[o][l], 0));
                }
            }
        }
        std::pair<int, int> own(index i) const
        {
            int o = int(std::upper_bound(g.off.begin(), g.off.end(), i) - g.off.begin()) - 1;
            return {o, int(i - g.off[o])};
        }
        void pull()
        {
            for (size_t r = 0; r < s.size(); r++)
                for (size_t k = 0; k < s[r].size(); k++)
                {
                    auto [o, l] = own(g.ghost[r][k]);
                    s[r][k] = f[o][l];
                }
        }
        void push()
        {
            for (size_t r = 0; r < s.size(); r++)
                for (size_t k = 0; k < s[r].size(); k++)
                {
                    auto [o, l] = own(g.ghost[r][k]);
                    f[o][l] = s[r][k];
                }
        }
    };
    uint64_t tok(int a, int r, size_t i, size_t j, uint32_t ver, int son)
    {
        uint64_t v = hmix(hmix(hmix(hmix(a + 17, r * 2 + son), i), j), ver);
        return v ? v : 1;
    }
    void checkMaps(Base &b, const Geo &g, const MPIInfo &mpi, const char *when)
    {
        auto gm = b.globMap();
        auto hm = b.ghostMap();
        if (!gm || !hm)
            sim_fail("mapping", "%s: missing mapping", when);
        if (gm->globalSize() != g.N)
            sim_fail("mapping", "%s: globalSize %lld, expected %lld", when, (long long)gm->globalSize(), (long long)g.N);
        for (int r = 0; r < mpi.size; r++)
            if (gm->RLengths().at(r) != g.sizes[r] || gm->ROffsets().at(r + 1) != g.off[r + 1] || gm->ROffsets().at(0) != 0)
                sim_fail("mapping", "%s: offsets %s, expected %s", when, vstr(gm->ROffsets()).c_str(), vstr(g.off).c_str());
        for (index i = -2; i < g.N + 3; i++)
        {
            MPI_int rk = -7;
            index v = -7;
            bool ok = gm->search(i, rk, v);
            bool want = i >= 0 && i < g.N;
            if (ok != want)
                sim_fail("mapping", "%s: global search(%lld) returned %d", when, (long long)i, ok);
            if (want)
            {
                int o = int(std::upper_bound(g.off.begin(), g.off.end(), i) - g.off.begin()) - 1;
                if (rk != o || v != i - g.off[o])
                    sim_fail("mapping", "%s: global search(%lld) -> (%d,%lld), expected (%d,%lld)", when, (long long)i, rk, (long long)v, o, (long long)(i - g.off[o]));
                if ((*gm)(rk, v) != i)
                    sim_fail("mapping", "%s: global mapping does not invert at %lld", when, (long long)i);
            }
        }
        int me = mpi.rank;
        auto &gh = g.ghost[me];
        if (std::vector<index>(hm->ghostIndex.begin(), hm->ghostIndex.end()) != gh)
            sim_fail("mapping", "%s: ghost index %s, expected %s", when, vstr(hm->ghostIndex).c_str(), vstr(gh).c_str());
        // segment of each owner
        for (int r = 0; r < mpi.size; r++)
        {
            std::vector<index> seg, psh;
            for (auto i : gh)
                if (i >= g.off[r] && i < g.off[r + 1])
                    seg.push_back(i);
            for (auto i : g.ghost[r])
                if (i >= g.off[me] && i < g.off[me + 1])
                    psh.push_back(i);
            if (hm->ghostSizes.at(r) != int(seg.size()) || hm->ghostStart.at(r + 1) - hm->ghostStart.at(r) != int(seg.size()))
                sim_fail("mapping", "%s: ghost size of owner %d is %d, expected %zu", when, r, hm->ghostSizes.at(r), seg.size());
            if (hm->pushIndexSizes.at(r) != int(psh.size()) || hm->pushIndexStarts.at(r + 1) - hm->pushIndexStarts.at(r) != int(psh.size()))
                sim_fail("mapping", "%s: push size to %d is %d, expected %zu", when, r, hm->pushIndexSizes.at(r), psh.size());
            for (size_t k = 0; k < psh.size(); k++)
                if (hm->pushingIndexGlobal.at(hm->pushIndexStarts[r] + k) != psh[k])
                    sim_fail("mapping", "%s: push list to %d differs from what that rank asked for", when, r);
            for (size_t k = 0; k < seg.size(); k++)
                if (hm->ghostAt(r, k) != seg[k] || (*hm)(r, k) != seg[k])
                    sim_fail("mapping", "%s: ghostAt(%d,%zu)", when, r, k);
        }
        for (index l = 0; l < g.sizes[me] + index(gh.size()); l++)
        {
            index w = l < g.sizes[me] ? g.off[me] + l : gh[l - g.sizes[me]];
            if ((*hm)(-1, l) != w)
                sim_fail("mapping", "%s: local %lld maps to global %lld, expected %lld", when, (long long)l, (long long)(*hm)(-1, l), (long long)w);
        }
        if (!g.ascending)
            return;
        for (index i = -2; i < g.N + 3; i++)
        {
            bool inMain = i >= g.off[me] && i < g.off[me + 1];
            auto it = std::find(gh.begin(), gh.end(), i);
            bool want = inMain || it != gh.end();
            MPI_int rk = -7;
            index v = -7, v2 = -7, v3 = -7;
            bool ok = hm->search(i, rk, v);
            MPI_int rk2 = -7, rk3 = -7;
            bool ok2 = hm->search_indexAppend(i, rk2, v2), ok3 = hm->search_indexRank(i, rk3, v3);
            if (ok != want || ok2 != want || ok3 != want)
                sim_fail("mapping", "%s: local search(%lld) -> %d/%d/%d, expected %d", when, (long long)i, ok, ok2, ok3, want);
            auto t = hm->search(i);
            auto t2 = hm->search_indexAppend(i);
            auto t3 = hm->search_indexRank(i);
            if (std::get<0>(t) != want || std::get<0>(t2) != want || std::get<0>(t3) != want)
                sim_fail("mapping", "%s: local search(%lld) tuple form disagrees", when, (long long)i);
            if (!want)
                continue;
            int o = int(std::upper_bound(g.off.begin(), g.off.end(), i) - g.off.begin()) - 1;
            index pos = it - gh.begin(), segStart = std::lower_bound(gh.begin(), gh.end(), g.off[o]) - gh.begin();
            int er = inMain ? -1 : o;
            index ev = inMain ? i - g.off[me] : pos;
            index ev2 = inMain ? ev : pos + g.sizes[me], ev3 = inMain ? ev : pos - segStart;
            if (rk != er || rk2 != er || rk3 != er || v != ev || v2 != ev2 || v3 != ev3)
                sim_fail("mapping", "%s: search(%lld) -> (%d,%lld) append (%d,%lld) rank (%d,%lld), expected (%d,%lld/%lld/%lld)", when, (long long)i, rk, (long long)v, rk2, (long long)v2, rk3, (long long)v3, er, (long long)ev, (long long)ev2, (long long)ev3);
            if (std::get<1>(t) != er || std::get<2>(t) != ev || std::get<1>(t2) != er || std::get<2>(t2) != ev2 || std::get<1>(t3) != er || std::get<2>(t3) != ev3)
                sim_fail("mapping", "%s: search(%lld) tuple form disagrees", when, (long long)i);
            index vg = -7;
            bool okg = it != gh.end() && hm->searchInGhost(i, o, vg);
            if (okg != (it != gh.end()) || (okg && vg != pos - segStart))
                sim_fail("mapping", "%s: searchInGhost(%lld,%d)", when, (long long)i, o);
        }
        sim_probe("maps_checked");
    }
    void runRank(void *pp, int wr)
    {
        auto &p = *(Plan *)pp;
        MPI_Init(nullptr, nullptr);
        MPIInfo mpi;
        mpi.setWorld();
        Group *G = nullptr;
        int gi = 0;
        for (size_t k = 0; k < p.groups.size(); k++)
            for (int m : p.groups[k].members)
                if (m == wr)
                    G = &p.groups[k], gi = int(k);
        MPI::CommStrategy::Instance(); // constructed collectively on the world communicator
        if (p.commMode == 1 || p.commMode == 3)
        {
            MPI_Comm c;
            MPI_Comm_split(MPI_COMM_WORLD, gi, -wr, &c);
            mpi.comm = c;
        }
        else if (p.commMode == 2)
        {
            MPI_Comm c;
            MPI_Comm_dup(MPI_COMM_WORLD, &c);
            mpi.comm = c;
        }
        MPI_Comm_rank(mpi.comm, &mpi.rank);
        MPI_Comm_size(mpi.comm, &mpi.size);
        int nr = mpi.size, me = mpi.rank;
        int na = int(G->arrs.size());
        std::vector<std::unique_ptr<Base>> A(na);
        std::vector<Model> M(na);
        std::vector<int> act(na, 0);
        std::vector<int> curGeo(na);
        std::vector<char> anyL(na, 0), anyS(na, 0);
        auto check = [&](int a, const std::string &when)
        {
            std::string e;
            if (act[a] != O_STARTS)
                e = A[a]->cmpFather(M[a].f[me]);
            if (!e.empty())
                sim_fail("data", "after %s: array %d (%s): %s", when.c_str(), a, kindName[G->arrs[a].kind], e.c_str());
            if (act[a] != O_STARTL)
                e = A[a]->cmpSon(M[a].s[me]);
            if (e.empty() && !act[a])
                e = A[a]->cmpPair(M[a].f[me], M[a].s[me]);
            if (!e.empty())
                sim_fail("data", "after %s: array %d (%s): %s", when.c_str(), a, kindName[G->arrs[a].kind], e.c_str());
        };
        auto wf = [&](int a, uint32_t ver)
        {
            for (int r = 0; r < nr; r++)
                for (size_t i = 0; i < M[a].f[r].size(); i++)
                {
                    for (size_t j = 0; j < M[a].f[r][i].size(); j++)
                        M[a].f[r][i][j] = tok(a, r, i, j, ver, 0);
                    if (r == me)
                        A[a]->setFather(int(i), M[a].f[r][i]);
                }
        };
        auto ws = [&](int a, uint32_t ver)
        {
            for (int r = 0; r < nr; r++)
                for (size_t i = 0; i < M[a].s[r].size(); i++)
                {
                    for (size_t j = 0; j < M[a].s[r][i].size(); j++)
                        M[a].s[r][i][j] = tok(a, r, i, j, ver, 1);
                    if (r == me)
                        A[a]->setSon(int(i), M[a].s[r][i]);
                }
        };
        for (int a = 0; a < na; a++)
        {
            A[a].reset(mkArr(G->arrs[a].kind));
            curGeo[a] = a;
            M[a].reset(G->geos[a], nr);
            A[a]->build(G->geos[a], mpi, G->arrs[a].borrow >= 0 ? A[G->arrs[a].borrow].get() : nullptr);
            wf(a, 1000 + a);
            check(a, "build");
            if (p.checkMaps)
                checkMaps(*A[a], G->geos[a], mpi, "build");
        }
        for (int a = 0; a < na; a++)
            for (auto &v : G->geos[a].ghost)
                if (!v.empty() && nr > 1)
                    sim_probe("nontrivial");
        if (A[0]->globalSize() != G->geos[0].N)
            sim_fail("mapping", "globalSize() wrong");
        A[0]->consistent();
        int k = 0;
        for (auto &o : G->ops)
        {
            sim_note("op %d %s a%d", k, opName[o.t], o.a);
            sim_yield();
            std::string nm = fmts("op %d %s(a%d)", k++, opName[o.t], o.a);
            int a = o.a;
            switch (o.t)
            {
            case O_WF: wf(a, o.ver); break;
            case O_WS: ws(a, o.ver); break;
            case O_REBUILD:
                if (o.b)
                    MPI::CommStrategy::Instance().SetArrayStrategy(o.b == 1 ? MPI::CommStrategy::HIndexed : MPI::CommStrategy::InSituPack);
                curGeo[a] = o.geo;
                M[a].reset(G->geos[o.geo], nr);
                A[a]->rebuild(G->geos[o.geo], mpi, o.mode);
                wf(a, o.ver);
                if (p.checkMaps)
                    checkMaps(*A[a], G->geos[o.geo], mpi, nm.c_str());
                break;
            default:
                A[a]->op(o.t, o.b >= 0 ? A[o.b].get() : nullptr);
                switch (o.t)
                {
                case O_PULL1: M[a].pull(); break;
                case O_PUSH1: M[a].push(); break;
                case O_STARTL: act[a] = O_STARTL; break;
                case O_STARTS: act[a] = O_STARTS; break;
                case O_WAITL: act[a] = 0, M[a].pull(); break;
                case O_WAITS: act[a] = 0, M[a].push(); break;
                case O_SWAP: std::swap(M[a].f, M[o.b].f), std::swap(M[a].s, M[o.b].s); break;
                case O_COPYF: M[a].f = M[o.b].f; break;
                }
            }
            if (me == 0)
                sim_probe((std::string("op:") + opName[o.t]).c_str());
            for (int x = 0; x < na; x++)
                check(x, nm);
        }
        // the pairs go away before the world does
        A.clear();
        if (mpi.comm != MPI_COMM_WORLD)
            MPI_Comm_free(&mpi.comm);
        MPI_Finalize();
    }
    void *planPull() { return mkPlan(true, false, false, false); }
    void *planPush() { return mkPlan(PB(50), true, false, false); }
    void *planLife() { return mkPlan(true, true, true, false); }
    void *planMaps() { return mkPlan(true, false, PB(40), true); }
    const wl_entry tab[] = {
        {"pull", planPull, runRank, nullptr},
        {"push", planPush, runRank, nullptr},
        {"life", planLife, runRank, nullptr},
        {"maps", planMaps, runRank, nullptr},
    };
}
extern "C" const wl_entry *wl_table(int *n)
{
    *n = sizeof tab / sizeof tab[0];
    return tab;
}
