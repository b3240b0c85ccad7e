// Workloads over the archive layer: SerializerH5 (real HDF5 on simulated MPI-IO), SerializerJSON (real file
// streams on faulty descriptors), Array and ArrayPair serialisation.  One job writes, a second job of fresh
// processes (or the same one) reads.
#include "common.hpp"
#include "DNDS/ArrayPair.hpp"
#include "DNDS/SerializerFactory.hpp"
using namespace DNDS;
using namespace W;
namespace
{
    using DNDS::index;
    using Serializer::ArrayGlobalOffset;
    enum IT
    {
        I_INT,
        I_INDEX,
        I_REAL,
        I_STR,
        I_IVEC,
        I_RVEC,
        I_FVEC,
        I_SIVEC,
        I_SRVEC,
        I_U8,
        I_ARR,
        I_PAIR,
        I_PERRANK,
        I_N
    };
    const char *itName[] = {"int", "index", "real", "string", "indexVec", "rowVec", "realVec", "sharedIndex", "sharedRow", "bytes", "array", "pair", "perRank"};
    enum AK
    {
        A_r1,
        A_r5,
        A_rDyn,
        A_rMax,
        A_rSMax,
        A_rCSR,
        A_iCSR,
        A_a3CSR,
        A_i32SMax,
        A_u8Dyn,
        A_a2,
        A_i2,
        A_N
    };
    bool isCSR(int k) { return k == A_rCSR || k == A_iCSR || k == A_a3CSR; }
    bool isMax(int k) { return k == A_rMax || k == A_rSMax || k == A_i32SMax; }
    struct Item
    {
        int t = 0, kind = 0, dir = 0, off = 0; // off: 0 parts, 1 one, 2 dist
        std::string name;
        uint64_t salt = 0;
        std::vector<int> sz;                // per rank
        std::vector<std::vector<int>> rows; // arrays: row sizes
        std::vector<std::vector<int>> srows; // pairs: son rows
        std::vector<std::vector<index>> ghost;
        int dyn = 1;
        int alias = -1;            // shared vectors: index of the item whose vector is written again
        std::vector<int> aliasOn;  // ... on these ranks (1) or only on some of them
        int pig = 1;
        int readAs = 0; // compatible conversion on read
        int temp = 0;   // the vector dies right after it was written
        std::string sval;
        bool uncompressed = false;
    };
    struct Op
    {
        int it;
    };
    struct Plan
    {
        int nr = 1;
        bool h5 = true;
        int commW = 0, commR = 0;
        Serializer::SerializerFactory fac;
        std::vector<std::string> dirs;
        std::vector<Item> items;
        std::vector<int> readOrder;
        int inc = 1;
        int faults = 0;
        bool reuse = false; // the same serializer object for two files
        bool rel = false;
        bool keep = false; // ... with the shared vectors of the first still alive
        bool verifyAgain = false;
        // outcome
        int wroteOk = 0, wroteBad = 0;
        int readDone = 0;
    };
    uint64_t val(const Item &it, int r, int64_t i, int64_t j = 0) { return hmix(hmix(hmix(it.salt, r), i), j); }
    real toReal(uint64_t h, bool finite)
    {
        if (!finite && h % 13 == 0)
        {
            static const uint64_t sp[] = {0x7ff8000000000001ULL, 0x7ff0000000000000ULL, 0xfff0000000000000ULL, 0x8000000000000000ULL, 1, 0x7ff0000000000001ULL};
            uint64_t b = sp[(h >> 8) % 5];
            real v;
            memcpy(&v, &b, 8);
            return v;
        }
        switch (h % 7)
        {
        case 0: return real(int64_t(h >> 40)) - 5e6;
        case 1: return 0.0;
        case 2: return std::ldexp(real(h >> 12), int((h >> 3) % 600) - 350);
        default: return (real(h >> 11) / real(1ULL << 53)) * 2 - 1;
        }
    }
    bool same(real a, real b) { return !memcmp(&a, &b, 8); }
    index toIndex(uint64_t h) { return h % 5 == 0 ? index(h >> 1) - (index(1) << 62) : h % 5 == 1 ? -1 : index(h % 100000); }
    rowsize toRow(uint64_t h) { return rowsize(uint32_t(h >> 20)); }
    std::string toStr(uint64_t h)
    {
        static const char *cs = "abcXYZ_ 0189-./:{}\"\\\xc3\xa9\n\t";
        std::string s;
        int n = h % 9 == 0 ? 0 : h % 9 == 1 ? 300 : int(h % 17) + 1;
        for (int i = 0; i < n; i++)
        {
            h = hmix(h, i);
            int c = h % 22;
            if (c == 20)
                s += "\xc3\xa9";
            else if (c == 21)
                s += '\n';
            else
                s += cs[c];
        }
        return s;
    }

    void drawSizes(std::vector<int> &v, int nr)
    {
        v.assign(nr, 0);
        int mode = P(5);
        for (auto &x : v)
            x = mode == 0 ? int(P(4)) : mode == 1 ? int(P(9)) : mode == 2 ? 3 : mode == 3 ? (PB(60) ? 0 : PR(1, 6)) : PR(0, 2);
        if (PB(8))
            v[P(nr)] = PR(40, 200);
        if (PB(5))
            v.assign(nr, 0);
    }
    void drawRows(Item &it, std::vector<int> &sz, std::vector<std::vector<int>> &rows, int nr)
    {
        rows.assign(nr, {});
        for (int r = 0; r < nr; r++)
            for (int i = 0; i < sz[r]; i++)
            {
                int m = 1;
                switch (it.kind)
                {
                case A_r5: m = 5; break;
                case A_a2: m = 2; break;
                case A_i2: m = 2; break;
                case A_rDyn:
                case A_u8Dyn: m = it.dyn; break;
                case A_rMax: m = int(P(it.dyn + 1)); break;
                case A_rSMax: m = int(P(5)); break;
                case A_i32SMax: m = int(P(4)); break;
                case A_rCSR:
                case A_iCSR:
                case A_a3CSR: m = int(P(5)); break;
                }
                rows[r].push_back(m);
            }
    }
    void *planSer(int type, int faults)
    {
        auto *p = new Plan;
        p->nr = sim_config()->nranks = 1 + P(5);
        p->h5 = type == 0;
        p->faults = faults;
        p->inc = faults ? 2 : 1 + P(2);
        sim_config()->incarnations = p->inc;
        p->fac.type = p->h5 ? "H5" : "JSON";
        if (PB(50))
            p->fac.hdfChunkSize = PB(50) ? PR(1, 8) : PR(9, 256);
        if (p->fac.hdfChunkSize && PB(40))
            p->fac.hdfDeflateLevel = PR(1, 9);
        p->fac.hdfCollOnMeta = !PB(30);
        p->fac.hdfCollOnData = PB(50);
        p->fac.jsonUseCodecOnUInt8 = !PB(40);
        p->fac.jsonBinaryDeflateLevel = PR(0, 9);
        p->commW = P(3), p->commR = P(3);
        p->reuse = PB(30);
        p->rel = PB(50);
        p->keep = PB(60);
        p->verifyAgain = PB(30);
        p->dirs = {""};
        int nd = P(4);
        for (int i = 0; i < nd; i++)
            p->dirs.push_back(p->dirs[P(p->dirs.size())] + "/d" + std::to_string(i));
        int n = PR(1, faults ? 6 : 9);
        for (int i = 0; i < n; i++)
        {
            Item it;
            it.t = P(I_N);
            if (PB(35))
                it.t = PB(50) ? I_ARR : I_PAIR;
            if (!p->h5 && it.t == I_PERRANK)
                it.t = I_INDEX; // a distributed-file notion
            it.dir = P(p->dirs.size());
            { // the same name may be used in several directories
                int k = P(4);
                auto taken = [&](const std::string &n)
                {
                    for (auto &o : p->items)
                        if (o.dir == it.dir && o.name == n)
                            return true;
                    return false;
                };
                while (taken("x" + std::to_string(k)))
                    k++;
                it.name = "x" + std::to_string(k);
            }
            it.salt = sim_rand64(CH_PLAN);
            it.off = P(3);
            drawSizes(it.sz, p->nr);
            if (it.off == 1)
            { // one copy: the same on all ranks
                it.sz.assign(p->nr, it.sz[0]);
                if (it.t == I_SIVEC || it.t == I_SRVEC || it.t == I_U8)
                    it.off = 0;
            }
            it.temp = PB(40);
            if ((it.t == I_SIVEC || it.t == I_SRVEC) && PB(60))
            {
                for (int j = i - 1; j >= 0; j--)
                    if (p->items[j].t == it.t && p->items[j].alias < 0)
                    {
                        it.alias = j;
                        break;
                    }
                it.aliasOn.assign(p->nr, 1);
                if (p->h5 && PB(30))
                    for (auto &a : it.aliasOn)
                        a = PB(50);
                if (it.alias >= 0)
                {
                    p->items[it.alias].temp = 0;
                    it.off = 0;
                    p->items[it.alias].off = 0;
                    for (int r = 0; r < p->nr; r++)
                        if (it.aliasOn[r])
                            it.sz[r] = p->items[it.alias].sz[r];
                }
            }
            it.kind = P(A_N);
            it.dyn = PR(1, 4);
            drawRows(it, it.sz, it.rows, p->nr);
            it.uncompressed = isCSR(it.kind) && PB(40);
            it.readAs = PB(30);
            if (it.t == I_PAIR)
            {
                it.pig = PB(70);
                int N = 0;
                for (int s : it.sz)
                    N += s;
                it.ghost.assign(p->nr, {});
                std::vector<int> ssz(p->nr, 0);
                for (int r = 0; r < p->nr; r++)
                {
                    std::set<index> g;
                    int k = N ? int(P(6)) : 0;
                    for (int q = 0; q < k; q++)
                        g.insert(P(N));
                    it.ghost[r].assign(g.begin(), g.end());
                }
                it.srows.assign(p->nr, {});
                std::vector<std::pair<int, int>> own;
                for (int r = 0; r < p->nr; r++)
                    for (int q = 0; q < it.sz[r]; q++)
                        own.push_back({r, q});
                for (int r = 0; r < p->nr; r++)
                    for (auto g : it.ghost[r])
                        it.srows[r].push_back(it.rows[own[g].first][own[g].second]);
            }
            p->items.push_back(it);
        }
        p->readOrder = perm(n);
        if (PB(50))
            std::iota(p->readOrder.begin(), p->readOrder.end(), 0);
        if (faults)
        {
            auto &c = *sim_config();
            int f = P(10);
            c.io_faults = 1;
            if (f < 6)
            {
                static const int kj[] = {1, 2, 3, 6, 7, 2}, kh[] = {1, 2, 3, 1, 2, 3};
                c.io_fault_kind = (p->h5 ? kh : kj)[P(6)];
                c.io_fault_after = 1 + P(p->h5 ? 60 : c.io_fault_kind >= 6 ? p->nr : 2 * p->nr);
                c.io_fault_sticky = P(2);
                c.io_fault_inc = 0;
            }
            else if (f < 8)
            {
                static const int kj[] = {4, 5, 6}, kh[] = {4, 4, 4}; // an MPI read is short only at the end of the file
                c.io_fault_kind = (p->h5 ? kh : kj)[P(3)];
                c.io_fault_after = 1 + P(p->h5 ? 60 : c.io_fault_kind >= 6 ? p->nr : 2 * p->nr);
                c.io_fault_sticky = P(2);
                c.io_fault_inc = 1;
            }
            else if (f == 8)
                c.crash_io = 1 + P(p->h5 ? 80 : 6 * p->nr);
            else
                c.crash_step = 1 + P(4000);
        }
        std::string s = fmts("%s ranks=%d items=", p->fac.type.c_str(), p->nr);
        for (auto &it : p->items)
            s += std::string(itName[it.t]) + (it.off == 1 ? "(one)" : it.off == 2 ? "(dist)" : "") + " ";
        sim_sample(s.c_str());
        return p;
    }
    // ---------------------------------------------------------------- element access per array kind
    template <class T>
    T mk(uint64_t h)
    {
        if constexpr (std::is_same_v<T, real>)
            return toReal(h, false);
        else if constexpr (std::is_arithmetic_v<T>)
            return T(h);
        else
        {
            T t;
            for (size_t i = 0; i < t.size(); i++)
                t[i] = typename T::value_type(toReal(hmix(h, i), true));
            return t;
        }
    }
    template <class T, rowsize rs, rowsize rm>
    void sizeArr(ParArray<T, rs, rm> &A, const Item &it, const std::vector<int> &rows)
    {
        if constexpr (rs == DynamicSize)
            A.Resize(rows.size(), it.dyn);
        else if constexpr (rs == NonUniformSize && rm == NonUniformSize)
        {
            A.Resize(rows.size());
            for (size_t i = 0; i < rows.size(); i++)
                A.ResizeRow(i, rows[i]);
            if (!it.uncompressed)
                A.Compress();
        }
        else if constexpr (rs == NonUniformSize)
        {
            if constexpr (rm == DynamicSize)
                A.Resize(rows.size(), it.dyn);
            else
                A.Resize(rows.size());
            for (size_t i = 0; i < rows.size(); i++)
                A.ResizeRow(i, rows[i]);
        }
        else
            A.Resize(rows.size());
    }
    template <class T, rowsize rs, rowsize rm>
    void compress(ParArray<T, rs, rm> &A)
    {
        if constexpr (rs == NonUniformSize && rm == NonUniformSize)
            A.Compress();
    }
    template <class T, rowsize rs, rowsize rm>
    void fillArr(ParArray<T, rs, rm> &A, const Item &it, int r, uint64_t tag, const std::vector<int> &rows)
    {
        for (size_t i = 0; i < rows.size(); i++)
            for (int j = 0; j < rows[i]; j++)
                A(i, j) = mk<T>(val(it, r + int(tag) * 100, i, j));
    }
    template <class T, rowsize rs, rowsize rm>
    void cmpArr(ParArray<T, rs, rm> &A, const Item &it, int r, uint64_t tag, const std::vector<int> &rows, const char *what)
    {
        if (A.Size() != index(rows.size()))
            sim_fail("archive-mismatch", "%s %s: %lld rows read, %zu written", it.name.c_str(), what, (long long)A.Size(), rows.size());
        for (size_t i = 0; i < rows.size(); i++)
        {
            if (A.RowSize(i) != rows[i])
                sim_fail("archive-mismatch", "%s %s kind %d row %zu: row size %d read, %d written", it.name.c_str(), what, it.kind, i, int(A.RowSize(i)), rows[i]);
            for (int j = 0; j < rows[i]; j++)
            {
                T v = A(i, j), e = mk<T>(val(it, r + int(tag) * 100, i, j));
                if (memcmp(&v, &e, sizeof(T)))
                    sim_fail("archive-mismatch", "%s %s kind %d: entry (%zu,%d) differs from what was written", it.name.c_str(), what, it.kind, i, j);
            }
        }
    }
    template <class F>
    void withKind(int k, F &&f)
    {
        using a3 = std::array<real, 3>;
        using a2 = std::array<real, 2>;
        switch (k)
        {
        case A_r1: return f((ParArray<real, 1> *)nullptr);
        case A_r5: return f((ParArray<real, 5> *)nullptr);
        case A_rDyn: return f((ParArray<real, DynamicSize> *)nullptr);
        case A_rMax: return f((ParArray<real, NonUniformSize, DynamicSize> *)nullptr);
        case A_rSMax: return f((ParArray<real, NonUniformSize, 4> *)nullptr);
        case A_rCSR: return f((ParArray<real, NonUniformSize> *)nullptr);
        case A_iCSR: return f((ParArray<index, NonUniformSize> *)nullptr);
        case A_a3CSR: return f((ParArray<a3, NonUniformSize> *)nullptr);
        case A_i32SMax: return f((ParArray<int32_t, NonUniformSize, 3> *)nullptr);
        case A_u8Dyn: return f((ParArray<uint8_t, DynamicSize> *)nullptr);
        case A_a2: return f((ParArray<a2, 2> *)nullptr);
        case A_i2: return f((ParArray<index, 2> *)nullptr);
        }
    }
    // an alternative type an archive of this kind may be read into
    template <class F>
    void withReadKind(const Item &it, F &&f)
    {
        if (it.readAs && it.kind == A_r5)
            return f((ParArray<real, DynamicSize> *)nullptr);
        if (it.readAs && it.kind == A_rDyn && it.dyn == 2)
            return f((ParArray<real, 2> *)nullptr);
        withKind(it.kind, f);
    }
    ArrayGlobalOffset offOf(const Item &it, int r, int nr, const std::vector<int> &sz)
    {
        if (it.off == 1)
            return Serializer::ArrayGlobalOffset_One;
        if (it.off == 0)
            return Serializer::ArrayGlobalOffset_Parts;
        index o = 0, t = 0;
        for (int q = 0; q < nr; q++)
        {
            if (q < r)
                o += sz[q];
            t += sz[q];
        }
        return ArrayGlobalOffset{t, o};
    }
    int src(const Item &it, int r) { return it.off == 1 ? 0 : r; } // whose values
    template <class T, class G>
    std::vector<T> vec(const Item &it, int r, G g)
    {
        std::vector<T> v;
        for (int i = 0; i < it.sz[r]; i++)
            v.push_back(g(val(it, src(it, r), i)));
        return v;
    }
    MPIInfo mkComm(int mode)
    {
        MPIInfo w;
        w.setWorld();
        if (mode == 0 || w.size < 1)
            return w;
        MPI_Comm c;
        if (mode == 1)
            MPI_Comm_dup(MPI_COMM_WORLD, &c);
        else
            MPI_Comm_split(MPI_COMM_WORLD, 0, -w.rank, &c); // reversed ranks
        MPIInfo m;
        m.comm = c;
        MPI_Comm_rank(c, &m.rank);
        MPI_Comm_size(c, &m.size);
        return m;
    }
    std::string fileName(Plan *p, const MPIInfo &mpi, int k)
    {
        if (p->h5)
            return std::string(sim_workdir()) + "/a" + std::to_string(k) + ".h5";
        return std::string(sim_workdir()) + "/a" + std::to_string(k) + "_" + std::to_string(mpi.rank) + ".json";
    }
    void go(Plan *p, Serializer::SerializerBaseSSP s, const std::string &cur, const std::string &d, bool create)
    {
        // absolute, or relative from the root
        if (create && !d.empty())
        {
            if (p->rel)
            {
                if (!s->GetCurrentPath().empty())
                    s->GoToPath("/");
                s->CreatePath(d.substr(1));
            }
            else
                s->CreatePath(d);
        }
        if (s->GetCurrentPath() != d)
            s->GoToPath(d.empty() ? "/" : d);
    }
    struct Shared
    {
        ssp<std::vector<index>> iv;
        ssp<std::vector<rowsize>> rv;
    };
    void writeAll(Plan *p, MPIInfo &mpi, Serializer::SerializerBaseSSP s, std::vector<Shared> &sh)
    {
        int r = mpi.rank;
        sh.resize(p->items.size()); // vectors still alive from an earlier file are written again
        std::set<int> made;
        for (size_t k = 0; k < p->dirs.size(); k++) // parents come first
            go(p, s, "", p->dirs[k], true);
        for (size_t k = 0; k < p->items.size(); k++)
        {
            auto &it = p->items[k];
            go(p, s, "", p->dirs[it.dir], false);
            auto off = offOf(it, r, p->nr, it.sz);
            switch (it.t)
            {
            case I_INT: s->WriteInt(it.name, int(it.salt)); break;
            case I_INDEX: s->WriteIndex(it.name, toIndex(it.salt)); break;
            case I_REAL: s->WriteReal(it.name, toReal(it.salt, !p->h5)); break;
            case I_STR: s->WriteString(it.name, toStr(it.salt)); break;
            case I_IVEC: s->WriteIndexVector(it.name, vec<index>(it, r, toIndex), off); break;
            case I_RVEC: s->WriteRowsizeVector(it.name, vec<rowsize>(it, r, toRow), off); break;
            case I_FVEC: s->WriteRealVector(it.name, vec<real>(it, r, [&](uint64_t h) { return toReal(h, !p->h5); }), off); break;
            case I_PERRANK: s->WriteIndexVectorPerRank(it.name, {toIndex(val(it, r, 0)), toIndex(val(it, r, 1))}); break;
            case I_SIVEC:
                if (it.alias >= 0 && it.aliasOn[r])
                    sh[k].iv = sh[it.alias].iv;
                else if (!sh[k].iv)
                    sh[k].iv = std::make_shared<std::vector<index>>(vec<index>(it, r, toIndex));
                s->WriteSharedIndexVector(it.name, sh[k].iv, off);
                if (it.temp)
                    sh[k].iv.reset();
                break;
            case I_SRVEC:
                if (it.alias >= 0 && it.aliasOn[r])
                    sh[k].rv = sh[it.alias].rv;
                else if (!sh[k].rv)
                    sh[k].rv = std::make_shared<std::vector<rowsize>>(vec<rowsize>(it, r, toRow));
                s->WriteSharedRowsizeVector(it.name, sh[k].rv, off);
                if (it.temp)
                    sh[k].rv.reset();
                break;
            case I_U8:
            {
                auto v = vec<uint8_t>(it, r, [](uint64_t h) { return uint8_t(h); });
                s->WriteUint8Array(it.name, v.data(), v.size(), off);
                break;
            }
            case I_ARR:
                withKind(it.kind, [&](auto *t)
                         {
                             using TA = std::remove_pointer_t<decltype(t)>;
                             TA A(mpi);
                             sizeArr(A, it, it.rows[r]);
                             fillArr(A, it, r, 0, it.rows[r]);
                             A.WriteSerializer(s, it.name, Serializer::ArrayGlobalOffset_Parts); });
                break;
            case I_PAIR:
                withKind(it.kind, [&](auto *t)
                         {
                             using TA = std::remove_pointer_t<decltype(t)>;
                             ArrayPair<TA> pr;
                             DNDS_MAKE_SSP(pr.father, mpi);
                             DNDS_MAKE_SSP(pr.son, mpi);
                             sizeArr(*pr.father, it, it.rows[r]);
                             fillArr(*pr.father, it, r, 0, it.rows[r]);
                             if (isCSR(it.kind))
                                 compress(*pr.father);
                             pr.TransAttach();
                             pr.trans.createFatherGlobalMapping();
                             pr.trans.createGhostMapping(it.ghost[r]);
                             pr.trans.createMPITypes();
                             fillArr(*pr.son, it, r, 1, it.srows[r]);
                             pr.WriteSerialize(s, it.name, it.pig); });
                break;
            }
        }
    }
    template <class V>
    void cmpVec(const Item &it, const V &got, const V &want)
    {
        if (got.size() != want.size() || (got.size() && memcmp(got.data(), want.data(), got.size() * sizeof(got[0]))))
            sim_fail("archive-mismatch", "%s (%s off=%d): read %zu entries, wrote %zu, or the values differ", it.name.c_str(), itName[it.t], it.off, got.size(), want.size());
    }
    void readAll(Plan *p, MPIInfo &mpi, Serializer::SerializerBaseSSP s)
    {
        int r = mpi.rank;
        std::vector<Shared> sh(p->items.size());
        for (int k : p->readOrder)
        {
            auto &it = p->items[k];
            go(p, s, "", p->dirs[it.dir], false);
            auto off = it.off == 1 ? Serializer::ArrayGlobalOffset_One : Serializer::ArrayGlobalOffset_Unknown;
            auto off0 = it.t == I_IVEC || it.t == I_RVEC || it.t == I_FVEC ? off : Serializer::ArrayGlobalOffset_Unknown;
            switch (it.t)
            {
            case I_INT:
            {
                int v = 77;
                s->ReadInt(it.name, v);
                if (v != int(it.salt))
                    sim_fail("archive-mismatch", "int %s: read %d wrote %d", it.name.c_str(), v, int(it.salt));
                break;
            }
            case I_INDEX:
            {
                index v = 77;
                s->ReadIndex(it.name, v);
                if (v != toIndex(it.salt))
                    sim_fail("archive-mismatch", "index %s: read %lld wrote %lld", it.name.c_str(), (long long)v, (long long)toIndex(it.salt));
                break;
            }
            case I_REAL:
            {
                real v = 77;
                s->ReadReal(it.name, v);
                if (!same(v, toReal(it.salt, !p->h5)))
                    sim_fail("archive-mismatch", "real %s: read %.17g wrote %.17g", it.name.c_str(), v, toReal(it.salt, !p->h5));
                break;
            }
            case I_STR:
            {
                std::string v = "77";
                s->ReadString(it.name, v);
                if (v != toStr(it.salt))
                    sim_fail("archive-mismatch", "string %s: read [%s] wrote [%s]", it.name.c_str(), v.c_str(), toStr(it.salt).c_str());
                break;
            }
            case I_IVEC:
            {
                std::vector<index> v{7};
                s->ReadIndexVector(it.name, v, off0);
                cmpVec(it, v, vec<index>(it, r, toIndex));
                break;
            }
            case I_RVEC:
            {
                std::vector<rowsize> v{7};
                s->ReadRowsizeVector(it.name, v, off0);
                cmpVec(it, v, vec<rowsize>(it, r, toRow));
                break;
            }
            case I_FVEC:
            {
                std::vector<real> v{7};
                s->ReadRealVector(it.name, v, off0);
                cmpVec(it, v, vec<real>(it, r, [&](uint64_t h) { return toReal(h, !p->h5); }));
                break;
            }
            case I_PERRANK:
            {
                std::vector<index> v;
                s->ReadIndexVector(it.name, v, off0);
                cmpVec(it, v, std::vector<index>{toIndex(val(it, r, 0)), toIndex(val(it, r, 1))});
                break;
            }
            case I_SIVEC:
            {
                ssp<std::vector<index>> v;
                s->ReadSharedIndexVector(it.name, v, off0);
                cmpVec(it, *v, vec<index>(it.alias >= 0 && it.aliasOn[r] ? p->items[it.alias] : it, r, toIndex));
                sh[k].iv = v;
                break;
            }
            case I_SRVEC:
            {
                ssp<std::vector<rowsize>> v;
                s->ReadSharedRowsizeVector(it.name, v, off0);
                cmpVec(it, *v, vec<rowsize>(it.alias >= 0 && it.aliasOn[r] ? p->items[it.alias] : it, r, toRow));
                sh[k].rv = v;
                break;
            }
            case I_U8:
            {
                index n = 99999;
                s->ReadUint8Array(it.name, nullptr, n, off0);
                std::vector<uint8_t> v(n);
                s->ReadUint8Array(it.name, v.data(), n, off0);
                cmpVec(it, v, vec<uint8_t>(it, r, [](uint64_t h) { return uint8_t(h); }));
                break;
            }
            case I_ARR:
                withReadKind(it, [&](auto *t)
                             {
                                 using TA = std::remove_pointer_t<decltype(t)>;
                                 TA A(mpi);
                                 if (it.salt & 1)
                                     sizeArr(A, it, std::vector<int>(3, 1));
                                 auto o = Serializer::ArrayGlobalOffset_Unknown;
                                 A.ReadSerializer(s, it.name, o);
                                 cmpArr(A, it, r, 0, it.rows[r], "array"); });
                break;
            case I_PAIR:
                withReadKind(it, [&](auto *t)
                             {
                                 using TA = std::remove_pointer_t<decltype(t)>;
                                 ArrayPair<TA> pr;
                                 DNDS_MAKE_SSP(pr.father, mpi);
                                 DNDS_MAKE_SSP(pr.son, mpi);
                                 pr.ReadSerialize(s, it.name, it.pig);
                                 cmpArr(*pr.father, it, r, 0, it.rows[r], "father");
                                 cmpArr(*pr.son, it, r, 1, it.srows[r], "son");
                                 if (it.pig)
                                 {
                                     if (pr.trans.pLGhostMapping->ghostIndex != it.ghost[r])
                                         sim_fail("archive-mismatch", "%s: ghost list of rank %d differs after read", it.name.c_str(), r);
                                     if (!p->faults)
                                     { // the restored pair communicates
                                         pr.trans.createMPITypes();
                                         pr.trans.pullOnce();
                                         for (size_t i = 0; i < it.ghost[r].size(); i++)
                                         {
                                             MPI_int own = -1;
                                             index loc = -1;
                                             pr.trans.pLGlobalMapping->search(it.ghost[r][i], own, loc);
                                             for (int j = 0; j < it.srows[r][i]; j++)
                                             {
                                                 using T = std::remove_reference_t<decltype((*pr.son)(0, 0))>;
                                                 T v = (*pr.son)(i, j), e = mk<T>(val(it, own, loc, j));
                                                 if (memcmp(&v, &e, sizeof(T)))
                                                     sim_fail("archive-mismatch", "%s: pull on the restored pair gives another value at ghost %zu", it.name.c_str(), i);
                                             }
                                         }
                                     }
                                 } });
                break;
            }
            sim_probe(itName[it.t]);
        }
        // vectors that were one object when written are one object when read
        for (size_t k = 0; k < p->items.size(); k++)
        {
            auto &it = p->items[k];
            if (it.alias < 0)
                continue;
            bool all = true;
            for (int a : it.aliasOn)
                all = all && a;
            if (all && it.t == I_SIVEC && sh[k].iv != sh[it.alias].iv)
                sim_fail("archive-sharing", "%s: a shared vector came back as a copy", it.name.c_str());
            if (all && it.t == I_SRVEC && sh[k].rv != sh[it.alias].rv)
                sim_fail("archive-sharing", "%s: a shared vector came back as a copy", it.name.c_str());
        }
    }
    void rankSer(void *pp, int)
    {
        auto *p = (Plan *)pp;
        bool w = sim_incarnation() == 0, rd = sim_incarnation() == p->inc - 1;
        MPI_Init(nullptr, nullptr);
        auto fac = p->fac;
        if (w)
        {
            if (p->faults)
                sim_expect_abort(1); // reporting the failure is the right answer
            MPIInfo mpi = mkComm(p->commW);
            auto s = fac.BuildSerializer(mpi);
            s->OpenFile(fileName(p, mpi, 0), false);
            std::vector<Shared> sh;
            writeAll(p, mpi, s, sh);
            s->CloseFile();
            p->wroteOk++;
            if (p->reuse && !p->faults)
            {
                s->OpenFile(fileName(p, mpi, 1), false);
                if (!p->keep)
                    sh.clear();
                writeAll(p, mpi, s, sh);
                s->CloseFile();
            }
        }
        if (w && rd)
            MPI_Barrier(MPI_COMM_WORLD); // another process may read what this one wrote
        if (rd)
        {
            bool complete = p->wroteOk == p->nr; // every rank's CloseFile came back
            bool readFault = p->faults && (sim_config()->io_fault_kind >= 4 && sim_config()->io_fault_inc == 1);
            // nothing is promised about an HDF5 archive whose writer reported failure or was killed (no journal); a
            // JSON file is complete or it does not parse
            if (p->faults && p->h5 && !complete)
            {
                sim_probe("writer_reported_failure");
                sim_probe("nontrivial");
                MPI_Finalize();
                return;
            }
            sim_expect_abort(p->faults && (!complete || readFault) ? 1 : 0);
            MPIInfo mpi = mkComm(p->commR);
            auto s = fac.BuildSerializer(mpi);
            s->OpenFile(fileName(p, mpi, 0), true);
            readAll(p, mpi, s);
            s->CloseFile();
            if (p->verifyAgain && !p->faults)
            {
                s->OpenFile(fileName(p, mpi, p->reuse ? 1 : 0), true);
                readAll(p, mpi, s);
                s->CloseFile();
            }
            p->readDone++;
            sim_probe(p->faults ? (complete ? "read_complete" : "read_incomplete_but_equal") : "round_trip");
        }
        sim_probe("nontrivial");
        MPI_Finalize();
    }
    void *planH5() { return planSer(0, 0); }
    void *planJson() { return planSer(1, 0); }
    void *planH5F() { return planSer(0, 1); }
    void *planJsonF() { return planSer(1, 1); }
    const wl_entry table[] = {
        {"h5", planH5, rankSer, nullptr},
        {"json", planJson, rankSer, nullptr},
        {"h5fault", planH5F, rankSer, nullptr},
        {"jsonfault", planJsonF, rankSer, nullptr},
    };
}
extern "C" __attribute__((visibility("default"))) const wl_entry *wl_table(int *n)
{
    *n = sizeof(table) / sizeof(table[0]);
    return table;
}
