// An MPI implementation whose every legal freedom is decided by the simulator.
// One process, all ranks; handles are those of the installed mpi.h.
#include <mpi.h>
#include "core.h"
#include <algorithm>
#include <set>
#include <list>
#include <cstdio>
#include <cstdlib>
#include <complex>
#include <cstdarg>

extern "C" const char *const sim_handle_names[];
extern "C" void *const sim_handle_addrs[];

namespace sim
{
    enum : uint32_t { MG_TYPE = 0x51A70001, MG_COMM, MG_OP, MG_REQ, MG_FILE, MG_INFO, MG_OTHER };
    enum Prim { P_NONE, P_I8, P_U8, P_I16, P_U16, P_I32, P_U32, P_I64, P_U64, P_F, P_D, P_LD, P_BOOL, P_BYTE, P_2INT, P_DINT };
    struct Seg
    {
        ptrdiff_t disp;
        size_t len;
    };
    struct Type
    {
        uint32_t magic = MG_TYPE;
        size_t size = 0;
        size_t align = 0; // strictest alignment of a derived type's elements
        size_t elem = 0; // size of the basic element a derived type consists of
        ptrdiff_t lb = 0, extent = 0;
        std::vector<Seg> segs;
        Prim prim = P_NONE;
        bool committed = false, freed = false, predefined = false;
        int owner = -1;
    };
    struct Handle
    {
        uint32_t magic;
        void *obj;
        int v;
    }; // laid over the storage of predefined handles
    enum OpK { O_SUM, O_PROD, O_MAX, O_MIN, O_LAND, O_LOR, O_BAND, O_BOR, O_LXOR, O_BXOR, O_MAXLOC, O_MINLOC, O_OTHER };
    struct Coll;
    struct Comm
    {
        uint32_t magic = MG_COMM;
        int id = 0;
        std::vector<int> group;         // world rank of each comm rank
        std::vector<uint64_t> collSeq;  // per comm rank
        std::map<uint64_t, std::shared_ptr<Coll>> colls;
        std::map<int, std::map<int, void *>> attrs;
        int freed = 0;
        int rankOf(int world)
        {
            for (size_t i = 0; i < group.size(); i++)
                if (group[i] == world)
                    return i;
            return -1;
        }
    };
    struct Req;
    struct Msg
    {
        int src, dst; // world ranks
        Comm *comm;
        int tag;
        bool eager;
        std::vector<uint8_t> data;
        Req *sreq = nullptr;
        size_t bytes = 0;
        size_t bufferClaim = 0;
        uint64_t no = 0;
    };
    struct Req
    {
        uint32_t magic = MG_REQ;
        enum K { Send, Recv, CollK } kind = Send;
        enum M { Std, Sync, Buf } mode = Std;
        bool persistent = false, active = false, complete = false, freeLater = false;
        void *buf = nullptr;
        int count = 0;
        Type *type = nullptr;
        int peer = 0, tag = 0;
        Comm *comm = nullptr;
        int owner = 0;
        int missed = 0;
        MPI_Status st;
        std::shared_ptr<Coll> coll;
        bool typeOwned = false;
    };
    enum CK { C_BARRIER, C_BCAST, C_ALLREDUCE, C_REDUCE, C_ALLGATHER, C_ALLGATHERV, C_GATHER, C_GATHERV, C_SCATTER, C_SCATTERV, C_ALLTOALL, C_ALLTOALLV, C_SCAN, C_EXSCAN, C_COMM_DUP, C_COMM_SPLIT, C_COMM_FREE, C_FILE_OPEN, C_FILE_SYNCING };
    static const char *ckName[] = {"Barrier", "Bcast", "Allreduce", "Reduce", "Allgather", "Allgatherv", "Gather", "Gatherv", "Scatter", "Scatterv", "Alltoall", "Alltoallv", "Scan", "Exscan", "Comm_dup", "Comm_split", "Comm_free", "File_open", "File_collective"};
    struct Arg
    {
        const void *sbuf = nullptr;
        void *rbuf = nullptr;
        int scount = 0, rcount = 0;
        Type *stype = nullptr, *rtype = nullptr;
        std::vector<int> scounts, sdispls, rcounts, rdispls;
        bool inPlace = false;
        std::vector<uint8_t> data; // packed contribution
        bool snapped = false, arrived = false, done = false, queued = false;
        Req *req = nullptr;
        int color = 0, key = 0;
        void *result = nullptr;
    };
    struct Coll
    {
        CK kind;
        int root = 0;
        OpK op = O_OTHER;
        void *userOp = nullptr;
        Prim prim = P_NONE;
        size_t bytes = 0;
        std::vector<Arg> a;
        int arrived = 0, finished = 0;
        bool sync = false;
        std::vector<uint8_t> red;
        bool redDone = false;
        std::vector<std::vector<uint8_t>> scan;
        void *shared = nullptr;
        std::string what;
    };
    struct RankMpi
    {
        std::list<Req *> posted;
        std::list<Msg *> unexpected;
        void *bsendBuf = nullptr;
        size_t bsendSize = 0, bsendUsed = 0;
        bool inited = false;
        int liveReq = 0;
    };
    static std::vector<RankMpi> R;
    static Comm world;
    static std::vector<Comm *> selfs;
    static std::vector<Comm *> comms;
    static int nextCommId = 2;
    static std::map<std::tuple<int, int, int>, std::deque<Msg *>> channels; // (src,dst,comm) in order
    static uint64_t msgNo = 0;
    static bool handlesReady = false;
    static int nMsgs = 0;

    static Handle *H(const void *p) { return (Handle *)p; }
    static void initHandles()
    {
        if (handlesReady)
            return;
        handlesReady = true;
        for (int i = 0; sim_handle_names[i]; i++)
        {
            std::string n = sim_handle_names[i];
            Handle *h = H(sim_handle_addrs[i]);
            h->magic = MG_OTHER, h->obj = nullptr, h->v = 0;
            auto ty = [&](Prim p, size_t s)
            {
                auto *t = new Type;
                t->size = s, t->extent = s, t->segs = {{0, s}}, t->prim = p, t->committed = t->predefined = true;
                h->magic = MG_TYPE, h->obj = t;
            };
            auto op = [&](OpK k) { h->magic = MG_OP, h->v = k; };
            if (n == "ompi_mpi_byte" || n == "ompi_mpi_packed") ty(P_BYTE, 1);
            else if (n == "ompi_mpi_char" || n == "ompi_mpi_signed_char" || n == "ompi_mpi_int8_t" || n == "ompi_mpi_character") ty(P_I8, 1);
            else if (n == "ompi_mpi_unsigned_char" || n == "ompi_mpi_uint8_t") ty(P_U8, 1);
            else if (n == "ompi_mpi_c_bool" || n == "ompi_mpi_cxx_bool") ty(P_BOOL, 1);
            else if (n == "ompi_mpi_short" || n == "ompi_mpi_int16_t") ty(P_I16, 2);
            else if (n == "ompi_mpi_unsigned_short" || n == "ompi_mpi_uint16_t") ty(P_U16, 2);
            else if (n == "ompi_mpi_int" || n == "ompi_mpi_int32_t" || n == "ompi_mpi_integer") ty(P_I32, 4);
            else if (n == "ompi_mpi_unsigned" || n == "ompi_mpi_uint32_t") ty(P_U32, 4);
            else if (n == "ompi_mpi_long" || n == "ompi_mpi_long_long_int" || n == "ompi_mpi_int64_t" || n == "ompi_mpi_aint" || n == "ompi_mpi_offset" || n == "ompi_mpi_count") ty(P_I64, 8);
            else if (n == "ompi_mpi_unsigned_long" || n == "ompi_mpi_unsigned_long_long" || n == "ompi_mpi_uint64_t") ty(P_U64, 8);
            else if (n == "ompi_mpi_float" || n == "ompi_mpi_real" || n == "ompi_mpi_real4") ty(P_F, 4);
            else if (n == "ompi_mpi_double" || n == "ompi_mpi_dblprec" || n == "ompi_mpi_real8") ty(P_D, 8);
            else if (n == "ompi_mpi_long_double") ty(P_LD, 16);
            else if (n == "ompi_mpi_2int") ty(P_2INT, 8);
            else if (n == "ompi_mpi_double_int") 
            {
                ty(P_DINT, 12);
                ((Type *)h->obj)->extent = 16;
            }
            else if (n == "ompi_mpi_op_sum") op(O_SUM);
            else if (n == "ompi_mpi_op_prod") op(O_PROD);
            else if (n == "ompi_mpi_op_max") op(O_MAX);
            else if (n == "ompi_mpi_op_min") op(O_MIN);
            else if (n == "ompi_mpi_op_land") op(O_LAND);
            else if (n == "ompi_mpi_op_lor") op(O_LOR);
            else if (n == "ompi_mpi_op_lxor") op(O_LXOR);
            else if (n == "ompi_mpi_op_band") op(O_BAND);
            else if (n == "ompi_mpi_op_bor") op(O_BOR);
            else if (n == "ompi_mpi_op_bxor") op(O_BXOR);
            else if (n == "ompi_mpi_op_maxloc") op(O_MAXLOC);
            else if (n == "ompi_mpi_op_minloc") op(O_MINLOC);
        }
    }
    [[noreturn]] static void misuse(const char *fmt, ...)
    {
        char b[1024];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        sim_fail("mpi-misuse", "%s", b);
    }
    static int me()
    {
        int r = sim_rank();
        if (r < 0)
            sim_fail("harness", "MPI call outside of a rank");
        return r;
    }
    static Type *T(MPI_Datatype d)
    {
        if (!d || (void *)d == (void *)MPI_DATATYPE_NULL)
            misuse("null datatype");
        Handle *h = H(d);
        if (h->magic == MG_TYPE && h->obj && ((Type *)d)->magic == MG_TYPE)
        {
            // predefined handles carry {magic,obj}; user types are Type objects (same magic, distinguished below)
        }
        for (int i = 0; sim_handle_names[i]; i++)
            if (sim_handle_addrs[i] == (void *)d)
                return h->obj ? (Type *)h->obj : (misuse("unsupported predefined datatype %s", sim_handle_names[i]), nullptr);
        Type *t = (Type *)d;
        if (t->magic != MG_TYPE)
            misuse("invalid datatype handle");
        if (t->freed)
            misuse("use of a freed datatype");
        return t;
    }
    static Comm *C(MPI_Comm c)
    {
        if ((void *)c == (void *)MPI_COMM_WORLD)
            return &world;
        if ((void *)c == (void *)MPI_COMM_SELF)
            return selfs[me()];
        if (!c || (void *)c == (void *)MPI_COMM_NULL)
            misuse("null communicator");
        Comm *k = (Comm *)c;
        if (k->magic != MG_COMM)
            misuse("invalid communicator");
        return k;
    }
    static OpK OPK(MPI_Op o) { return H(o)->magic == MG_OP ? OpK(H(o)->v) : O_OTHER; }

    // ---------------------------------------------------------------- pack / unpack
    static size_t tbytes(Type *t, long count) { return t->size * size_t(std::max<long>(count, 0)); }
    static void packTo(std::vector<uint8_t> &out, const void *buf, long count, Type *t)
    {
        out.reserve(out.size() + tbytes(t, count));
        for (long i = 0; i < count; i++)
            for (auto &s : t->segs)
            {
                const uint8_t *p = (const uint8_t *)buf + i * t->extent + s.disp;
                out.insert(out.end(), p, p + s.len);
            }
    }
    template <class F>
    static void eachSeg(void *buf, long count, Type *t, size_t limit, F &&f)
    {
        size_t pos = 0;
        for (long i = 0; i < count; i++)
            for (auto &s : t->segs)
            {
                if (pos >= limit)
                    return;
                size_t n = std::min(s.len, limit - pos);
                f((uint8_t *)buf + i * t->extent + s.disp, pos, n);
                pos += n;
            }
    }
    static void unpackFrom(const uint8_t *data, size_t n, void *buf, long count, Type *t)
    {
        eachSeg(buf, count, t, n, [&](uint8_t *p, size_t pos, size_t l) { memcpy(p, data + pos, l); });
    }
    static void poison(void *buf, long count, Type *t, size_t n)
    {
        if (!cfg.poison)
            return;
        eachSeg(buf, count, t, n, [&](uint8_t *p, size_t, size_t l) { memset(p, 0xDB, l); });
    }

    // ---------------------------------------------------------------- point to point
    static void deliver(Msg *m);
    static void completeReq(Req *q)
    {
        q->complete = true;
        if (q->freeLater)
        {
            q->magic = 0;
            R[q->owner].liveReq--;
            delete q;
        }
    }
    static void transfer(Msg *m, Req *rq)
    {
        size_t cap = tbytes(rq->type, rq->count);
        if (m->bytes > cap)
            misuse("message truncated: %zu bytes from rank %d tag %d arrive in a %zu byte receive on rank %d", m->bytes, m->src, m->tag, cap, m->dst);
        if (m->eager)
            unpackFrom(m->data.data(), m->bytes, rq->buf, rq->count, rq->type);
        else
        {
            std::vector<uint8_t> d;
            packTo(d, m->sreq->buf, m->sreq->count, m->sreq->type);
            unpackFrom(d.data(), m->bytes, rq->buf, rq->count, rq->type);
            Req *sq = m->sreq;
            add_action("send-complete", [sq]() { completeReq(sq); });
        }
        if (m->bufferClaim)
            R[m->src].bsendUsed -= m->bufferClaim;
        rq->st.MPI_SOURCE = m->comm->rankOf(m->src);
        rq->st.MPI_TAG = m->tag;
        rq->st.MPI_ERROR = MPI_SUCCESS;
        rq->st._ucount = m->bytes;
        note("transfer %d->%d tag %d %zu bytes", m->src, m->dst, m->tag, m->bytes);
        nMsgs--;
        delete m;
        completeReq(rq);
    }
    static void matched(Msg *m, Req *rq)
    {
        size_t cap = tbytes(rq->type, rq->count);
        poison(rq->buf, rq->count, rq->type, std::min(cap, m->bytes));
        add_action("transfer", [m, rq]() { transfer(m, rq); });
    }
    static bool matches(Msg *m, Req *rq)
    {
        return rq->comm == m->comm && (rq->tag == MPI_ANY_TAG || rq->tag == m->tag) &&
               (rq->peer == MPI_ANY_SOURCE || rq->comm->group[rq->peer] == m->src);
    }
    static void deliver(Msg *m)
    {
        auto &r = R[m->dst];
        for (auto it = r.posted.begin(); it != r.posted.end(); ++it)
            if (matches(m, *it))
            {
                Req *q = *it;
                r.posted.erase(it);
                sim_probe("msg_expected");
                matched(m, q);
                return;
            }
        sim_probe("msg_unexpected");
        r.unexpected.push_back(m);
    }
    static void startSend(Req *q)
    {
        q->active = true, q->complete = false;
        if (q->peer == MPI_PROC_NULL)
        {
            q->complete = true;
            return;
        }
        auto *m = new Msg;
        m->src = q->owner, m->dst = q->comm->group.at(q->peer), m->comm = q->comm, m->tag = q->tag, m->bytes = tbytes(q->type, q->count), m->no = ++msgNo;
        m->sreq = q;
        nMsgs++;
        bool eager = false;
        if (q->mode == Req::Buf)
        {
            eager = true;
            auto &r = R[q->owner];
            m->bufferClaim = m->bytes + MPI_BSEND_OVERHEAD;
            if (r.bsendUsed + m->bufferClaim > r.bsendSize)
                misuse("buffered send of %zu bytes exceeds the attached buffer (%zu of %zu in use)", m->bytes, r.bsendUsed, r.bsendSize);
            r.bsendUsed += m->bufferClaim;
        }
        else if (q->mode == Req::Std)
            switch (cfg.eager_mode)
            {
            case 0: eager = true; break;
            case 1: eager = false; break;
            case 2: eager = sim_choose(CH_NET, 2) == 0; break;
            case 3: eager = m->bytes <= size_t(cfg.eager_limit); break;
            }
        m->eager = eager;
        sim_probe(eager ? "send_eager" : "send_rendezvous");
        if (eager)
        {
            packTo(m->data, q->buf, q->count, q->type);
            m->sreq = nullptr;
            if (chance(CH_NET, cfg.late_coll))
                add_action("send-complete", [q]() { completeReq(q); });
            else
                q->complete = true;
        }
        note("send %d->%d tag %d %zu bytes %s", m->src, m->dst, m->tag, m->bytes, eager ? "eager" : "rendezvous");
        auto key = std::make_tuple(m->src, m->dst, m->comm->id);
        channels[key].push_back(m);
        // the envelope overtakes nothing on its own channel, anything on the others
        add_action("envelope", [key]()
                   {
                       auto &c = channels[key];
                       Msg *h = c.front();
                       c.pop_front();
                       deliver(h); });
    }
    static void startRecv(Req *q)
    {
        q->active = true, q->complete = false;
        memset(&q->st, 0, sizeof q->st);
        if (q->peer == MPI_PROC_NULL)
        {
            q->complete = true;
            return;
        }
        auto &r = R[q->owner];
        for (auto it = r.unexpected.begin(); it != r.unexpected.end(); ++it)
            if (matches(*it, q))
            {
                Msg *m = *it;
                r.unexpected.erase(it);
                matched(m, q);
                return;
            }
        r.posted.push_back(q);
    }
    static Req *mkReq(Req::K k, Req::M m, const void *buf, int count, MPI_Datatype t, int peer, int tag, MPI_Comm c, bool persistent)
    {
        auto *q = new Req;
        q->kind = k, q->mode = m, q->buf = const_cast<void *>(buf), q->count = count, q->type = T(t), q->peer = peer, q->tag = tag, q->comm = C(c), q->owner = me(), q->persistent = persistent;
        if (count < 0)
            misuse("negative count %d", count);
        if (!q->type->committed)
            misuse("uncommitted datatype in communication");
        // a datatype may be freed while communication uses it: keep a private copy of its map
        if (!q->type->predefined)
            q->type = new Type(*q->type), q->typeOwned = true;
        if (k == Req::Send && tag < 0)
            misuse("negative tag %d", tag);
        if (peer != MPI_PROC_NULL && peer != MPI_ANY_SOURCE && (peer < 0 || peer >= int(q->comm->group.size())))
            misuse("peer rank %d out of range", peer);
        R[q->owner].liveReq++;
        return q;
    }
    static Req *RQ(MPI_Request r)
    {
        Req *q = (Req *)r;
        if (q->magic != MG_REQ)
            misuse("invalid or freed request handle");
        return q;
    }
    static bool isNull(MPI_Request r) { return (void *)r == (void *)MPI_REQUEST_NULL; }
    static void startReq(Req *q)
    {
        if (q->active)
            misuse("start of a request that is already active (rank %d, peer %d, tag %d)", q->owner, q->peer, q->tag);
        q->kind == Req::Send ? startSend(q) : startRecv(q);
    }
    static void freeReq(Req *q)
    {
        R[q->owner].liveReq--;
        q->magic = 0;
        delete q;
    }
    static void retire(MPI_Request *r, MPI_Status *st)
    {
        if (isNull(*r))
        {
            if (st && st != MPI_STATUS_IGNORE)
                memset(st, 0, sizeof *st), st->MPI_SOURCE = MPI_ANY_SOURCE, st->MPI_TAG = MPI_ANY_TAG;
            return;
        }
        Req *q = RQ(*r);
        if (st && st != MPI_STATUS_IGNORE)
        {
            *st = q->st;
        }
        q->active = false;
        q->missed = 0;
        if (!q->persistent)
        {
            freeReq(q);
            *r = MPI_REQUEST_NULL;
        }
    }
    static bool reqDone(MPI_Request r)
    {
        if (isNull(r))
            return true;
        Req *q = RQ(r);
        return !q->active || q->complete;
    }

    // ---------------------------------------------------------------- collectives
    template <class X>
    static void redT(OpK op, X *acc, const X *v, size_t n)
    {
        for (size_t i = 0; i < n; i++)
            switch (op)
            {
            case O_SUM: acc[i] = acc[i] + v[i]; break;
            case O_PROD: acc[i] = acc[i] * v[i]; break;
            case O_MAX: acc[i] = v[i] > acc[i] ? v[i] : acc[i]; break;
            case O_MIN: acc[i] = v[i] < acc[i] ? v[i] : acc[i]; break;
            case O_LAND: acc[i] = (acc[i] && v[i]); break;
            case O_LOR: acc[i] = (acc[i] || v[i]); break;
            case O_LXOR: acc[i] = (!acc[i] != !v[i]); break;
            default: misuse("unsupported reduction");
            }
    }
    template <class X>
    static void redI(OpK op, X *acc, const X *v, size_t n)
    {
        if (op == O_BAND || op == O_BOR || op == O_BXOR)
            for (size_t i = 0; i < n; i++)
                acc[i] = op == O_BAND ? acc[i] & v[i] : op == O_BOR ? acc[i] | v[i] : acc[i] ^ v[i];
        else
            redT(op, acc, v, n);
    }
    // value and index pairs; the lower index wins among equal values
    template <class X>
    static void locT(OpK op, std::vector<uint8_t> &acc, const std::vector<uint8_t> &v, size_t sx)
    {
        if (op != O_MINLOC && op != O_MAXLOC)
            misuse("unsupported reduction of pairs");
        for (size_t i = 0; i + sx + 4 <= acc.size(); i += sx + 4)
        {
            X a, b;
            int ia, ib;
            memcpy(&a, &acc[i], sx), memcpy(&b, &v[i], sx);
            memcpy(&ia, &acc[i + sx], 4), memcpy(&ib, &v[i + sx], 4);
            bool take = op == O_MINLOC ? b < a : b > a;
            if (take || b == a && ib < ia)
                memcpy(&acc[i], &v[i], sx + 4);
        }
    }
    static void reduceInto(OpK op, Prim p, std::vector<uint8_t> &acc, const std::vector<uint8_t> &v)
    {
        size_t b = acc.size();
        if (v.size() != b)
            misuse("reduction with different lengths on different ranks (%zu and %zu bytes)", b, v.size());
        switch (p)
        {
        case P_I8: redI(op, (int8_t *)acc.data(), (const int8_t *)v.data(), b); break;
        case P_U8: case P_BYTE: redI(op, acc.data(), v.data(), b); break;
        case P_BOOL: redI(op, (uint8_t *)acc.data(), (const uint8_t *)v.data(), b); break;
        case P_I16: redI(op, (int16_t *)acc.data(), (const int16_t *)v.data(), b / 2); break;
        case P_U16: redI(op, (uint16_t *)acc.data(), (const uint16_t *)v.data(), b / 2); break;
        case P_I32: redI(op, (int32_t *)acc.data(), (const int32_t *)v.data(), b / 4); break;
        case P_U32: redI(op, (uint32_t *)acc.data(), (const uint32_t *)v.data(), b / 4); break;
        case P_I64: redI(op, (int64_t *)acc.data(), (const int64_t *)v.data(), b / 8); break;
        case P_U64: redI(op, (uint64_t *)acc.data(), (const uint64_t *)v.data(), b / 8); break;
        case P_F: redT(op, (float *)acc.data(), (const float *)v.data(), b / 4); break;
        case P_D: redT(op, (double *)acc.data(), (const double *)v.data(), b / 8); break;
        case P_2INT: locT<int>(op, acc, v, 4); break;
        case P_DINT: locT<double>(op, acc, v, 8); break;
        default: misuse("reduction on an unsupported datatype");
        }
    }
    static void snap(Coll &c, Comm *cm, int r)
    {
        Arg &a = c.a[r];
        if (a.snapped)
            return;
        a.snapped = true;
        switch (c.kind)
        {
        case C_BCAST:
            if (r == c.root)
                packTo(a.data, a.rbuf, a.rcount, a.rtype);
            break;
        case C_ALLREDUCE: case C_REDUCE: case C_SCAN: case C_EXSCAN:
            packTo(a.data, a.inPlace ? a.rbuf : a.sbuf, a.scount, a.stype);
            break;
        case C_ALLGATHER: case C_GATHER: case C_ALLGATHERV: case C_GATHERV:
            if (a.inPlace)
            {
                if (c.kind == C_ALLGATHER || c.kind == C_GATHER)
                    packTo(a.data, (const char *)a.rbuf + long(r) * a.rcount * a.rtype->extent, a.rcount, a.rtype);
                else
                    packTo(a.data, (const char *)a.rbuf + long(a.rdispls[r]) * a.rtype->extent, a.rcounts[r], a.rtype);
            }
            else
                packTo(a.data, a.sbuf, a.scount, a.stype);
            break;
        case C_SCATTER:
            if (r == c.root)
                packTo(a.data, a.sbuf, long(a.scount) * cm->group.size(), a.stype);
            break;
        case C_ALLTOALL:
            if (a.inPlace)
                misuse("in-place alltoall unsupported");
            packTo(a.data, a.sbuf, long(a.scount) * cm->group.size(), a.stype);
            break;
        case C_ALLTOALLV:
            for (size_t d = 0; d < cm->group.size(); d++)
                packTo(a.data, (const char *)a.sbuf + long(a.sdispls[d]) * a.stype->extent, a.scounts[d], a.stype);
            break;
        case C_SCATTERV:
            if (r == c.root)
                for (size_t d = 0; d < cm->group.size(); d++)
                    packTo(a.data, (const char *)a.sbuf + long(a.sdispls[d]) * a.stype->extent, a.scounts[d], a.stype);
            break;
        default:
            break;
        }
    }
    static bool canFinish(Coll &c, int r)
    {
        int n = c.a.size();
        if (!c.a[r].arrived)
            return false;
        if (c.arrived == n)
            return true;
        if (c.sync)
            return false;
        switch (c.kind)
        {
        case C_BCAST: case C_SCATTER: case C_SCATTERV:
            return r == c.root || c.a[c.root].arrived;
        case C_REDUCE: case C_GATHER: case C_GATHERV:
            return r != c.root;
        case C_SCAN: case C_EXSCAN:
            for (int i = 0; i < r; i++)
                if (!c.a[i].arrived)
                    return false;
            return true;
        default:
            return false;
        }
    }
    static void finishRank(std::shared_ptr<Coll> cp, Comm *cm, int r)
    {
        Coll &c = *cp;
        Arg &a = c.a[r];
        int n = c.a.size();
        snap(c, cm, r); // from here on the rank may change its buffer
        auto need = [&](size_t want, size_t have, int from)
        {
            if (want != have)
                misuse("%s: rank %d expects %zu bytes from rank %d which sends %zu", ckName[c.kind], r, want, from, have);
        };
        switch (c.kind)
        {
        case C_BCAST:
            if (r != c.root)
            {
                snap(c, cm, c.root);
                need(tbytes(a.rtype, a.rcount), c.a[c.root].data.size(), c.root);
                unpackFrom(c.a[c.root].data.data(), c.a[c.root].data.size(), a.rbuf, a.rcount, a.rtype);
            }
            break;
        case C_ALLREDUCE: case C_REDUCE:
            if (c.kind == C_REDUCE && r != c.root)
                break;
            if (!c.redDone)
            {
                for (int i = 0; i < n; i++)
                    snap(c, cm, i);
                // any combination order is legal; all ranks see the same one
                std::vector<int> ord(n);
                for (int i = 0; i < n; i++)
                    ord[i] = i;
                if (c.prim == P_D || c.prim == P_F)
                    for (int i = n - 1; i > 0; i--)
                        std::swap(ord[i], ord[i - int(sim_choose(CH_NET, i + 1))]);
                c.red = c.a[ord[0]].data;
                for (int i = 1; i < n; i++)
                    reduceInto(c.op, c.prim, c.red, c.a[ord[i]].data);
                c.redDone = true;
            }
            unpackFrom(c.red.data(), c.red.size(), a.rbuf, a.rcount, a.rtype);
            break;
        case C_SCAN: case C_EXSCAN:
        {
            std::vector<uint8_t> acc;
            int hi = c.kind == C_SCAN ? r : r - 1;
            for (int i = 0; i <= hi; i++)
            {
                snap(c, cm, i);
                if (i == 0)
                    acc = c.a[0].data;
                else
                    reduceInto(c.op, c.prim, acc, c.a[i].data);
            }
            if (hi >= 0)
                unpackFrom(acc.data(), acc.size(), a.rbuf, a.rcount, a.rtype);
            break;
        }
        case C_ALLGATHER: case C_GATHER:
            if (c.kind == C_GATHER && r != c.root)
                break;
            for (int i = 0; i < n; i++)
            {
                snap(c, cm, i);
                need(tbytes(a.rtype, a.rcount), c.a[i].data.size(), i);
                unpackFrom(c.a[i].data.data(), c.a[i].data.size(), (char *)a.rbuf + long(i) * a.rcount * a.rtype->extent, a.rcount, a.rtype);
            }
            break;
        case C_ALLGATHERV: case C_GATHERV:
            if (c.kind == C_GATHERV && r != c.root)
                break;
            for (int i = 0; i < n; i++)
            {
                snap(c, cm, i);
                need(tbytes(a.rtype, a.rcounts[i]), c.a[i].data.size(), i);
                unpackFrom(c.a[i].data.data(), c.a[i].data.size(), (char *)a.rbuf + long(a.rdispls[i]) * a.rtype->extent, a.rcounts[i], a.rtype);
            }
            break;
        case C_SCATTER:
        {
            snap(c, cm, c.root);
            auto &d = c.a[c.root].data;
            size_t per = d.size() / n;
            if (r == c.root && a.inPlace)
                break;
            need(tbytes(a.rtype, a.rcount), per, c.root);
            unpackFrom(d.data() + per * r, per, a.rbuf, a.rcount, a.rtype);
            break;
        }
        case C_SCATTERV:
        {
            snap(c, cm, c.root);
            Arg &ra = c.a[c.root];
            size_t off = 0;
            for (int i = 0; i < r; i++)
                off += tbytes(ra.stype, ra.scounts[i]);
            if (r == c.root && a.inPlace)
                break;
            need(tbytes(a.rtype, a.rcount), tbytes(ra.stype, ra.scounts[r]), c.root);
            unpackFrom(ra.data.data() + off, tbytes(a.rtype, a.rcount), a.rbuf, a.rcount, a.rtype);
            break;
        }
        case C_ALLTOALL:
            for (int i = 0; i < n; i++)
            {
                snap(c, cm, i);
                size_t per = tbytes(c.a[i].stype, c.a[i].scount);
                need(tbytes(a.rtype, a.rcount), per, i);
                unpackFrom(c.a[i].data.data() + per * r, per, (char *)a.rbuf + long(i) * a.rcount * a.rtype->extent, a.rcount, a.rtype);
            }
            break;
        case C_ALLTOALLV:
            for (int i = 0; i < n; i++)
            {
                snap(c, cm, i);
                size_t off = 0;
                for (int d = 0; d < r; d++)
                    off += tbytes(c.a[i].stype, c.a[i].scounts[d]);
                size_t per = tbytes(c.a[i].stype, c.a[i].scounts[r]);
                need(tbytes(a.rtype, a.rcounts[i]), per, i);
                unpackFrom(c.a[i].data.data() + off, per, (char *)a.rbuf + long(a.rdispls[i]) * a.rtype->extent, a.rcounts[i], a.rtype);
            }
            break;
        default:
            break;
        }
        a.done = true;
        c.finished++;
        if (a.req)
        {
            memset(&a.req->st, 0, sizeof a.req->st);
            completeReq(a.req);
        }
    }
    static void pump(std::shared_ptr<Coll> c, Comm *cm)
    {
        for (size_t r = 0; r < c->a.size(); r++)
            if (!c->a[r].queued && canFinish(*c, r))
            {
                c->a[r].queued = true;
                int rr = r;
                add_action("coll-finish", [c, cm, rr]() { finishRank(c, cm, rr); });
            }
    }
    // join the next collective on cm; `fill` sets the caller's arguments
    static std::shared_ptr<Coll> join(Comm *cm, CK kind, int root, std::function<void(Coll &, Arg &)> fill, Req *req, bool nonblocking, const char *what = "")
    {
        int r = cm->rankOf(me());
        if (r < 0)
            misuse("%s on a communicator the rank is not part of", ckName[kind]);
        uint64_t seq = cm->collSeq[r]++;
        auto &slot = cm->colls[seq];
        if (!slot)
        {
            slot = std::make_shared<Coll>();
            slot->kind = kind, slot->root = root;
            slot->a.resize(cm->group.size());
            slot->what = what;
            slot->sync = cfg.sync_coll;
        }
        auto c = slot;
        if (c->kind != kind || c->what != what)
            misuse("collective mismatch: rank %d calls %s%s while others are in %s%s", me(), ckName[kind], what, ckName[c->kind], c->what.c_str());
        if (c->root != root)
            misuse("%s with different roots (%d, %d)", ckName[kind], root, c->root);
        Arg &a = c->a[r];
        a.req = req;
        fill(*c, a);
        a.arrived = true;
        c->arrived++;
        sim_probe("collectives");
        note("%s #%llu on comm %d", ckName[kind], (unsigned long long)seq, cm->id);
        if (!nonblocking || !chance(CH_NET, cfg.late_coll))
            snap(*c, cm, r);
        if (c->arrived == int(c->a.size()))
            cm->colls.erase(seq);
        pump(c, cm);
        return c;
    }
    static void runColl(Comm *cm, CK kind, int root, std::function<void(Coll &, Arg &)> fill, const char *what = "")
    {
        sched_point();
        int r = cm->rankOf(me());
        auto c = join(cm, kind, root, fill, nullptr, false, what);
        block_until(ckName[kind], [c, r]() { return c->a[r].done; });
    }
    static int runIColl(Comm *cm, CK kind, int root, std::function<void(Coll &, Arg &)> fill, MPI_Request *out)
    {
        sched_point();
        auto *q = new Req;
        q->kind = Req::CollK, q->owner = me(), q->comm = cm, q->active = true;
        R[q->owner].liveReq++;
        *out = (MPI_Request)q;
        q->coll = join(cm, kind, root, fill, q, true);
        return MPI_SUCCESS;
    }
    static void setRed(Coll &c, Arg &a, const void *s, void *r, int n, MPI_Datatype t, MPI_Op op)
    {
        Type *ty = T(t);
        a.inPlace = s == MPI_IN_PLACE;
        a.sbuf = s, a.rbuf = r, a.scount = a.rcount = n, a.stype = a.rtype = ty;
        if (c.arrived == 0)
            c.op = OPK(op), c.prim = ty->prim, c.bytes = tbytes(ty, n);
        if (c.op != OPK(op))
            misuse("reduction with different operations on different ranks");
        if (c.prim != ty->prim)
            misuse("reduction with different datatypes on different ranks");
        if (c.bytes != tbytes(ty, n))
            misuse("reduction with different lengths on different ranks (%zu and %zu bytes)", c.bytes, tbytes(ty, n));
        if (!a.inPlace && s == r && n > 0)
            misuse("send and receive buffers of a reduction are aliased");
    }

    std::string mpi_state_dump()
    {
        std::string s;
        for (size_t r = 0; r < R.size(); r++)
        {
            for (auto *q : R[r].posted)
                s += " recv(" + std::to_string(r) + "<-" + std::to_string(q->peer) + " tag " + std::to_string(q->tag) + ")";
            for (auto *m : R[r].unexpected)
                s += " unmatched(" + std::to_string(m->src) + "->" + std::to_string(r) + " tag " + std::to_string(m->tag) + " " + std::to_string(m->bytes) + "B)";
            if (s.size() > 1200)
                break;
        }
        for (auto *c : comms)
            for (auto &p : c->colls)
            {
                s += std::string(" ") + ckName[p.second->kind] + "(arrived";
                for (size_t i = 0; i < p.second->a.size(); i++)
                    if (p.second->a[i].arrived)
                        s += " " + std::to_string(c->group[i]);
                s += ")";
                if (s.size() > 1600)
                    break;
            }
        return s;
    }
    void files_reset();
    void mpi_reset(int n)
    {
        initHandles();
        R.assign(n, RankMpi());
        world.id = 0;
        world.group.resize(n);
        world.collSeq.assign(n, 0);
        for (int i = 0; i < n; i++)
            world.group[i] = i;
        comms.push_back(&world);
        for (int i = 0; i < n; i++)
        {
            auto *c = new Comm;
            c->id = 100000 + i;
            c->group = {i};
            c->collSeq = {0};
            selfs.push_back(c);
            comms.push_back(c);
        }
        files_reset();
    }
    void mpi_new_job(int n)
    {
        // the file store stays, everything else of the old processes is gone
        comms.clear(), selfs.clear(), channels.clear();
        nMsgs = 0;
        world.colls.clear();
        mpi_reset(n);
    }
    static bool allowStray = false;
    void mpi_end_check()
    {
        if (nMsgs && !allowStray)
            sim_fail("stray-message", "%d message(s) were sent and never received:%s", nMsgs, mpi_state_dump().c_str());
        for (auto *c : comms)
            for (auto &p : c->colls)
                if (p.second->arrived < int(p.second->a.size()))
                    sim_fail("unfinished-collective", "a collective was not joined by all ranks:%s", mpi_state_dump().c_str());
        for (size_t r = 0; r < R.size(); r++)
            if (!R[r].posted.empty())
                sim_fail("stray-receive", "a posted receive was never matched:%s", mpi_state_dump().c_str());
    }
}
using namespace sim;
extern "C" void sim_allow_stray(int on) { allowStray = on; }

#define API extern "C" int
// ------------------------------------------------------------------ environment
API MPI_Init(int *, char ***) { R[me()].inited = true; return MPI_SUCCESS; }
API MPI_Init_thread(int *, char ***, int req, int *prov) { R[me()].inited = true; *prov = req; return MPI_SUCCESS; }
API MPI_Initialized(int *f) { *f = sim_rank() >= 0 ? R[me()].inited : 0; return MPI_SUCCESS; }
API MPI_Finalized(int *f) { *f = 0; return MPI_SUCCESS; }
API MPI_Finalize(void) { return MPI_SUCCESS; }
API MPI_Query_thread(int *p) { *p = MPI_THREAD_MULTIPLE; return MPI_SUCCESS; }
API MPI_Abort(MPI_Comm, int code) { fprintf(stderr, "MPI_Abort(%d)\n", code); fflush(stderr); abort(); }
API MPI_Get_processor_name(char *n, int *l) { strcpy(n, "sim"); *l = 3; return MPI_SUCCESS; }
extern "C" double MPI_Wtime(void) { return rank_clock(sim_rank()) * 1e-9 - 1.7e9; }
extern "C" double MPI_Wtick(void) { return 1e-9; }
API MPI_Error_string(int e, char *s, int *l) { *l = snprintf(s, 256, "simulated MPI error %d", e); return MPI_SUCCESS; }
API MPI_Error_class(int e, int *c) { *c = e; return MPI_SUCCESS; }
API MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return MPI_SUCCESS; }
API MPI_Get_version(int *a, int *b) { *a = 3, *b = 1; return MPI_SUCCESS; }
// ------------------------------------------------------------------ communicators
API MPI_Comm_rank(MPI_Comm c, int *r) { *r = C(c)->rankOf(me()); return MPI_SUCCESS; }
API MPI_Comm_size(MPI_Comm c, int *n) { *n = C(c)->group.size(); return MPI_SUCCESS; }
API MPI_Comm_dup(MPI_Comm c, MPI_Comm *o)
{
    Comm *cm = C(c);
    int r = cm->rankOf(me());
    runColl(cm, C_COMM_DUP, 0, [&](Coll &k, Arg &a)
            {
                if (!k.shared)
                {
                    auto *n = new Comm;
                    n->id = nextCommId++;
                    n->group = cm->group;
                    n->collSeq.assign(cm->group.size(), 0);
                    comms.push_back(n);
                    k.shared = n;
                }
                a.result = k.shared; *o = (MPI_Comm)k.shared; });
    (void)r;
    return MPI_SUCCESS;
}
API MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o)
{
    Comm *cm = C(c);
    int r = cm->rankOf(me());
    sched_point();
    auto k = join(cm, C_COMM_SPLIT, 0, [&](Coll &, Arg &a) { a.color = color, a.key = key; }, nullptr, false);
    block_until("Comm_split", [k, r]() { return k->a[r].done; });
    auto &a = k->a[r];
    if (!a.result && color != MPI_UNDEFINED)
    {
        std::vector<std::pair<int, int>> m;
        for (size_t i = 0; i < k->a.size(); i++)
            if (k->a[i].color == color)
                m.emplace_back(k->a[i].key, i);
        std::sort(m.begin(), m.end());
        auto *n = new Comm;
        n->id = nextCommId++;
        for (auto &p : m)
            n->group.push_back(cm->group[p.second]);
        n->collSeq.assign(n->group.size(), 0);
        comms.push_back(n);
        for (auto &p : m)
            k->a[p.second].result = n;
    }
    *o = a.result ? (MPI_Comm)a.result : MPI_COMM_NULL;
    return MPI_SUCCESS;
}
API MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm *o) { return MPI_Comm_split(c, 0, key, o); }
API MPI_Comm_free(MPI_Comm *c)
{
    Comm *cm = C(*c);
    if (cm == &world)
        misuse("freeing the world communicator");
    cm->freed++;
    *c = MPI_COMM_NULL;
    return MPI_SUCCESS;
}
API MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r)
{
    Comm *x = C(a), *y = C(b);
    *r = x == y ? MPI_IDENT : x->group == y->group ? MPI_CONGRUENT : MPI_UNEQUAL;
    return MPI_SUCCESS;
}
API MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *, MPI_Comm_delete_attr_function *, int *k, void *) { static int n = 100; *k = n++; return MPI_SUCCESS; }
API MPI_Comm_free_keyval(int *k) { *k = MPI_KEYVAL_INVALID; return MPI_SUCCESS; }
API MPI_Comm_set_attr(MPI_Comm c, int k, void *v) { C(c)->attrs[me()][k] = v; return MPI_SUCCESS; }
API MPI_Comm_get_attr(MPI_Comm c, int k, void *v, int *f)
{
    auto &m = C(c)->attrs[me()];
    *f = m.count(k);
    if (*f)
        *(void **)v = m[k];
    return MPI_SUCCESS;
}
API MPI_Comm_delete_attr(MPI_Comm c, int k) { C(c)->attrs[me()].erase(k); return MPI_SUCCESS; }
API MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }
API MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler *e) { *e = MPI_ERRORS_ARE_FATAL; return MPI_SUCCESS; }
API MPI_Errhandler_free(MPI_Errhandler *) { return MPI_SUCCESS; }
extern "C" int OMPI_C_MPI_COMM_NULL_COPY_FN(MPI_Comm, int, void *, void *, void *, int *flag) { *flag = 0; return MPI_SUCCESS; }
extern "C" int OMPI_C_MPI_COMM_NULL_DELETE_FN(MPI_Comm, int, void *, void *) { return MPI_SUCCESS; }
extern "C" int OMPI_C_MPI_COMM_DUP_FN(MPI_Comm, int, void *, void *in, void *out, int *flag) { *(void **)out = in; *flag = 1; return MPI_SUCCESS; }
// ------------------------------------------------------------------ info
struct Info { uint32_t magic = MG_INFO; std::vector<std::pair<std::string, std::string>> kv; };
API MPI_Info_create(MPI_Info *i) { *i = (MPI_Info) new Info; return MPI_SUCCESS; }
API MPI_Info_set(MPI_Info i, const char *k, const char *v)
{
    auto *p = (Info *)i;
    for (auto &e : p->kv)
        if (e.first == k) { e.second = v; return MPI_SUCCESS; }
    p->kv.emplace_back(k, v);
    return MPI_SUCCESS;
}
API MPI_Info_dup(MPI_Info i, MPI_Info *o) { *o = (MPI_Info)(i == MPI_INFO_NULL ? new Info : new Info(*(Info *)i)); return MPI_SUCCESS; }
API MPI_Info_free(MPI_Info *i) { if (*i != MPI_INFO_NULL) delete (Info *)*i; *i = MPI_INFO_NULL; return MPI_SUCCESS; }
API MPI_Info_get_nkeys(MPI_Info i, int *n) { *n = i == MPI_INFO_NULL ? 0 : ((Info *)i)->kv.size(); return MPI_SUCCESS; }
API MPI_Info_get_nthkey(MPI_Info i, int n, char *k) { strcpy(k, ((Info *)i)->kv.at(n).first.c_str()); return MPI_SUCCESS; }
API MPI_Info_get(MPI_Info i, const char *k, int len, char *v, int *f)
{
    *f = 0;
    if (i != MPI_INFO_NULL)
        for (auto &e : ((Info *)i)->kv)
            if (e.first == k) { *f = 1; strncpy(v, e.second.c_str(), len); v[std::min<int>(len, e.second.size())] = 0; }
    return MPI_SUCCESS;
}
// ------------------------------------------------------------------ datatypes
namespace sim
{
    static void coalesce(Type *t)
    {
        std::vector<Seg> o;
        for (auto &s : t->segs)
        {
            if (!s.len)
                continue;
            if (!o.empty() && o.back().disp + ptrdiff_t(o.back().len) == s.disp)
                o.back().len += s.len;
            else
                o.push_back(s);
        }
        t->segs.swap(o);
    }
    static Type *build(const std::vector<std::tuple<long, ptrdiff_t, Type *>> &blocks)
    {
        auto *t = new Type;
        t->owner = sim_rank();
        bool first = true;
        ptrdiff_t lo = 0, hi = 0;
        for (auto &[n, disp, old] : blocks)
        {
            if (n < 0)
                misuse("negative block length in a datatype");
            if (!t->elem)
                t->elem = old->elem ? old->elem : old->size;
            if (n)
                t->align = std::max(t->align, old->align ? old->align : std::min<size_t>(old->size, 16));
            for (long i = 0; i < n; i++)
            {
                ptrdiff_t b = disp + i * old->extent;
                for (auto &s : old->segs)
                    t->segs.push_back({b + s.disp, s.len});
                ptrdiff_t l = b + old->lb, h = l + old->extent;
                if (first)
                    lo = l, hi = h, first = false;
                lo = std::min(lo, l), hi = std::max(hi, h);
                t->size += old->size;
            }
        }
        if (t->align > 1 && (hi - lo) % ptrdiff_t(t->align)) // padded like a C struct
            hi += t->align - (hi - lo) % t->align;
        t->lb = lo, t->extent = hi - lo;
        coalesce(t);
        return t;
    }
}
API MPI_Type_commit(MPI_Datatype *t) { T(*t)->committed = true; return MPI_SUCCESS; }
API MPI_Type_free(MPI_Datatype *t)
{
    Type *p = T(*t);
    if (p->predefined)
        misuse("freeing a predefined datatype");
    p->freed = true;
    p->segs.clear();
    *t = MPI_DATATYPE_NULL;
    return MPI_SUCCESS;
}
API MPI_Type_dup(MPI_Datatype o, MPI_Datatype *t) { auto *n = new Type(*T(o)); n->predefined = false; *t = (MPI_Datatype)n; return MPI_SUCCESS; }
API MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype *t) { *t = (MPI_Datatype)build({{n, 0, T(o)}}); return MPI_SUCCESS; }
API MPI_Type_vector(int n, int bl, int st, MPI_Datatype o, MPI_Datatype *t)
{
    std::vector<std::tuple<long, ptrdiff_t, Type *>> b;
    Type *ot = T(o);
    for (int i = 0; i < n; i++)
        b.emplace_back(bl, ptrdiff_t(i) * st * ot->extent, ot);
    *t = (MPI_Datatype)build(b);
    return MPI_SUCCESS;
}
API MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype o, MPI_Datatype *t)
{
    std::vector<std::tuple<long, ptrdiff_t, Type *>> b;
    for (int i = 0; i < n; i++)
        b.emplace_back(bl, ptrdiff_t(i) * st, T(o));
    *t = (MPI_Datatype)build(b);
    return MPI_SUCCESS;
}
API MPI_Type_create_hindexed(int n, const int *bl, const MPI_Aint *d, MPI_Datatype o, MPI_Datatype *t)
{
    std::vector<std::tuple<long, ptrdiff_t, Type *>> b;
    for (int i = 0; i < n; i++)
        b.emplace_back(bl[i], d[i], T(o));
    *t = (MPI_Datatype)build(b);
    return MPI_SUCCESS;
}
API MPI_Type_create_hindexed_block(int n, int bl, const MPI_Aint *d, MPI_Datatype o, MPI_Datatype *t)
{
    std::vector<std::tuple<long, ptrdiff_t, Type *>> b;
    for (int i = 0; i < n; i++)
        b.emplace_back(bl, d[i], T(o));
    *t = (MPI_Datatype)build(b);
    return MPI_SUCCESS;
}
API MPI_Type_indexed(int n, const int *bl, const int *d, MPI_Datatype o, MPI_Datatype *t)
{
    std::vector<std::tuple<long, ptrdiff_t, Type *>> b;
    for (int i = 0; i < n; i++)
        b.emplace_back(bl[i], ptrdiff_t(d[i]) * T(o)->extent, T(o));
    *t = (MPI_Datatype)build(b);
    return MPI_SUCCESS;
}
API MPI_Type_create_struct(int n, const int *bl, const MPI_Aint *d, const MPI_Datatype *o, MPI_Datatype *t)
{
    std::vector<std::tuple<long, ptrdiff_t, Type *>> b;
    for (int i = 0; i < n; i++)
        b.emplace_back(bl[i], d[i], T(o[i]));
    *t = (MPI_Datatype)build(b);
    return MPI_SUCCESS;
}
API MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint ex, MPI_Datatype *t)
{
    auto *n = new Type(*T(o));
    n->predefined = false, n->committed = false;
    n->lb = lb, n->extent = ex;
    *t = (MPI_Datatype)n;
    return MPI_SUCCESS;
}
API MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *ex) { *lb = T(t)->lb, *ex = T(t)->extent; return MPI_SUCCESS; }
API MPI_Type_get_extent_x(MPI_Datatype t, MPI_Count *lb, MPI_Count *ex) { *lb = T(t)->lb, *ex = T(t)->extent; return MPI_SUCCESS; }
API MPI_Type_size(MPI_Datatype t, int *s) { *s = T(t)->size; return MPI_SUCCESS; }
API MPI_Type_size_x(MPI_Datatype t, MPI_Count *s) { *s = T(t)->size; return MPI_SUCCESS; }
API MPI_Pack_external_size(const char *, int n, MPI_Datatype t, MPI_Aint *s) { *s = tbytes(T(t), n); return MPI_SUCCESS; }
API MPI_Pack_size(int n, MPI_Datatype t, MPI_Comm, int *s) { *s = tbytes(T(t), n); return MPI_SUCCESS; }
API MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *c) { size_t z = T(t)->size; *c = z ? s->_ucount / z : 0; return MPI_SUCCESS; }
API MPI_Get_elements(const MPI_Status *s, MPI_Datatype t, int *c) { size_t z = T(t)->elem ? T(t)->elem : T(t)->size; *c = z ? s->_ucount / z : 0; return MPI_SUCCESS; }
API MPI_Get_elements_x(const MPI_Status *s, MPI_Datatype t, MPI_Count *c) { size_t z = T(t)->elem ? T(t)->elem : T(t)->size; *c = z ? s->_ucount / z : 0; return MPI_SUCCESS; }
// ------------------------------------------------------------------ point to point
static int istart(Req *q, MPI_Request *r)
{
    *r = (MPI_Request)q;
    startReq(q);
    return MPI_SUCCESS;
}
API MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { sched_point(); return istart(mkReq(Req::Send, Req::Std, b, n, t, d, tag, c, false), r); }
API MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { sched_point(); return istart(mkReq(Req::Send, Req::Sync, b, n, t, d, tag, c, false), r); }
API MPI_Ibsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { sched_point(); return istart(mkReq(Req::Send, Req::Buf, b, n, t, d, tag, c, false), r); }
API MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) { sched_point(); return istart(mkReq(Req::Recv, Req::Std, b, n, t, s, tag, c, false), r); }
API MPI_Send_init(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { *r = (MPI_Request)mkReq(Req::Send, Req::Std, b, n, t, d, tag, c, true); return MPI_SUCCESS; }
API MPI_Ssend_init(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { *r = (MPI_Request)mkReq(Req::Send, Req::Sync, b, n, t, d, tag, c, true); return MPI_SUCCESS; }
API MPI_Bsend_init(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { *r = (MPI_Request)mkReq(Req::Send, Req::Buf, b, n, t, d, tag, c, true); return MPI_SUCCESS; }
API MPI_Recv_init(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) { *r = (MPI_Request)mkReq(Req::Recv, Req::Std, b, n, t, s, tag, c, true); return MPI_SUCCESS; }
API MPI_Start(MPI_Request *r)
{
    sched_point();
    if (isNull(*r) || !RQ(*r)->persistent)
        misuse("MPI_Start on a request that is not persistent");
    startReq(RQ(*r));
    return MPI_SUCCESS;
}
API MPI_Startall(int n, MPI_Request *r)
{
    sched_point();
    // the starts happen in an arbitrary order
    std::vector<int> o(n);
    for (int i = 0; i < n; i++)
        o[i] = i;
    for (int i = n - 1; i > 0; i--)
        std::swap(o[i], o[i - int(sim_choose(CH_NET, i + 1))]);
    for (int i : o)
    {
        if (isNull(r[i]) || !RQ(r[i])->persistent)
            misuse("MPI_Startall on a request that is not persistent");
        startReq(RQ(r[i]));
    }
    return MPI_SUCCESS;
}
API MPI_Waitall(int n, MPI_Request *r, MPI_Status *st)
{
    sched_point();
    block_until("Waitall", [=]()
                {
                    for (int i = 0; i < n; i++)
                        if (!reqDone(r[i]))
                            return false;
                    return true; });
    for (int i = 0; i < n; i++)
        retire(r + i, st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i);
    return MPI_SUCCESS;
}
API MPI_Wait(MPI_Request *r, MPI_Status *st)
{
    sched_point();
    block_until("Wait", [=]() { return reqDone(*r); });
    retire(r, st);
    return MPI_SUCCESS;
}
static bool testMiss(MPI_Request *r, int n)
{
    // MPI may report an operation as unfinished a little longer; it must not do so for ever
    if (calm)
        return false;
    for (int i = 0; i < n; i++)
        if (!isNull(r[i]))
        {
            Req *q = RQ(r[i]);
            if (q->active && q->missed < 3 && chance(CH_NET, cfg.test_miss))
            {
                q->missed++;
                sim_probe("fault:late_test");
                return true;
            }
        }
    return false;
}
API MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *st)
{
    yield_now();
    *f = 1;
    for (int i = 0; i < n; i++)
        if (!reqDone(r[i]))
            *f = 0;
    if (*f && testMiss(r, n))
        *f = 0;
    if (*f)
        for (int i = 0; i < n; i++)
            retire(r + i, st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i);
    return MPI_SUCCESS;
}
API MPI_Test(MPI_Request *r, int *f, MPI_Status *st)
{
    yield_now();
    *f = reqDone(*r) && !testMiss(r, 1);
    if (*f)
        retire(r, st);
    return MPI_SUCCESS;
}
API MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *st)
{
    sched_point();
    bool any = false;
    for (int i = 0; i < n; i++)
        any |= !isNull(r[i]) && RQ(r[i])->active;
    if (!any)
    {
        *idx = MPI_UNDEFINED;
        return MPI_SUCCESS;
    }
    block_until("Waitany", [=]()
                {
                    for (int i = 0; i < n; i++)
                        if (!isNull(r[i]) && RQ(r[i])->active && RQ(r[i])->complete)
                            return true;
                    return false; });
    std::vector<int> k;
    for (int i = 0; i < n; i++)
        if (!isNull(r[i]) && RQ(r[i])->active && RQ(r[i])->complete)
            k.push_back(i);
    *idx = k[sim_choose(CH_NET, k.size())];
    retire(r + *idx, st);
    return MPI_SUCCESS;
}
API MPI_Request_free(MPI_Request *r)
{
    if (isNull(*r))
        misuse("MPI_Request_free on a null request");
    Req *q = RQ(*r);
    if (q->active && !q->complete)
    {
        sim_probe("request_freed_active");
        if (q->kind == Req::Recv)
            misuse("a receive request is freed while it is active (rank %d from %d tag %d): nobody can know when its buffer is valid", q->owner, q->peer, q->tag);
        q->freeLater = true;
    }
    else
        freeReq(q);
    *r = MPI_REQUEST_NULL;
    return MPI_SUCCESS;
}
API MPI_Cancel(MPI_Request *) { misuse("MPI_Cancel is not simulated"); }
API MPI_Iprobe(int s, int tag, MPI_Comm c, int *f, MPI_Status *st)
{
    yield_now();
    *f = 0;
    Comm *cm = C(c);
    for (auto *m : R[me()].unexpected)
        if (m->comm == cm && (tag == MPI_ANY_TAG || tag == m->tag) && (s == MPI_ANY_SOURCE || cm->group[s] == m->src))
        {
            *f = 1;
            if (st != MPI_STATUS_IGNORE)
                st->MPI_SOURCE = cm->rankOf(m->src), st->MPI_TAG = m->tag, st->_ucount = m->bytes;
            break;
        }
    return MPI_SUCCESS;
}
static int blocking(Req *q, MPI_Status *st)
{
    MPI_Request r = (MPI_Request)q;
    startReq(q);
    return MPI_Wait(&r, st);
}
API MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { sched_point(); return blocking(mkReq(Req::Send, Req::Std, b, n, t, d, tag, c, false), MPI_STATUS_IGNORE); }
API MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { sched_point(); return blocking(mkReq(Req::Send, Req::Sync, b, n, t, d, tag, c, false), MPI_STATUS_IGNORE); }
API MPI_Bsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { sched_point(); return blocking(mkReq(Req::Send, Req::Buf, b, n, t, d, tag, c, false), MPI_STATUS_IGNORE); }
API MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) { sched_point(); return blocking(mkReq(Req::Recv, Req::Std, b, n, t, s, tag, c, false), st); }
API MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stp, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *st)
{
    MPI_Request q[2];
    MPI_Irecv(rb, rn, rt, s, rtag, c, q);
    MPI_Isend(sb, sn, stp, d, stag, c, q + 1);
    MPI_Wait(q + 1, MPI_STATUS_IGNORE);
    return MPI_Wait(q, st);
}
API MPI_Buffer_attach(void *b, int n)
{
    auto &r = R[me()];
    if (r.bsendBuf)
        misuse("a send buffer is already attached");
    r.bsendBuf = b, r.bsendSize = n;
    return MPI_SUCCESS;
}
API MPI_Buffer_detach(void *pb, int *n)
{
    auto &r = R[me()];
    int k = me();
    block_until("Buffer_detach", [k]() { return R[k].bsendUsed == 0; });
    *(void **)pb = r.bsendBuf, *n = r.bsendSize;
    r.bsendBuf = nullptr, r.bsendSize = 0;
    return MPI_SUCCESS;
}
// ------------------------------------------------------------------ collectives
#define BOTH(NAME, ARGS, KIND, ROOT, FILL)                                                                                             \
    API MPI_##NAME ARGS                                                                                                                  \
    {                                                                                                                                    \
        runColl(C(c), KIND, ROOT, [&](Coll &k, Arg &a) { (void)k; FILL; });                                                              \
        return MPI_SUCCESS;                                                                                                              \
    }
#define IBOTH(NAME, ARGS, KIND, ROOT, FILL)                                                                                            \
    API MPI_##NAME ARGS                                                                                                                  \
    {                                                                                                                                    \
        return runIColl(C(c), KIND, ROOT, [&](Coll &k, Arg &a) { (void)k; FILL; }, rq);                                                  \
    }
#define UNP(...) __VA_ARGS__
#define PAIR(NAME, INAME, PARAMS, KIND, ROOT, FILL)      \
    BOTH(NAME, (UNP PARAMS), KIND, ROOT, UNP FILL)       \
    IBOTH(INAME, (UNP PARAMS, MPI_Request *rq), KIND, ROOT, UNP FILL)
PAIR(Barrier, Ibarrier, (MPI_Comm c), C_BARRIER, 0, ((void)a))
PAIR(Bcast, Ibcast, (void *b, int n, MPI_Datatype t, int root, MPI_Comm c), C_BCAST, root, (a.rbuf = b, a.rcount = n, a.rtype = T(t)))
PAIR(Allreduce, Iallreduce, (const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c), C_ALLREDUCE, 0, (setRed(k, a, s, r, n, t, op)))
PAIR(Reduce, Ireduce, (const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c), C_REDUCE, root, (setRed(k, a, s, r, n, t, op)))
PAIR(Scan, Iscan, (const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c), C_SCAN, 0, (setRed(k, a, s, r, n, t, op)))
PAIR(Exscan, Iexscan, (const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c), C_EXSCAN, 0, (setRed(k, a, s, r, n, t, op)))
#define SR a.inPlace = s == MPI_IN_PLACE, a.sbuf = s, a.scount = sn, a.stype = a.inPlace ? nullptr : T(st), a.rbuf = r, a.rcount = rn, a.rtype = T(rt)
PAIR(Allgather, Iallgather, (const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c), C_ALLGATHER, 0, (SR))
PAIR(Alltoall, Ialltoall, (const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c), C_ALLTOALL, 0, (SR))
#define ISROOT (C(c)->group[root] == me())
PAIR(Gather, Igather, (const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c), C_GATHER, root,
     (a.inPlace = s == MPI_IN_PLACE, a.sbuf = s, a.scount = sn, a.stype = a.inPlace ? nullptr : T(st), a.rbuf = r, a.rcount = rn, a.rtype = ISROOT ? T(rt) : nullptr))
PAIR(Scatter, Iscatter, (const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c), C_SCATTER, root,
     (a.inPlace = r == MPI_IN_PLACE, a.sbuf = s, a.scount = sn, a.stype = ISROOT ? T(st) : nullptr, a.rbuf = r, a.rcount = rn, a.rtype = a.inPlace ? nullptr : T(rt)))
PAIR(Alltoallv, Ialltoallv, (const void *s, const int sn[], const int sd[], MPI_Datatype st, void *r, const int rn[], const int rd[], MPI_Datatype rt, MPI_Comm c), C_ALLTOALLV, 0,
     (a.sbuf = s, a.rbuf = r, a.stype = T(st), a.rtype = T(rt), a.scounts.assign(sn, sn + C(c)->group.size()), a.sdispls.assign(sd, sd + C(c)->group.size()),
      a.rcounts.assign(rn, rn + C(c)->group.size()), a.rdispls.assign(rd, rd + C(c)->group.size())))
PAIR(Allgatherv, Iallgatherv, (const void *s, int sn, MPI_Datatype st, void *r, const int rn[], const int rd[], MPI_Datatype rt, MPI_Comm c), C_ALLGATHERV, 0,
     (a.inPlace = s == MPI_IN_PLACE, a.sbuf = s, a.scount = sn, a.stype = a.inPlace ? nullptr : T(st), a.rbuf = r, a.rtype = T(rt), a.rcounts.assign(rn, rn + C(c)->group.size()), a.rdispls.assign(rd, rd + C(c)->group.size())))
API MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int rn[], const int rd[], MPI_Datatype rt, int root, MPI_Comm c)
{
    runColl(C(c), C_GATHERV, root, [&](Coll &, Arg &a)
            {
                a.inPlace = s == MPI_IN_PLACE, a.sbuf = s, a.scount = sn, a.stype = a.inPlace ? nullptr : T(st), a.rbuf = r;
                if (ISROOT) a.rtype = T(rt), a.rcounts.assign(rn, rn + C(c)->group.size()), a.rdispls.assign(rd, rd + C(c)->group.size()); });
    return MPI_SUCCESS;
}
API MPI_Scatterv(const void *s, const int sn[], const int sd[], MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
    runColl(C(c), C_SCATTERV, root, [&](Coll &, Arg &a)
            {
                a.inPlace = r == MPI_IN_PLACE, a.sbuf = s, a.rbuf = r, a.rcount = rn, a.rtype = a.inPlace ? nullptr : T(rt);
                if (ISROOT) a.stype = T(st), a.scounts.assign(sn, sn + C(c)->group.size()), a.sdispls.assign(sd, sd + C(c)->group.size()); });
    return MPI_SUCCESS;
}
// ------------------------------------------------------------------ parallel files
namespace sim
{
    // the store: bytes that are durable, and writes that are not yet
    struct Pending
    {
        int64_t off;
        std::vector<uint8_t> data;
        int64_t truncTo; // >=0: a size change
    };
    struct File
    {
        std::vector<uint8_t> vis;     // what readers see now
        std::vector<uint8_t> durable; // what survives a crash
        std::vector<Pending> pend;
        bool exists = true;
    };
    static std::map<std::string, std::shared_ptr<File>> store;
    static uint64_t ioOps, faultsFired;
    static bool noSpace;
    struct FH
    {
        uint32_t magic = MG_FILE;
        std::shared_ptr<File> f;
        std::string name;
        Comm *comm;
        int amode;
        // per rank
        std::map<int, int64_t> disp;
        std::map<int, Type *> etype, ftype;
        int closed = 0;
        bool atomic = false;
    };
    void files_reset()
    {
        ioOps = faultsFired = 0;
        noSpace = false;
    }
    static Type byteType()
    {
        Type t;
        t.size = 1, t.extent = 1, t.segs = {{0, 1}}, t.committed = t.predefined = true;
        return t;
    }
    static Type gByte = byteType();
    static FH *F(MPI_File f)
    {
        FH *h = (FH *)f;
        if (!f || h->magic != MG_FILE)
            misuse("invalid file handle");
        return h;
    }
    static void fwrite_at(File &f, int64_t off, const uint8_t *p, size_t n)
    {
        if (!n)
            return;
        if (f.vis.size() < off + n)
            f.vis.resize(off + n, 0);
        memcpy(f.vis.data() + off, p, n);
        f.pend.push_back({off, std::vector<uint8_t>(p, p + n), -1});
    }
    static void fsync_file(File &f)
    {
        f.durable = f.vis;
        f.pend.clear();
    }
    static void ftrunc(File &f, int64_t n)
    {
        f.vis.resize(n, 0);
        f.pend.push_back({0, {}, n});
    }
    // walk the file positions of a view access
    template <class FN>
    static void viewWalk(FH *h, int64_t offEtypes, size_t bytes, FN &&fn)
    {
        int r = me();
        Type *et = h->etype.count(r) ? h->etype[r] : &gByte;
        Type *ft = h->ftype.count(r) ? h->ftype[r] : &gByte;
        int64_t disp = h->disp.count(r) ? h->disp[r] : 0;
        int64_t skip = offEtypes * int64_t(et->size);
        if (ft->size == 1 && ft->extent == 1)
        {
            fn(disp + skip, size_t(0), bytes);
            return;
        }
        if (!ft->size)
            return;
        int64_t tile = skip / int64_t(ft->size);
        int64_t in = skip % int64_t(ft->size);
        size_t pos = 0;
        while (pos < bytes)
        {
            for (auto &s : ft->segs)
            {
                if (pos >= bytes)
                    break;
                if (in >= int64_t(s.len))
                {
                    in -= s.len;
                    continue;
                }
                size_t n = std::min(s.len - size_t(in), bytes - pos);
                fn(disp + tile * ft->extent + s.disp + in, pos, n);
                pos += n;
                in = 0;
            }
            tile++;
        }
    }
    // returns the number of bytes the faulty storage lets through, or -1 for an error
    int64_t faulted(bool write, size_t bytes)
    {
        io_event();
        if (!cfg.io_faults || !bytes || cfg.io_fault_inc != sim_incarnation())
            return bytes;
        if (write && noSpace)
        {
            sim_probe("fault:enospc");
            faultsFired++;
            return -1;
        }
        bool kindMatch = write ? (cfg.io_fault_kind >= 1 && cfg.io_fault_kind <= 3) : (cfg.io_fault_kind == 4 || cfg.io_fault_kind == 5);
        if (!kindMatch)
            return bytes;
        ioOps++;
        if (!cfg.io_fault_after || ioOps < uint64_t(cfg.io_fault_after))
            return bytes;
        if (ioOps > uint64_t(cfg.io_fault_after) && !cfg.io_fault_sticky)
            return bytes;
        faultsFired++;
        switch (cfg.io_fault_kind)
        {
        case 1: sim_probe("fault:write_eio"); return -1;
        case 2: noSpace = true; sim_probe("fault:enospc"); return -1;
        case 3: sim_probe("fault:short_write"); return bytes / 2;
        case 4: sim_probe("fault:read_eio"); return -1;
        case 5: sim_probe("fault:short_read"); return bytes / 2;
        }
        return bytes;
    }
    static int doWrite(FH *h, int64_t off, const void *b, int n, Type *t, MPI_Status *st)
    {
        std::vector<uint8_t> d;
        packTo(d, b, n, t);
        int64_t ok = faulted(true, d.size());
        size_t lim = ok < 0 ? 0 : ok;
        sim_probe("io_writes");
        viewWalk(h, off, std::min(lim, d.size()), [&](int64_t fo, size_t pos, size_t l) { fwrite_at(*h->f, fo, d.data() + pos, l); });
        note("file write %s off %lld %zu bytes -> %lld", h->name.c_str(), (long long)off, d.size(), (long long)ok);
        if (st && st != MPI_STATUS_IGNORE)
            memset(st, 0, sizeof *st), st->_ucount = lim;
        return ok < 0 ? (noSpace ? MPI_ERR_NO_SPACE : MPI_ERR_IO) : MPI_SUCCESS;
    }
    static int doRead(FH *h, int64_t off, void *b, int n, Type *t, MPI_Status *st)
    {
        size_t bytes = tbytes(t, n);
        int64_t ok = faulted(false, bytes);
        size_t lim = ok < 0 ? 0 : ok;
        sim_probe("io_reads");
        std::vector<uint8_t> d(bytes, 0);
        size_t got = 0;
        viewWalk(h, off, lim, [&](int64_t fo, size_t pos, size_t l)
                 {
                     int64_t have = std::max<int64_t>(0, std::min<int64_t>(l, int64_t(h->f->vis.size()) - fo));
                     if (have > 0)
                         memcpy(d.data() + pos, h->f->vis.data() + fo, have), got = std::max(got, pos + size_t(have)); });
        unpackFrom(d.data(), got, b, n, t);
        note("file read %s off %lld %zu bytes -> %zu", h->name.c_str(), (long long)off, bytes, got);
        if (st && st != MPI_STATUS_IGNORE)
            memset(st, 0, sizeof *st), st->_ucount = got;
        return ok < 0 ? MPI_ERR_IO : MPI_SUCCESS;
    }
    static void fcoll(FH *h, const char *what)
    {
        runColl(h->comm, C_FILE_SYNCING, 0, [](Coll &, Arg &) {}, what);
    }
}
API MPI_File_open(MPI_Comm c, const char *name, int amode, MPI_Info, MPI_File *o)
{
    Comm *cm = C(c);
    std::string n = name;
    runColl(cm, C_FILE_OPEN, 0, [&](Coll &k, Arg &a)
            {
                if (!k.shared)
                {
                    auto it = store.find(n);
                    bool ex = it != store.end() && it->second->exists;
                    if (!ex && !(amode & MPI_MODE_CREATE))
                        k.shared = (void *)1; // no such file
                    else
                    {
                        if (!ex)
                            store[n] = std::make_shared<File>();
                        auto *h = new FH;
                        h->f = store[n], h->name = n, h->comm = new Comm(*cm), h->amode = amode;
                        h->comm->id = nextCommId++;
                        h->comm->colls.clear();
                        h->comm->collSeq.assign(cm->group.size(), 0);
                        comms.push_back(h->comm);
                        k.shared = h;
                    }
                }
                a.result = k.shared;
                if (k.shared != (void *)1)
                    *o = (MPI_File)k.shared;
                else
                    *o = MPI_FILE_NULL; });
    return *o == MPI_FILE_NULL ? MPI_ERR_NO_SUCH_FILE : MPI_SUCCESS;
}
API MPI_File_close(MPI_File *f)
{
    FH *h = F(*f);
    fcoll(h, ":close");
    *f = MPI_FILE_NULL;
    return MPI_SUCCESS;
}
API MPI_File_delete(const char *n, MPI_Info) { return store.erase(n) ? MPI_SUCCESS : MPI_ERR_NO_SUCH_FILE; }
API MPI_File_get_size(MPI_File f, MPI_Offset *s) { sched_point(); *s = F(f)->f->vis.size(); return MPI_SUCCESS; }
API MPI_File_set_size(MPI_File f, MPI_Offset s)
{
    FH *h = F(f);
    fcoll(h, ":set_size");
    if (h->f->vis.size() != size_t(s))
        ftrunc(*h->f, s);
    fcoll(h, ":set_size2");
    return MPI_SUCCESS;
}
API MPI_File_set_view(MPI_File f, MPI_Offset d, MPI_Datatype e, MPI_Datatype t, const char *, MPI_Info)
{
    FH *h = F(f);
    Type *et = new Type(*T(e)), *ft = new Type(*T(t));
    fcoll(h, ":set_view");
    h->disp[me()] = d, h->etype[me()] = et, h->ftype[me()] = ft;
    return MPI_SUCCESS;
}
API MPI_File_sync(MPI_File f)
{
    FH *h = F(f);
    fcoll(h, ":sync");
    fsync_file(*h->f);
    return MPI_SUCCESS;
}
API MPI_File_read_at(MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *st) { sched_point(); return doRead(F(f), o, b, n, T(t), st); }
API MPI_File_write_at(MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *st) { sched_point(); return doWrite(F(f), o, b, n, T(t), st); }
API MPI_File_read_at_all(MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *st)
{
    FH *h = F(f);
    fcoll(h, ":read_at_all");
    return doRead(h, o, b, n, T(t), st);
}
API MPI_File_write_at_all(MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *st)
{
    FH *h = F(f);
    Type *ty = T(t);
    int rc = doWrite(h, o, b, n, ty, st);
    fcoll(h, ":write_at_all");
    return rc;
}
API MPI_File_set_atomicity(MPI_File f, int a) { F(f)->atomic = a; return MPI_SUCCESS; }
API MPI_File_get_atomicity(MPI_File f, int *a) { *a = F(f)->atomic; return MPI_SUCCESS; }
API MPI_File_set_errhandler(MPI_File, MPI_Errhandler) { return MPI_SUCCESS; }

extern "C"
{
    int64_t sim_file_size(const char *name)
    {
        auto it = store.find(name);
        return it == store.end() ? -1 : int64_t(it->second->vis.size());
    }
    int sim_file_get(const char *name, int64_t off, void *buf, int64_t n)
    {
        auto it = store.find(name);
        if (it == store.end() || off + n > int64_t(it->second->vis.size()))
            return -1;
        memcpy(buf, it->second->vis.data() + off, n);
        return 0;
    }
    int sim_file_put(const char *name, int64_t off, const void *buf, int64_t n)
    {
        auto &f = store[name];
        if (!f)
            f = std::make_shared<File>();
        fwrite_at(*f, off, (const uint8_t *)buf, n);
        return 0;
    }
    void sim_file_truncate(const char *name, int64_t n)
    {
        auto it = store.find(name);
        if (it != store.end())
            it->second->vis.resize(n);
    }
    void sim_file_crash(void)
    {
        // only durable bytes are certain; every unsynced write survives, is lost, or is torn at a 512-byte boundary
        for (auto &p : store)
        {
            auto &f = *p.second;
            f.vis = f.durable;
            for (auto &w : f.pend)
            {
                int c = sim_choose(CH_FAULT, 4);
                if (w.truncTo >= 0)
                {
                    if (c != 3)
                        f.vis.resize(w.truncTo, 0);
                    continue;
                }
                if (c == 3)
                {
                    sim_probe("fault:lost_write");
                    continue;
                }
                size_t n = w.data.size();
                if (c == 2)
                {
                    n = std::min<size_t>(n, 512 * sim_choose(CH_FAULT, n / 512 + 1));
                    sim_probe("fault:torn_write");
                }
                if (f.vis.size() < w.off + n)
                    f.vis.resize(w.off + n, 0);
                memcpy(f.vis.data() + w.off, w.data.data(), n);
            }
            f.pend.clear();
            f.durable = f.vis;
        }
        sim_probe("fault:crash");
    }
    uint64_t sim_io_faults_fired(void) { return faultsFired; }
    uint64_t sim_io_ops(void) { return ioOps; }
}
