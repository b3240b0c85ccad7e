// OpenMP runtime of the simulated ranks: the threads of a team are fibers whose order the seed decides.
#include "core.h"
#include <algorithm>
using namespace sim;
namespace
{
    struct Team
    {
        int n = 1;
        int arrived = 0;
        uint64_t gen = 0;
        int left = 0;
        // work-share state (one at a time; nested work shares follow each other through a counter)
        struct Loop
        {
            long next, end, incr, chunk;
            int started = 0;
        };
        std::map<int, Loop> loops;
        std::map<int, int> singles;
    };
    struct Thr
    {
        int loopNo = 0, singleNo = 0;
    };
    std::map<Entity *, Thr> thr;
    std::map<std::pair<int, void *>, Entity *> locks; // per rank: a rank is a process
    std::map<int, int> setThreads;
    Team *team() { return cur() ? (Team *)cur()->ompTeam : nullptr; }
    int maxThreads()
    {
        int r = cur() ? cur()->rank : 0;
        auto it = setThreads.find(r);
        int n = it != setThreads.end() ? it->second : cfg.omp_threads;
        return std::max(1, std::min(n, 16));
    }
    void lockIt(void *k)
    {
        if (!team())
            return;
        sched_point();
        auto key = std::make_pair(cur()->rank, k);
        block_until("omp-lock", [key]() { return locks[key] == nullptr; });
        locks[key] = cur();
    }
    void unlockIt(void *k)
    {
        if (!team())
            return;
        locks[std::make_pair(cur()->rank, k)] = nullptr;
        sched_point();
    }
    void runTeam(void (*fn)(void *), void *data, unsigned n, const Team::Loop *lp)
    {
        Entity *me = cur();
        if (!me)
        { // constructors run outside of a rank
            Team t;
            fn(data);
            return;
        }
        int nt = n ? int(n) : maxThreads();
        if (me->ompTeam)
            nt = 1; // nested regions are serialised
        auto *saved = me->ompTeam;
        int savedTid = me->tid, savedN = me->nthreads;
        Thr savedThr = thr[me];
        auto *t = new Team;
        t->n = nt;
        t->left = nt - 1;
        if (lp)
            t->loops[0] = *lp, t->loops[0].started = 1;
        thr[me] = Thr();
        me->ompTeam = t, me->tid = 0, me->nthreads = nt;
        if (nt > 1)
            sim_probe("omp_region_parallel");
        for (int i = 1; i < nt; i++)
        {
            Entity *e = spawn(me->rank, i, nullptr, 4 << 20);
            e->parent = me, e->ompTeam = t, e->nthreads = nt;
            e->body = [=]()
            {
                fn(data);
                thr.erase(cur());
                t->left--;
            };
        }
        if (nt > 1)
            yield_now();
        fn(data);
        if (nt > 1)
            block_until("omp-join", [t]() { return t->left == 0; });
        me->ompTeam = saved, me->tid = savedTid, me->nthreads = savedN;
        thr[me] = savedThr;
        delete t;
    }
    bool nextChunk(Team::Loop &l, long *s, long *e)
    {
        if (l.incr > 0 ? l.next >= l.end : l.next <= l.end)
            return false;
        long left = l.incr > 0 ? (l.end - l.next + l.incr - 1) / l.incr : (l.next - l.end - l.incr - 1) / -l.incr;
        long c = 1 + long(sim_choose(CH_SCHED, uint32_t(std::min<long>(left, 1 + left / 2))));
        *s = l.next;
        long en = l.next + c * l.incr;
        if (l.incr > 0 ? en > l.end : en < l.end)
            en = l.end;
        *e = en;
        l.next = en;
        return true;
    }
}
namespace sim
{
    void gomp_reset() { thr.clear(), locks.clear(), setThreads.clear(); }
}
extern "C"
{
    int omp_get_thread_num() { return team() ? cur()->tid : 0; }
    int omp_get_num_threads() { return team() ? team()->n : 1; }
    int omp_get_max_threads() { return maxThreads(); }
    int omp_get_num_procs() { return 8; }
    void omp_set_num_threads(int n) { setThreads[cur() ? cur()->rank : 0] = n; }
    int omp_in_parallel() { return team() && team()->n > 1; }
    double omp_get_wtime() { return rank_clock(cur() ? cur()->rank : 0) * 1e-9; }
    int omp_get_level() { return team() ? 1 : 0; }
    void omp_set_dynamic(int) {}
    void omp_set_nested(int) {}
    void omp_set_max_active_levels(int) {}
    void omp_set_schedule(int, int) {}
    void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { runTeam(fn, data, n, nullptr); }
    static void parLoop(void (*fn)(void *), void *data, unsigned n, long s, long e, long incr)
    {
        Team::Loop l{s, e, incr, 1, 1};
        runTeam(fn, data, n, &l);
    }
#define PARLOOP(name) \
    void name(void (*fn)(void *), void *data, unsigned n, long s, long e, long incr, unsigned) { parLoop(fn, data, n, s, e, incr); }
#define PARLOOPC(name) \
    void name(void (*fn)(void *), void *data, unsigned n, long s, long e, long incr, long, unsigned) { parLoop(fn, data, n, s, e, incr); }
    PARLOOP(GOMP_parallel_loop_runtime)
    PARLOOP(GOMP_parallel_loop_maybe_nonmonotonic_runtime)
    PARLOOP(GOMP_parallel_loop_nonmonotonic_runtime)
    PARLOOPC(GOMP_parallel_loop_dynamic)
    PARLOOPC(GOMP_parallel_loop_guided)
    PARLOOPC(GOMP_parallel_loop_static)
    PARLOOPC(GOMP_parallel_loop_nonmonotonic_dynamic)
    PARLOOPC(GOMP_parallel_loop_nonmonotonic_guided)
    static bool loopNext(long *s, long *e)
    {
        Team *t = team();
        sched_point();
        return nextChunk(t->loops[thr[cur()].loopNo], s, e);
    }
    static bool loopStart(long s0, long e0, long incr, long *s, long *e)
    {
        Team *t = team();
        static Team dummy;
        if (!t)
        { // orphaned work share: one thread
            *s = s0, *e = e0;
            dummy.loops[0] = Team::Loop{e0, e0, incr, 1, 1};
            return incr > 0 ? s0 < e0 : s0 > e0;
        }
        int k = ++thr[cur()].loopNo;
        auto &l = t->loops[k];
        if (!l.started)
            l = Team::Loop{s0, e0, incr, 1, 1};
        return loopNext(s, e);
    }
#define LOOPS(name)                                                                                              \
    bool GOMP_loop_##name##_start(long a, long b, long c, long *s, long *e) { return loopStart(a, b, c, s, e); } \
    bool GOMP_loop_##name##_next(long *s, long *e) { return team() ? loopNext(s, e) : false; }
#define LOOPSC(name)                                                                                                   \
    bool GOMP_loop_##name##_start(long a, long b, long c, long, long *s, long *e) { return loopStart(a, b, c, s, e); } \
    bool GOMP_loop_##name##_next(long *s, long *e) { return team() ? loopNext(s, e) : false; }
    LOOPS(runtime)
    LOOPS(maybe_nonmonotonic_runtime)
    LOOPS(nonmonotonic_runtime)
    LOOPSC(dynamic)
    LOOPSC(guided)
    LOOPSC(static)
    LOOPSC(nonmonotonic_dynamic)
    LOOPSC(nonmonotonic_guided)
    void GOMP_loop_end_nowait() {}
    void GOMP_barrier()
    {
        Team *t = team();
        if (!t || t->n == 1)
            return;
        uint64_t g = t->gen;
        if (++t->arrived == t->n)
        {
            t->arrived = 0;
            t->gen++;
            yield_now();
            return;
        }
        block_until("omp-barrier", [t, g]() { return t->gen != g; });
    }
    void GOMP_loop_end() { GOMP_barrier(); }
    bool GOMP_single_start()
    {
        Team *t = team();
        if (!t)
            return true;
        int k = ++thr[cur()].singleNo;
        return t->singles[k]++ == 0;
    }
    void GOMP_critical_start() { lockIt((void *)1); }
    void GOMP_critical_end() { unlockIt((void *)1); }
    void GOMP_critical_name_start(void **p) { lockIt((void *)p); }
    void GOMP_critical_name_end(void **p) { unlockIt((void *)p); }
    void GOMP_atomic_start() { lockIt((void *)2); }
    void GOMP_atomic_end() { unlockIt((void *)2); }
}
