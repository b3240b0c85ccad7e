// Deterministic simulator core: seeded choices, fibers, scheduler, run isolation, replay, minimisation.
#include "core.h"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <algorithm>
#include <set>
#include <unordered_set>
#include <unordered_map>
#include <dlfcn.h>
#include <malloc.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <errno.h>
#include <cxxabi.h>
#include <fstream>
#include <sstream>

namespace sim
{
    // ------------------------------------------------------------------ real clock for the driver only
    static double wall()
    {
        // the real clock, via the raw system call (clock_gettime itself is interposed for the ranks)
        struct timespec ts;
        extern int real_clock_gettime(int, struct timespec *);
        real_clock_gettime(CLOCK_MONOTONIC, &ts);
        return ts.tv_sec + ts.tv_nsec * 1e-9;
    }
    // ------------------------------------------------------------------ shared result of a run
    struct Probe
    {
        char name[48];
        uint64_t n;
    };
    static const int NPROBE = 192;
    struct Result
    {
        volatile int done; // 0 not finished, 1 ok, 2 violation, 3 harness error
        char cls[96];
        char msg[4096];
        uint64_t hash, schedHash, steps, switches, draws[CH_N];
        int64_t vtime;
        int nranks;
        Probe probes[NPROBE];
        int nprobe;
        int nontrivial;
        char sample[1024];
    };
    static Result *res = nullptr;
    static int errfd = -1; // captures stderr/stdout of the rank code
    static int realout = 1;

    sim_cfg cfg;
    bool tracing = false;
    bool calm = false;
    static bool inRun = false;
    static bool expectAbort = false;
    static int incarnation = 0;
    static bool jobDead = false, jobKilled = false;
    static uint64_t ioEvents = 0, incStep0 = 0;
    static FILE *traceLog = nullptr;

    // ------------------------------------------------------------------ seeded choices
    struct Rng
    {
        uint64_t s[4];
        static uint64_t sm(uint64_t &x)
        {
            uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
            return z ^ (z >> 31);
        }
        void seed(uint64_t x)
        {
            for (auto &v : s)
                v = sm(x);
        }
        uint64_t next()
        {
            auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
            uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
            s[2] ^= s[0], s[3] ^= s[1], s[1] ^= s[2], s[0] ^= s[3], s[2] ^= t, s[3] = rotl(s[3], 45);
            return r;
        }
    };
    static Rng rng[CH_N];
    static bool replaying = false;
    static std::vector<uint32_t> script[CH_N];   // replay input
    static std::vector<uint32_t> recorded[CH_N]; // what was drawn
    static bool recording = false;
    static uint64_t runHash, schedHash;
    static inline uint64_t hmix(uint64_t h, uint64_t v)
    {
        h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdULL;
        return h ^ (h >> 29);
    }
    void mix(uint64_t v) { runHash = hmix(runHash, v); }

    static uint32_t draw(int ch, uint32_t n)
    {
        if (n <= 1)
            return 0;
        uint32_t v;
        uint64_t pos = res ? res->draws[ch]++ : 0;
        if (replaying)
        {
            v = pos < script[ch].size() ? script[ch][pos] : 0;
            v %= n;
        }
        else
            v = uint32_t(rng[ch].next() % n);
        if (recording)
            recorded[ch].push_back(v);
        runHash = hmix(runHash, (uint64_t(ch) << 56) ^ (uint64_t(n) << 28) ^ v);
        return v;
    }
    bool chance(int ch, int pct)
    {
        if (pct <= 0)
            return false;
        if (pct >= 100)
            return true;
        return draw(ch, 100) >= uint32_t(100 - pct);
    }
    // ------------------------------------------------------------------ scheduler
    static std::vector<Entity *> ents;
    static Entity *curEnt = nullptr;
    static ucontext_t mainCtx;
    static bool inSched = false; // the scheduler itself is running, not a rank
    struct JobStuck
    {
    };
    static uint64_t mainEh[2];
    static const int64_t T0 = 1000000000LL * 1700000000LL;
    static int64_t nowNs = T0;
    static uint64_t stepNo = 0, switches = 0;
    static std::vector<std::pair<const char *, Action>> actions;
    static uint64_t pctChange[4];
    static uint32_t pctLow;
    static uint64_t STEP_CAP = 150000;
    static int cpuLimit = 60;
    static int rrNext = 0;

    Entity *cur() { return curEnt; }
    void kill_job()
    {
        jobDead = true;
        auto *g = reinterpret_cast<uint64_t *>(abi::__cxa_get_globals());
        g[0] = mainEh[0], g[1] = mainEh[1];
        setcontext(&mainCtx);
        abort();
    }
    void io_event()
    {
        ioEvents++;
        if (curEnt && incarnation + 1 < cfg.incarnations && cfg.crash_io && ioEvents == uint64_t(cfg.crash_io))
        {
            sim_probe("fault:crash_in_io");
            kill_job();
        }
    }

    static void swapTo(ucontext_t *from, uint64_t *fromEh, ucontext_t *to, uint64_t *toEh)
    {
        auto *g = reinterpret_cast<uint64_t *>(abi::__cxa_get_globals());
        fromEh[0] = g[0], fromEh[1] = g[1];
        g[0] = toEh[0], g[1] = toEh[1];
        swapcontext(from, to);
    }
    static void backToMain()
    {
        Entity *e = curEnt;
        swapTo(&e->ctx, e->ehGlobals, &mainCtx, mainEh);
    }
    static void entry(unsigned lo, unsigned hi)
    {
        Entity *e = reinterpret_cast<Entity *>(uintptr_t(lo) | (uintptr_t(hi) << 32));
        e->body();
        e->st = Entity::Done;
        for (;;)
            backToMain();
    }
    static std::vector<std::pair<char *, size_t>> stackPool;
    Entity *spawn(int rank, int tid, std::function<void()> body, size_t stack)
    {
        auto *e = new Entity;
        e->id = ents.size();
        e->rank = rank, e->tid = tid;
        e->body = std::move(body);
        for (size_t i = 0; i < stackPool.size(); i++)
            if (stackPool[i].second == stack)
            {
                e->stack = stackPool[i].first, e->stackSize = stack;
                stackPool.erase(stackPool.begin() + i);
                break;
            }
        if (!e->stack)
        {
            e->stack = (char *)mmap(nullptr, stack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            e->stackSize = stack;
            mprotect(e->stack, 4096, PROT_NONE);
        }
        getcontext(&e->ctx);
        e->ctx.uc_stack.ss_sp = e->stack;
        e->ctx.uc_stack.ss_size = e->stackSize;
        e->ctx.uc_link = nullptr;
        uintptr_t p = reinterpret_cast<uintptr_t>(e);
        makecontext(&e->ctx, (void (*)())entry, 2, unsigned(p), unsigned(p >> 32));
        e->prio = cfg.policy == 2 ? 1000 + draw(CH_SCHED, 1000) : 0;
        ents.push_back(e);
        return e;
    }
    void yield_now()
    {
        if (!curEnt)
            return;
        curEnt->st = Entity::Ready;
        backToMain();
    }
    void sched_point()
    {
        if (!curEnt)
            return;
        if (calm || chance(CH_SCHED, cfg.yield_pct))
            yield_now();
    }
    void block_until(const char *what, std::function<bool()> pred)
    {
        if (!curEnt)
        {
            sim_fail("harness", "blocking call outside of a rank: %s", what);
        }
        if (pred())
            return;
        curEnt->what = what;
        curEnt->pred = std::move(pred);
        curEnt->st = Entity::Blocked;
        backToMain();
        curEnt->pred = nullptr;
        curEnt->what = "";
    }
    void sleep_for(int64_t ns)
    {
        if (!curEnt)
            return;
        curEnt->st = Entity::Sleeping;
        curEnt->wake = nowNs + std::max<int64_t>(ns, 1);
        backToMain();
    }
    void add_action(const char *kind, Action a) { actions.emplace_back(kind, std::move(a)); }

    static std::vector<int64_t> skew;
    int64_t rank_clock(int rank)
    {
        // per-rank wall clock: offset, and (when enabled) occasional jumps in either direction
        if (rank < 0 || size_t(rank) >= skew.size())
            return nowNs;
        if (cfg.clock_skew && chance(CH_FAULT, 3))
        {
            int64_t d = int64_t(draw(CH_FAULT, 2000001)) - 1000000;
            skew[rank] += d * 1000;
            sim_probe(d < 0 ? "fault:clock_back" : "fault:clock_fwd");
        }
        return nowNs + skew[rank];
    }
    void note(const char *fmt, ...)
    {
        if (!traceLog)
            return;
        va_list ap;
        va_start(ap, fmt);
        fprintf(traceLog, "%8llu %3d.%d ", (unsigned long long)stepNo, curEnt ? curEnt->rank : -1, curEnt ? curEnt->tid : 0);
        vfprintf(traceLog, fmt, ap);
        fputc('\n', traceLog);
        va_end(ap);
    }

    static Entity *pickEntity(std::vector<Entity *> &run)
    {
        Entity *last = curEnt;
        // a rank that polls does not starve the others for ever
        static int same = 0;
        static Entity *prev = nullptr;
        same = last == prev ? same + 1 : 0;
        prev = last;
        if (same > 40 && run.size() > 1 && !calm)
        {
            same = 0;
            Entity *e = run[draw(CH_SCHED, run.size())];
            if (e == last)
                e = run[0] == last ? run[1] : run[0];
            return e;
        }
        auto lastIn = [&]() { return last && std::find(run.begin(), run.end(), last) != run.end(); };
        if (run.size() == 1)
            return run[0];
        if (calm)
        {
            for (auto *e : run)
                if (e->id >= rrNext)
                {
                    rrNext = e->id + 1;
                    return e;
                }
            rrNext = run[0]->id + 1;
            return run[0];
        }
        switch (cfg.policy)
        {
        default:
        case 0: // run to block, otherwise any
            if (lastIn() && last->st != Entity::Ready)
                return last;
            return run[draw(CH_SCHED, run.size())];
        case 1:
            return run[draw(CH_SCHED, run.size())];
        case 2:
        {
            for (auto c : pctChange)
                if (stepNo == c && last)
                    last->prio = --pctLow;
            Entity *b = run[0];
            for (auto *e : run)
                if (e->prio > b->prio)
                    b = e;
            if (chance(CH_SCHED, 2)) // keep polling loops from starving the rest for ever
                b = run[draw(CH_SCHED, run.size())];
            return b;
        }
        case 3:
        {
            std::vector<Entity *> r2;
            for (auto *e : run)
                if (e->rank != cfg.starve_rank)
                    r2.push_back(e);
            if (r2.empty() || chance(CH_SCHED, 1))
                return run[draw(CH_SCHED, run.size())];
            return r2[draw(CH_SCHED, r2.size())];
        }
        case 4:
            for (auto *e : run)
                if (e->id > (last ? last->id : -1))
                    return e;
            return run[0];
        }
    }

    static void runLoop()
    {
        std::vector<Entity *> run;
        for (;;)
        {
            stepNo++;
            nowNs += 1000;
            if (stepNo > STEP_CAP * uint64_t(1 + cfg.long_run) && !calm)
            {
                calm = true; // faults and unfairness stop here: from now on the run has to finish
                sim_probe("calm_mode");
            }
            if (stepNo > 3 * STEP_CAP * uint64_t(1 + cfg.long_run))
                sim_fail("no-progress", "the run did not finish within %llu further steps after delays stopped; %s",
                         (unsigned long long)(2 * STEP_CAP * uint64_t(1 + cfg.long_run)), mpi_state_dump().c_str());
            if (cfg.crash_step && incarnation + 1 < cfg.incarnations && stepNo - incStep0 >= uint64_t(cfg.crash_step))
            {
                sim_probe("fault:crash");
                jobDead = true;
            }
            if (jobDead)
                break;
            run.clear();
            bool anyAlive = false, anySleep = false;
            int64_t minWake = INT64_MAX;
            for (auto *e : ents)
            {
                if (e->st == Entity::Done)
                    continue;
                anyAlive = true;
                if (e->st == Entity::Ready)
                    run.push_back(e);
                else if (e->st == Entity::Blocked)
                {
                    if (e->pred())
                        run.push_back(e);
                }
                else if (e->st == Entity::Sleeping)
                {
                    anySleep = true;
                    minWake = std::min(minWake, e->wake);
                    if (e->wake <= nowNs)
                        run.push_back(e);
                }
            }
            if (!anyAlive)
                break;
            bool doNet = false;
            if (!actions.empty())
                doNet = run.empty() || calm || chance(CH_NET, cfg.net_pct);
            if (doNet)
            {
                size_t i = calm ? 0 : draw(CH_NET, actions.size());
                auto a = std::move(actions[i]);
                actions.erase(actions.begin() + i);
                schedHash = hmix(schedHash, 0x100 + i);
                note("net %s", a.first);
                a.second();
                continue;
            }
            if (run.empty())
            {
                if (anySleep)
                {
                    nowNs = std::max(nowNs, minWake);
                    continue;
                }
                std::string s;
                for (auto *e : ents)
                    if (e->st != Entity::Done)
                        s += " rank" + std::to_string(e->rank) + "." + std::to_string(e->tid) + "@" + e->what;
                sim_fail("deadlock", "no rank can proceed:%s; %s", s.c_str(), mpi_state_dump().c_str());
            }
            Entity *e = pickEntity(run);
            if (e != curEnt)
                switches++;
            schedHash = hmix(schedHash, e->id);
            curEnt = e;
            e->st = Entity::Ready;
            inSched = false;
            swapTo(&mainCtx, mainEh, &e->ctx, e->ehGlobals);
            inSched = true;
            if (jobDead)
                break;
            if (e->st == Entity::Done && e->stack)
            {
                stackPool.emplace_back(e->stack, e->stackSize);
                e->stack = nullptr;
            }
            // finished OMP helper fibers are dropped from the list
            if (e->st == Entity::Done && e->parent)
            {
                ents.erase(std::find(ents.begin(), ents.end(), e));
                curEnt = e->parent;
                delete e;
            }
        }
        curEnt = nullptr;
    }

    // ------------------------------------------------------------------ images
    struct Image
    {
        void *h;
        const wl_entry *tab;
        int n;
    };
    static std::vector<Image> images;
    static const int MAXR = 6; // ranks of one job; images MAXR.. belong to the second incarnation
    static std::string imagePath, scratchDir;

    static void die(const char *fmt, ...)
    {
        va_list ap;
        va_start(ap, fmt);
        fprintf(stderr, "simhost: ");
        vfprintf(stderr, fmt, ap);
        fprintf(stderr, "\n");
        exit(3);
    }
    static void loadImages(int n)
    {
        n = 64; // as many as there are
        std::string dir = imagePath;
        for (int i = 0; i < n; i++)
        {
            char b[64];
            snprintf(b, sizeof b, "/rank%02d.so", i);
            std::string f = dir + b;
            if (i && access(f.c_str(), R_OK))
                break;
            void *h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
            if (!h)
                die("dlopen %s: %s", f.c_str(), dlerror());
            auto fn = (const wl_entry *(*)(int *))dlsym(h, "wl_table");
            if (!fn)
                die("no wl_table in %s", f.c_str());
            Image im;
            im.h = h;
            im.tab = fn(&im.n);
            images.push_back(im);
        }
    }
    static const wl_entry *findWl(int im, const std::string &name)
    {
        for (int i = 0; i < images[im].n; i++)
            if (name == images[im].tab[i].name)
                return images[im].tab + i;
        die("no workload %s", name.c_str());
        return nullptr;
    }

    // ------------------------------------------------------------------ one run (in a forked child)
    static void finishOk()
    {
        res->hash = runHash, res->schedHash = schedHash, res->steps = stepNo, res->switches = switches, res->vtime = nowNs - T0;
        res->done = 1;
    }
    static void dumpRecorded(const char *path)
    {
        FILE *f = fopen(path, "w");
        if (!f)
            return;
        for (int c = 0; c < CH_N; c++)
        {
            fprintf(f, "channel %d %zu", c, recorded[c].size());
            for (auto v : recorded[c])
                fprintf(f, " %u", v);
            fprintf(f, "\n");
        }
        fclose(f);
    }
    static const char *recordTo = nullptr;
    static void onSignal(int sig, siginfo_t *si, void *)
    {
        if (!res || res->done)
            _exit(9);
        if (expectAbort && sig == SIGABRT)
        {
            sim_probe("accepted_abort");
            if (curEnt && incarnation + 1 < cfg.incarnations)
                kill_job();
            finishOk();
            _exit(0);
        }
        const char *n = sig == SIGABRT ? "SIGABRT" : sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGPROF ? "cpu-limit" : "signal";
        snprintf(res->cls, sizeof res->cls, sig == SIGPROF ? "hang" : "crash:%s", n);
        snprintf(res->msg, sizeof res->msg, "rank %d died with %s at step %llu; output tail: ", curEnt ? curEnt->rank : -1, n, (unsigned long long)stepNo);
        size_t l = strlen(res->msg);
        if (errfd >= 0)
        {
            off_t end = lseek(errfd, 0, SEEK_END);
            off_t st = std::max<off_t>(0, end - 3900);
            ssize_t k = pread(errfd, res->msg + l, sizeof(res->msg) - l - 1, st);
            if (k > 0)
                res->msg[l + k] = 0;
        }
        for (char *p = res->msg; *p; p++)
            if ((unsigned char)*p < 32 || (unsigned char)*p > 126)
                *p = ' ';
        res->hash = runHash, res->schedHash = schedHash, res->steps = stepNo, res->switches = switches, res->vtime = nowNs - T0;
        res->done = 2;
        if (recordTo)
            dumpRecorded(recordTo);
        if (traceLog)
            fflush(traceLog);
        _exit(1);
    }
    static void planDefaults()
    {
        memset(&cfg, 0, sizeof cfg);
        cfg.eager_mode = draw(CH_NET, 4);
        cfg.eager_limit = 8 << draw(CH_NET, 10);
        cfg.policy = draw(CH_SCHED, 5);
        cfg.starve_rank = draw(CH_SCHED, 8);
        static const int yp[] = {0, 5, 25, 60, 95};
        cfg.yield_pct = yp[draw(CH_SCHED, 5)];
        static const int np[] = {95, 50, 20, 5, 1};
        cfg.net_pct = np[draw(CH_NET, 5)];
        static const int lc[] = {0, 10, 50, 90};
        cfg.late_coll = lc[draw(CH_NET, 4)];
        cfg.sync_coll = draw(CH_NET, 2);
        cfg.poison = draw(CH_NET, 4) != 0;
        static const int tm[] = {0, 20, 70};
        cfg.test_miss = tm[draw(CH_NET, 3)];
        cfg.omp_threads = 1;
        cfg.clock_skew = draw(CH_FAULT, 4) == 3;
        cfg.nranks = 1;
        for (auto &c : pctChange)
            c = 1 + draw(CH_SCHED, 3000);
        pctLow = 900;
        static const int pert[] = {0, 0x55, 0xAA, 0x01, 0x80, 0x7F};
        int p = pert[draw(CH_FAULT, 6)];
        if (p)
            mallopt(M_PERTURB, p);
    }
    static std::string curWorkdir;
    static void cleanDir(const std::string &d)
    { // the run's own scratch directory, left over from an earlier run in this slot
        if (d.find("/simscratch") == std::string::npos)
            return;
        DIR *D = opendir(d.c_str());
        if (!D)
            return;
        while (auto *e = readdir(D))
        {
            std::string n = e->d_name;
            if (n == "." || n == "..")
                continue;
            std::string f = d + "/" + n;
            if (e->d_type == DT_DIR)
                cleanDir(f), rmdir(f.c_str());
            else
                unlink(f.c_str());
        }
        closedir(D);
    }
    static void childRun(const std::string &wl, uint64_t seed)
    {
        inRun = true;
        cleanDir(curWorkdir);
        for (int c = 0; c < CH_N; c++)
            rng[c].seed(seed * 0x9E3779B97F4A7C15ULL + c * 1000003 + 12345), recorded[c].clear();
        runHash = schedHash = 1469598103934665603ULL;
        stepNo = switches = 0, nowNs = T0;
        stack_t ss;
        ss.ss_size = 1 << 16;
        ss.ss_sp = malloc(ss.ss_size);
        ss.ss_flags = 0;
        sigaltstack(&ss, nullptr);
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_sigaction = onSignal;
        sa.sa_flags = SA_ONSTACK | SA_SIGINFO | SA_NODEFER;
        for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGPROF})
            sigaction(s, &sa, nullptr);
        errfd = getenv("SIM_OUTPUT") ? open(getenv("SIM_OUTPUT"), O_RDWR | O_CREAT | O_TRUNC, 0600) : memfd_create("err", 0);
        dup2(errfd, 2);
        dup2(errfd, 1);
        struct itimerval itv;
        memset(&itv, 0, sizeof itv);
        itv.it_value.tv_sec = cpuLimit; // CPU-time backstop for a loop that never reaches a scheduling point
        setitimer(ITIMER_PROF, &itv, nullptr);
        planDefaults();
        posix_reset();
        gomp_reset();
        const wl_entry *w = findWl(0, wl);
        void *plan = w->plan();
        res->nranks = cfg.nranks;
        if (cfg.nranks < 1 || cfg.nranks > int(images.size()))
            sim_fail("harness", "bad rank count %d", cfg.nranks);
        skew.assign(cfg.nranks, 0);
        if (cfg.clock_skew)
            for (auto &s : skew)
                s = (int64_t(draw(CH_FAULT, 20001)) - 10000) * 1000000;
        mpi_reset(cfg.nranks);
        note("workload %s ranks %d eager %d policy %d", wl.c_str(), cfg.nranks, cfg.eager_mode, cfg.policy);
        int perJob = cfg.nranks;
        if (!cfg.incarnations)
            cfg.incarnations = 1;
        if (size_t(cfg.incarnations) * MAXR > images.size() && cfg.incarnations > 1)
            sim_fail("harness", "not enough images for a second incarnation");
        for (incarnation = 0; incarnation < cfg.incarnations; incarnation++)
        {
            if (incarnation)
            {
                // fresh processes: other copies of the images, nothing but the files is left
                perJob = cfg.nranks = cfg.nranks2 ? cfg.nranks2 : cfg.nranks;
                mpi_new_job(cfg.nranks);
                gomp_reset();
                skew.resize(cfg.nranks, 0);
            }
            incStep0 = stepNo;
            for (int r = 0; r < perJob; r++)
            {
                const wl_entry *wr = findWl(r + incarnation * MAXR, wl);
                spawn(r, 0, [wr, plan, r]() { wr->rank(plan, r); }, 16 << 20);
            }
            inSched = true;
            try
            {
                runLoop();
            }
            catch (JobStuck &)
            {
                jobDead = true;
            }
            inSched = false;
            if (jobDead)
            {
                note("job killed");
                jobKilled = true, jobDead = false;
                ents.clear();
                actions.clear();
                curEnt = nullptr;
            }
            else
                mpi_end_check();
        }
        incarnation = cfg.incarnations - 1;
        if (w->finish)
            w->finish(plan);
        finishOk();
        if (recordTo)
            dumpRecorded(recordTo);
        if (traceLog)
            fflush(traceLog);
        inRun = false;
        _exit(0);
    }
    struct Slot
    {
        pid_t pid = 0;
        Result *r = nullptr;
        uint64_t seed = 0;
        std::string wl;
        std::string dir;
    };
    static Result *newResult()
    {
        return (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    static void rmTree(const std::string &d)
    { // only ever called on directories this process created below its scratch directory
        if (d.size() < 8 || d.find("/simscratch") == std::string::npos)
            return;
        std::string cmd = "/bin/rm -rf -- '" + d + "'";
        if (system(cmd.c_str()))
        {
        }
    }
    static void startRun(Slot &s, const std::string &wl, uint64_t seed)
    {
        memset((void *)s.r, 0, sizeof(Result));
        s.seed = seed, s.wl = wl;
        fflush(stdout);
        fflush(stderr);
        pid_t p = fork();
        if (p < 0)
            die("fork failed");
        if (p == 0)
        {
            res = s.r;
            curWorkdir = s.dir;
            childRun(wl, seed);
            _exit(0);
        }
        s.pid = p;
    }
    static void reap(Slot &s, int status)
    {
        if (!s.r->done)
        {
            s.r->done = 3;
            snprintf((char *)s.r->cls, sizeof s.r->cls, "harness");
            snprintf((char *)s.r->msg, sizeof s.r->msg, "run child ended with status 0x%x without a result", status);
        }
        s.pid = 0;
    }
    // run one scenario synchronously
    static void runSync(Slot &s, const std::string &wl, uint64_t seed)
    {
        startRun(s, wl, seed);
        int st;
        while (waitpid(s.pid, &st, 0) < 0 && errno == EINTR)
            ;
        reap(s, st);
    }

    // ------------------------------------------------------------------ replay files
    struct Replay
    {
        std::string wl, cls, msg;
        uint64_t seed = 0, hash = 0;
        std::vector<uint32_t> ch[CH_N];
    };
    static void saveReplay(const std::string &path, const Replay &r, const std::string &prop, const std::string &image)
    {
        FILE *f = fopen(path.c_str(), "w");
        if (!f)
            die("cannot write %s", path.c_str());
        fprintf(f, "simreplay 1\nproperty %s\nimage %s\nworkload %s\nseed %llu\nclass %s\nhash %016llx\nmessage %s\n",
                prop.c_str(), image.c_str(), r.wl.c_str(), (unsigned long long)r.seed, r.cls.c_str(), (unsigned long long)r.hash, r.msg.c_str());
        for (int c = 0; c < CH_N; c++)
        {
            fprintf(f, "channel %d %zu", c, r.ch[c].size());
            for (auto v : r.ch[c])
                fprintf(f, " %u", v);
            fprintf(f, "\n");
        }
        fclose(f);
    }
    static void loadChannels(const std::string &path, Replay &r)
    {
        std::ifstream in(path);
        std::string line;
        while (std::getline(in, line))
        {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if (k == "workload")
                is >> r.wl;
            else if (k == "seed")
                is >> r.seed;
            else if (k == "class")
                is >> r.cls;
            else if (k == "hash")
                is >> std::hex >> r.hash;
            else if (k == "message")
                std::getline(is, r.msg);
            else if (k == "channel")
            {
                int c;
                size_t n;
                is >> c >> n;
                r.ch[c].resize(n);
                for (auto &v : r.ch[c])
                    is >> v;
            }
        }
    }
    static void runScript(Slot &s, const Replay &r)
    {
        replaying = true;
        for (int c = 0; c < CH_N; c++)
            script[c] = r.ch[c];
        runSync(s, r.wl, r.seed);
        replaying = false;
    }
    // shrink: keep the violation class, make the draws fewer/zero/smaller
    static void minimise(Slot &s, Replay &r, double budget)
    {
        double t0 = wall();
        auto tryIt = [&](Replay &c) -> bool
        {
            runScript(s, c);
            if (s.r->done == 2 && r.cls == (const char *)s.r->cls)
            {
                for (int k = 0; k < CH_N; k++)
                    if (c.ch[k].size() > s.r->draws[k])
                        c.ch[k].resize(s.r->draws[k]);
                c.hash = s.r->hash;
                c.msg = (const char *)s.r->msg;
                for (auto &x : c.msg)
                    if (x == '\n')
                        x = ' ';
                r = c;
                return true;
            }
            return false;
        };
        auto timeLeft = [&]() { return wall() - t0 < budget; };
        bool progress = true;
        while (progress && timeLeft())
        {
            progress = false;
            // whole channels, truncations
            for (int k : {CH_FAULT, CH_SCHED, CH_NET, CH_DATA, CH_PLAN})
            {
                for (size_t keep = 0; keep < r.ch[k].size() && timeLeft(); keep = keep ? keep * 2 : 1)
                {
                    Replay c = r;
                    c.ch[k].resize(keep);
                    if (tryIt(c))
                    {
                        progress = true;
                        break;
                    }
                }
            }
            // zero / drop chunks
            for (int k : {CH_PLAN, CH_FAULT, CH_SCHED, CH_NET})
                for (size_t chunk = std::max<size_t>(1, r.ch[k].size() / 2); chunk >= 1 && timeLeft(); chunk /= 2)
                {
                    size_t tries = 0;
                    for (size_t i = 0; i < r.ch[k].size() && timeLeft() && tries < 300; i += chunk)
                    {
                        bool nz = false;
                        for (size_t j = i; j < std::min(i + chunk, r.ch[k].size()); j++)
                            nz |= r.ch[k][j] != 0;
                        if (nz)
                        {
                            Replay c = r;
                            for (size_t j = i; j < std::min(i + chunk, c.ch[k].size()); j++)
                                c.ch[k][j] = 0;
                            tries++;
                            if (tryIt(c))
                                progress = true;
                        }
                        if (k == CH_PLAN && i < r.ch[k].size())
                        {
                            Replay c = r;
                            c.ch[k].erase(c.ch[k].begin() + i, c.ch[k].begin() + std::min(i + chunk, c.ch[k].size()));
                            tries++;
                            if (tryIt(c))
                                progress = true;
                        }
                    }
                    if (chunk == 1)
                        break;
                }
            // smaller values in the plan
            for (size_t i = 0; i < r.ch[CH_PLAN].size() && timeLeft(); i++)
                while (r.ch[CH_PLAN][i] > 1 && timeLeft())
                {
                    Replay c = r;
                    c.ch[CH_PLAN][i] /= 2;
                    if (!tryIt(c))
                        break;
                    progress = true;
                }
        }
    }

    // ------------------------------------------------------------------ driver
    static std::string jsonEsc(const std::string &s)
    {
        std::string o;
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\')
                o += '\\', o += c;
            else if (c < 32 || c > 126)
                o += ' ';
            else
                o += c;
        }
        return o;
    }
    static int driver(int argc, char **argv)
    {
        std::string prop = "X", wls, out, replayOut, replayIn, traceOut;
        uint64_t seed = 1, runs = 1000000000ULL, minRuns = 0;
        double timeLimit = 10, minBudget = 30;
        int jobs = 8, maxRanks = 6, detSample = 0;
        std::vector<std::string> ignore;
        for (int i = 1; i < argc; i++)
        {
            std::string a = argv[i];
            auto nx = [&]() { return std::string(argv[++i]); };
            if (a == "--image")
                imagePath = nx();
            else if (a == "--prop")
                prop = nx();
            else if (a == "--wl")
                wls = nx();
            else if (a == "--seed")
                seed = strtoull(nx().c_str(), 0, 10);
            else if (a == "--runs")
                runs = strtoull(nx().c_str(), 0, 10);
            else if (a == "--min-runs")
                minRuns = strtoull(nx().c_str(), 0, 10);
            else if (a == "--time")
                timeLimit = atof(nx().c_str());
            else if (a == "--minimise-time")
                minBudget = atof(nx().c_str());
            else if (a == "--jobs")
                jobs = atoi(nx().c_str());
            else if (a == "--ranks")
                maxRanks = atoi(nx().c_str());
            else if (a == "--out")
                out = nx();
            else if (a == "--replay-out")
                replayOut = nx();
            else if (a == "--replay")
                replayIn = nx();
            else if (a == "--trace")
                traceOut = nx();
            else if (a == "--scratch")
                scratchDir = nx();
            else if (a == "--det")
                detSample = atoi(nx().c_str());
            else if (a == "--step-cap")
                STEP_CAP = strtoull(nx().c_str(), 0, 10);
            else if (a == "--cpu")
                cpuLimit = atoi(nx().c_str());
            else if (a == "--ignore")
                ignore.push_back(nx());
            else
                die("unknown option %s", a.c_str());
        }
        if (scratchDir.empty())
            die("--scratch needed");
        mkdir(scratchDir.c_str(), 0700);
        char sb[64];
        snprintf(sb, sizeof sb, "/simscratch.%d", getpid());
        scratchDir += sb;
        mkdir(scratchDir.c_str(), 0700);
        double tLoad = wall();
        loadImages(maxRanks);
        tLoad = wall() - tLoad;
        std::vector<std::pair<std::string, int>> wl;
        {
            std::istringstream is(wls);
            std::string t;
            while (std::getline(is, t, ','))
            {
                auto p = t.find(':');
                wl.emplace_back(t.substr(0, p), p == std::string::npos ? 1 : atoi(t.c_str() + p + 1));
            }
        }
        auto wlFor = [&](uint64_t i) -> const std::string &
        {
            int tot = 0;
            for (auto &w : wl)
                tot += w.second;
            int k = int(i % tot);
            for (auto &w : wl)
            {
                if (k < w.second)
                    return w.first;
                k -= w.second;
            }
            return wl[0].first;
        };
        auto mkSlot = [&](int i)
        {
            Slot s;
            s.r = newResult();
            char b[32];
            snprintf(b, sizeof b, "/s%d", i);
            s.dir = scratchDir + b;
            mkdir(s.dir.c_str(), 0700);
            return s;
        };
        auto cleanup = [&]() { rmTree(scratchDir); };
        if (!replayIn.empty())
        {
            Replay r;
            loadChannels(replayIn, r);
            Slot s = mkSlot(0);
            if (!traceOut.empty())
            {
                traceLog = fopen(traceOut.c_str(), "w");
                tracing = true;
            }
            runScript(s, r);
            printf("REPLAY class=%s expected=%s hash=%016llx expected=%016llx\n%s\nscenario: %s\n", s.r->done == 1 ? "none" : (const char *)s.r->cls, r.cls.c_str(),
                   (unsigned long long)s.r->hash, (unsigned long long)r.hash, (const char *)s.r->msg, (const char *)s.r->sample);
            bool same = s.r->done == 2 && r.cls == (const char *)s.r->cls && s.r->hash == r.hash;
            cleanup();
            return same ? 0 : 4;
        }
        // batch
        double t0 = wall();
        std::vector<Slot> slots;
        for (int i = 0; i < jobs; i++)
            slots.push_back(mkSlot(i));
        std::map<std::string, uint64_t> probes, perWl, ranksHist;
        std::unordered_set<uint64_t> hashes, scheds, nontriv;
        uint64_t started = 0, finished = 0, steps = 0, sw = 0, drawsTot = 0;
        double vtime = 0;
        bool failed = false;
        uint64_t failIdx = UINT64_MAX;
        Slot failSlot;
        std::string failCls, failMsg;
        uint64_t failHash = 0;
        std::unordered_map<uint64_t, uint64_t> hashOfIdx;
        std::map<uint64_t, uint64_t> pendingIdx; // pid -> idx
        std::vector<std::string> samples;
        std::map<std::string, std::string> sampleByWl;
        uint64_t ignored = 0;
        auto runSeed = [&](uint64_t idx) { return seed * 1000003ULL + idx; };
        for (;;)
        {
            bool more = !failed && started < runs && (wall() - t0 < timeLimit || started < minRuns);
            int live = 0;
            for (auto &s : slots)
            {
                if (!s.pid && more)
                {
                    startRun(s, wlFor(started), runSeed(started));
                    pendingIdx[s.pid] = started;
                    started++;
                }
                live += s.pid != 0;
                more = !failed && started < runs && (wall() - t0 < timeLimit || started < minRuns);
            }
            if (!live)
                break;
            int st;
            pid_t p = waitpid(-1, &st, 0);
            if (p < 0)
                continue;
            for (auto &s : slots)
                if (s.pid == p)
                {
                    reap(s, st);
                    uint64_t idx = pendingIdx[p];
                    pendingIdx.erase(p);
                    finished++;
                    Result &r = *s.r;
                    steps += r.steps, sw += r.switches, vtime += r.vtime * 1e-9;
                    for (auto d : r.draws)
                        drawsTot += d;
                    perWl[s.wl]++;
                    ranksHist[std::to_string(r.nranks)]++;
                    hashes.insert(r.hash), scheds.insert(r.schedHash);
                    if (r.nontrivial)
                        nontriv.insert(r.hash);
                    for (int i = 0; i < r.nprobe; i++)
                        probes[r.probes[i].name] += r.probes[i].n;
                    if (idx < 4096)
                        hashOfIdx[idx] = r.hash;
                    if (!sampleByWl.count(s.wl) && r.sample[0])
                        sampleByWl[s.wl] = std::string("seed ") + std::to_string(s.seed) + ": " + r.sample;
                    if (r.done == 3)
                    {
                        fprintf(stderr, "simhost: run seed %llu (%s): %s\n", (unsigned long long)s.seed, s.wl.c_str(), r.msg);
                        cleanup();
                        return 3;
                    }
                    if (r.done == 2)
                    {
                        bool ign = false;
                        for (auto &g : ignore)
                            if (strstr((const char *)r.cls, g.c_str()) || strstr((const char *)r.msg, g.c_str()))
                                ign = true;
                        if (ign)
                            ignored++;
                        else if (idx < failIdx)
                        {
                            failed = true;
                            failIdx = idx;
                            failCls = (const char *)r.cls, failMsg = (const char *)r.msg, failHash = r.hash;
                        }
                    }
                }
        }
        double tRun = wall() - t0;
        // determinism sample: the same seeds again, alone, must give the same histories
        uint64_t detChecked = 0, detBad = 0;
        if (!failed)
        {
            uint64_t n = std::min<uint64_t>(detSample, finished);
            uint64_t stride = n ? std::max<uint64_t>(1, std::min<uint64_t>(finished, 4096) / n) : 1;
            std::vector<uint64_t> todo;
            for (uint64_t i = 0; i < std::min<uint64_t>(finished, 4096) && todo.size() < n; i += stride)
                if (hashOfIdx.count(i))
                    todo.push_back(i);
            // a different worker count on purpose
            int j2 = std::max(1, jobs / 2 - 1);
            size_t pos = 0;
            for (;;)
            {
                int live = 0;
                for (int k = 0; k < j2; k++)
                {
                    if (!slots[k].pid && pos < todo.size())
                    {
                        startRun(slots[k], wlFor(todo[pos]), runSeed(todo[pos]));
                        pendingIdx[slots[k].pid] = todo[pos];
                        pos++;
                    }
                    live += slots[k].pid != 0;
                }
                if (!live)
                    break;
                int st;
                pid_t p = waitpid(-1, &st, 0);
                for (auto &s : slots)
                    if (p > 0 && s.pid == p)
                    {
                        reap(s, st);
                        uint64_t idx = pendingIdx[p];
                        detChecked++;
                        if (s.r->hash != hashOfIdx[idx])
                        {
                            detBad++;
                            fprintf(stderr, "simhost: seed %llu (%s) is not deterministic\n", (unsigned long long)runSeed(idx), s.wl.c_str());
                        }
                    }
            }
        }
        std::string status = "ok";
        if (detBad)
            status = "nondeterministic";
        Replay rp;
        if (failed)
        {
            // gate 1: the same seed again must give the same violation and history; record its draws
            Slot s = mkSlot(99);
            std::string rec = scratchDir + "/rec.txt";
            recording = true, recordTo = rec.c_str();
            runSync(s, wlFor(failIdx), runSeed(failIdx));
            recording = false, recordTo = nullptr;
            if (s.r->done != 2 || failCls != (const char *)s.r->cls)
            {
                fprintf(stderr, "simhost: seed %llu: violation %s (hash %016llx) not reproduced: %d %s (hash %016llx)\n", (unsigned long long)runSeed(failIdx), failCls.c_str(),
                        (unsigned long long)failHash, s.r->done, s.r->cls, (unsigned long long)s.r->hash);
                status = "unreproducible";
            }
            else
            {
                loadChannels(rec, rp);
                rp.wl = wlFor(failIdx), rp.seed = runSeed(failIdx), rp.cls = failCls, rp.msg = failMsg, rp.hash = failHash;
                size_t before = 0, after = 0;
                for (auto &c : rp.ch)
                    before += c.size();
                Replay mini = rp;
                runScript(s, mini);
                if (s.r->done == 2 && failCls == (const char *)s.r->cls)
                {
                    mini.hash = s.r->hash;
                    minimise(s, mini, minBudget);
                    runScript(s, mini);
                    if (s.r->done == 2 && mini.cls == (const char *)s.r->cls)
                    {
                        mini.hash = s.r->hash, mini.msg = (const char *)s.r->msg;
                        rp = mini;
                    }
                }
                for (auto &x : rp.msg)
                    if (x == '\n')
                        x = ' ';
                for (auto &c : rp.ch)
                    after += c.size();
                failMsg = rp.msg;
                status = "violation";
                if (!replayOut.empty())
                    saveReplay(replayOut, rp, prop, imagePath);
                fprintf(stderr, "simhost: violation %s seed %llu: %s\n  draws %zu -> %zu after minimisation\n", rp.cls.c_str(), (unsigned long long)rp.seed, rp.msg.c_str(), before, after);
            }
        }
        if (!out.empty())
        {
            FILE *f = fopen(out.c_str(), "w");
            fprintf(f, "{\"status\":\"%s\",\"runs\":%llu,\"wall_s\":%.3f,\"load_s\":%.3f,\"runs_per_hour\":%.0f,\"steps\":%llu,\"switches\":%llu,\"draws\":%llu,\"sim_seconds\":%.6f,"
                       "\"distinct_nontrivial\":%zu,\"distinct_histories\":%zu,\"distinct_schedules\":%zu,\"det_checked\":%llu,\"det_bad\":%llu,\"ignored\":%llu",
                    status.c_str(), (unsigned long long)finished, tRun, tLoad, finished / std::max(1e-9, tRun) * 3600, (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)drawsTot, vtime,
                    nontriv.size(), hashes.size(), scheds.size(), (unsigned long long)detChecked, (unsigned long long)detBad, (unsigned long long)ignored);
            auto mapOut = [&](const char *n, std::map<std::string, uint64_t> &m)
            {
                fprintf(f, ",\"%s\":{", n);
                bool first = true;
                for (auto &p : m)
                    fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jsonEsc(p.first).c_str(), (unsigned long long)p.second), first = false;
                fprintf(f, "}");
            };
            mapOut("probes", probes);
            mapOut("workloads", perWl);
            mapOut("ranks", ranksHist);
            fprintf(f, ",\"samples\":[");
            bool first = true;
            for (auto &p : sampleByWl)
                fprintf(f, "%s\"%s: %s\"", first ? "" : ",", jsonEsc(p.first).c_str(), jsonEsc(p.second).c_str()), first = false;
            fprintf(f, "],\"class\":\"%s\",\"message\":\"%s\",\"fail_seed\":%llu,\"fail_workload\":\"%s\"}\n", jsonEsc(failCls).c_str(), jsonEsc(failMsg).c_str(),
                    (unsigned long long)rp.seed, rp.wl.c_str());
            fclose(f);
        }
        cleanup();
        return status == "ok" ? 0 : status == "violation" ? 1 : 3;
    }
}

using namespace sim;
extern "C"
{
    uint32_t sim_choose(int ch, uint32_t n) { return draw(ch, n); }
    uint64_t sim_rand64(int ch)
    {
        uint64_t a = draw(ch, 0xffffffffu), b = draw(ch, 0xffffffffu);
        return (a << 32) | b;
    }
    int sim_rank(void) { return curEnt ? curEnt->rank : -1; }
    int sim_tid(void) { return curEnt ? curEnt->tid : 0; }
    int sim_nranks(void) { return cfg.nranks; }
    int64_t sim_now(void) { return nowNs; }
    uint64_t sim_step(void) { return stepNo; }
    uint64_t sim_io_events(void) { return ioEvents; }
    void sim_yield(void) { sched_point(); }
    void sim_mix(uint64_t v) { mix(v); }
    void sim_expect_abort(int on) { expectAbort = on; }
    int sim_incarnation(void) { return incarnation; }
    int sim_job_killed(void) { return jobKilled; }
    struct sim_cfg *sim_config(void) { return &cfg; }
    const char *sim_workdir(void) { return curWorkdir.c_str(); }
    const char *sim_scratch(void) { return curWorkdir.c_str(); }
    void sim_setenv(const char *k, const char *v) { setenv(k, v, 1); }
    void sim_fail(const char *cls, const char *fmt, ...)
    {
        if (!res)
        {
            fprintf(stderr, "sim_fail outside of a run: %s\n", cls);
            _exit(3);
        }
        if (expectAbort && sim_io_faults_fired() && (!strcmp(cls, "deadlock") || !strcmp(cls, "mpi-misuse") || !strcmp(cls, "no-progress")))
        { // HDF5 leaves a collective on the rank whose transfer failed: the job is stuck, which nobody takes for success
            sim_probe("stuck_after_io_error");
            if (incarnation + 1 < cfg.incarnations)
            {
                if (inSched)
                    throw JobStuck{};
                if (curEnt)
                    kill_job();
            }
            finishOk();
            _exit(0);
        }
        va_list ap;
        va_start(ap, fmt);
        snprintf(res->cls, sizeof res->cls, "%s", cls);
        int l = snprintf(res->msg, sizeof res->msg, "[rank %d step %llu] ", curEnt ? curEnt->rank : -1, (unsigned long long)stepNo);
        vsnprintf(res->msg + l, sizeof(res->msg) - l, fmt, ap);
        va_end(ap);
        for (char *p = res->msg; *p; p++)
            if ((unsigned char)*p < 32 || (unsigned char)*p > 126)
                *p = ' ';
        res->hash = runHash, res->schedHash = schedHash, res->steps = stepNo, res->switches = switches, res->vtime = nowNs - T0;
        res->done = strcmp(cls, "harness") ? 2 : 3;
        if (recordTo)
            dumpRecorded(recordTo);
        if (traceLog)
        {
            fprintf(traceLog, "FAIL %s: %s\n", res->cls, res->msg);
            fflush(traceLog);
        }
        _exit(1);
    }
    void sim_probe_n(const char *name, uint64_t n)
    {
        if (!res)
            return;
        if (!strcmp(name, "nontrivial"))
        {
            res->nontrivial = 1;
            return;
        }
        for (int i = 0; i < res->nprobe; i++)
            if (!strcmp(res->probes[i].name, name))
            {
                res->probes[i].n += n;
                return;
            }
        if (res->nprobe < NPROBE)
        {
            auto &p = res->probes[res->nprobe++];
            snprintf(p.name, sizeof p.name, "%s", name);
            p.n = n;
        }
    }
    void sim_probe(const char *name) { sim_probe_n(name, 1); }
    void sim_sample(const char *s)
    {
        if (res && !res->sample[0])
            snprintf(res->sample, sizeof res->sample, "%s", s);
    }
    void sim_note(const char *fmt, ...)
    {
        if (!traceLog)
            return;
        va_list ap;
        va_start(ap, fmt);
        char b[2048];
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        note("%s", b);
    }
}

int main(int argc, char **argv)
{
    // same addresses in every process where the system allows it (pointer-keyed containers)
    if (!getenv("SIM_NOASLR_TRIED"))
    {
        setenv("SIM_NOASLR_TRIED", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    unsetenv("SIM_NOASLR_TRIED");
    return driver(argc, argv);
}
