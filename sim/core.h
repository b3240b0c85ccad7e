#pragma once
#include "simapi.h"
#include <ucontext.h>
#include <functional>
#include <vector>
#include <string>
#include <map>
#include <deque>
#include <memory>
#include <cstring>
namespace sim
{
    struct Entity
    {
        int id = 0, rank = 0, tid = 0, nthreads = 1;
        Entity *parent = nullptr;
        ucontext_t ctx;
        char *stack = nullptr;
        size_t stackSize = 0;
        enum St { Ready, Blocked, Sleeping, Done } st = Ready;
        int64_t wake = 0;
        std::function<bool()> pred;
        const char *what = "";
        std::function<void()> body;
        uint32_t prio = 0;
        uint64_t ehGlobals[2] = {0, 0};
        void *ompTeam = nullptr;
        int ompDepth = 0;
    };
    Entity *cur();
    Entity *spawn(int rank, int tid, std::function<void()> body, size_t stack);
    void block_until(const char *what, std::function<bool()> pred);
    void yield_now();
    void sched_point(); // maybe yield
    void sleep_for(int64_t ns);
    bool chance(int ch, int pct); // false when the draw is 0
    // network actions: performed in an order the seed decides
    using Action = std::function<void()>;
    void add_action(const char *kind, Action a);
    extern sim_cfg cfg;
    extern bool tracing;
    extern bool calm;
    int64_t rank_clock(int rank);
    void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
    void mix(uint64_t v);
    void mpi_reset(int nranks);
    void mpi_new_job(int nranks); // all processes are gone, files stay
    void kill_job() __attribute__((noreturn)); // called on a rank: all processes die here
    void io_event(); // counts file transfers (crash points)
    void mpi_end_check(); // leftovers at the end of a run
    std::string mpi_state_dump();
    void posix_reset();
    void gomp_reset();
}
