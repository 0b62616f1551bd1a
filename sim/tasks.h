// Cooperative tasks under a seeded scheduler with virtual time, and simulated
// byte connections between them. Every interleaving, delay and fault is drawn.
#pragma once
#include "stream.h"
#include <sys/mman.h>
#include <ucontext.h>
#include <functional>

#if defined(__SANITIZE_ADDRESS__)
#define SCHED_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SCHED_ASAN 1
#endif
#endif
#ifdef SCHED_ASAN
extern "C" void __sanitizer_start_switch_fiber(void** fake, const void* bottom, size_t size);
extern "C" void __sanitizer_finish_switch_fiber(void* fake, const void** bottom_old, size_t* size_old);
extern "C" void __asan_unpoison_memory_region(void const volatile* addr, size_t size);
#endif

// A simulated process: its tasks die together, its memory goes with it.
struct Proc {
    uint32_t id;
    const char* name;
    bool dead;
    uint32_t alloc_rate;   // allocation failures, out of 64
    uint64_t alloc_failed;
};

enum TaskState { TS_READY, TS_BLOCKED, TS_DONE, TS_DEAD };
struct Task {
    uint32_t id;
    Proc* proc;
    const char* name;
    TaskState st;
    uint64_t wake;                 // not before this time
    bool (*cond)(void*);           // blocked until this holds
    void* cond_arg;
    std::function<void()> fn;
    ucontext_t uc;
    char* stack;
    void* fake;
    uint32_t prio;
    uint64_t switches;
};

static const size_t STACK_SIZE = 256 * 1024;
struct Sched {
    std::vector<Task*> tasks;
    std::vector<Proc*> procs;
    Task* cur;
    ucontext_t main_uc;
    void* main_fake;
    const void* main_bottom;
    size_t main_size;
    uint64_t now;
    uint32_t policy, eager;        // how the next task is chosen
    uint64_t steps, limit;
    uint64_t order;                // hash of the order of tasks
    std::vector<uint64_t> timers;  // times at which something may happen
    uint64_t failed_base;          // g_alloc.failed when the task was resumed
    bool (*pending)();             // more tasks will start
    void (*on_step)();             // fault decisions, outside of any task
};
static Sched SC;
static std::vector<char*> stack_pool;

static char* stack_get() {
    char* s;
    if (!stack_pool.empty()) {
        s = stack_pool.back();
        stack_pool.pop_back();
    } else {
        s = (char*)mmap(NULL, STACK_SIZE + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (s == MAP_FAILED)
            violate("harness.stack", "no memory for a task stack");
        mprotect(s, 8192, PROT_NONE);
    }
#ifdef SCHED_ASAN
    __asan_unpoison_memory_region(s + 8192, STACK_SIZE);
#endif
    // known stale contents (varied by the determinism check)
    memset(s + 8192 + STACK_SIZE - 24576, sim_fill_byte(), 24576);
    return s;
}

static void task_main() {
#ifdef SCHED_ASAN
    __sanitizer_finish_switch_fiber(NULL, &SC.main_bottom, &SC.main_size);
#endif
    SC.cur->fn();
    SC.cur->st = TS_DONE;
#ifdef SCHED_ASAN
    __sanitizer_start_switch_fiber(NULL, SC.main_bottom, SC.main_size);
#endif
    setcontext(&SC.main_uc);
    abort();
}

static void task_switch_out() {
    Task* t = SC.cur;
#ifdef SCHED_ASAN
    __sanitizer_start_switch_fiber(&t->fake, SC.main_bottom, SC.main_size);
#endif
    swapcontext(&t->uc, &SC.main_uc);
#ifdef SCHED_ASAN
    __sanitizer_finish_switch_fiber(t->fake, &SC.main_bottom, &SC.main_size);
#endif
}

static void task_switch_in(Task* t) {
    SC.cur = t;
    g_alloc.owner = t->proc->id;
    g_alloc.fail_rate = t->proc->alloc_rate;
    g_alloc.armed = t->proc->alloc_rate != 0;
    SC.failed_base = g_alloc.failed;
    t->switches++;
#ifdef SCHED_ASAN
    __sanitizer_start_switch_fiber(&SC.main_fake, t->stack + 8192, STACK_SIZE);
#endif
    swapcontext(&SC.main_uc, &t->uc);
#ifdef SCHED_ASAN
    __sanitizer_finish_switch_fiber(SC.main_fake, NULL, NULL);
#endif
    t->proc->alloc_failed += g_alloc.failed - SC.failed_base;
    SC.cur = NULL;
    g_alloc.owner = 0;
    g_alloc.armed = false;
}

static uint64_t cur_alloc_failed() { return SC.cur->proc->alloc_failed + (g_alloc.failed - SC.failed_base); }

// A point at which another task may run.
static void yield_point() {
    Task* t = SC.cur;
    if (!t)
        return;
    bool sw;
    switch (SC.policy) {
        case 0: sw = coin(1, SC.eager); break;
        case 1: sw = false; break;                        // run until it blocks
        case 2: sw = ++t->switches % SC.eager == 0; break;
        default: sw = coin(1, 24); if (sw) t->prio = draw(1000); break; // priorities with change points
    }
    if (sw)
        task_switch_out();
}

static void block_until(bool (*cond)(void*), void* arg) {
    Task* t = SC.cur;
    if (cond(arg)) {
        yield_point();
        return;
    }
    HIT("probe:task-blocked");
    t->st = TS_BLOCKED;
    t->cond = cond;
    t->cond_arg = arg;
    task_switch_out();
}

static void sleep_for(uint64_t ticks) {
    SC.cur->wake = SC.now + ticks;
    task_switch_out();
}

static Proc* proc_new(const char* name) {
    Proc* p = new Proc();
    p->id = (uint32_t)SC.procs.size() + 1;
    p->name = name;
    p->dead = false;
    p->alloc_rate = 0;
    p->alloc_failed = 0;
    SC.procs.push_back(p);
    return p;
}

static Task* task_new(Proc* p, const char* name, std::function<void()> fn) {
    Task* t = new Task();
    t->id = (uint32_t)SC.tasks.size();
    t->proc = p;
    t->name = name;
    t->st = TS_READY;
    t->wake = 0;
    t->fn = fn;
    t->stack = stack_get();
    t->prio = SC.policy == 3 ? draw(1000) : 0;
    getcontext(&t->uc);
    t->uc.uc_stack.ss_sp = t->stack + 8192;
    t->uc.uc_stack.ss_size = STACK_SIZE;
    t->uc.uc_link = NULL;
    makecontext(&t->uc, task_main, 0);
    SC.tasks.push_back(t);
    return t;
}

static void proc_kill(Proc* p) { // crash: nothing of it runs again
    p->dead = true;
    for (Task* t : SC.tasks)
        if (t->proc == p && t->st != TS_DONE)
            t->st = TS_DEAD;
    alloc_free_owner(p->id);
}

static void sched_reset() {
    for (Task* t : SC.tasks) {
        if (t->stack)
            stack_pool.push_back(t->stack);
        delete t;
    }
    for (Proc* p : SC.procs)
        delete p;
    SC.tasks.clear();
    SC.procs.clear();
    SC.timers.clear();
    SC.cur = NULL;
    SC.now = SC.steps = 0;
    SC.order = 0;
    SC.on_step = NULL;
    SC.pending = NULL;
    static const uint32_t w[] = {4, 2, 2, 3};
    SC.policy = pickw(w);
    static const uint32_t e[] = {1, 2, 5, 16, 3};
    SC.eager = e[draw(5)];
    SC.limit = 200000;
    g_alloc.on_call = yield_point;
}

static void timer_at(uint64_t when) {
    if (when > SC.now)
        SC.timers.push_back(when);
}

// Runs all tasks to their end. Time advances only when nothing can run.
static void sched_run(const char* dead_cls) {
    std::vector<Task*> run;
    for (;;) {
        if (SC.on_step)
            SC.on_step();
        run.clear();
        bool open = false;
        for (Task* t : SC.tasks) {
            if (t->st >= TS_DONE) {
                if (t->stack) {
                    stack_pool.push_back(t->stack);
                    t->stack = NULL;
                }
                continue;
            }
            open = true;
            if (t->wake > SC.now)
                continue;
            if (t->st == TS_BLOCKED && !t->cond(t->cond_arg))
                continue;
            run.push_back(t);
        }
        if (!open && !(SC.pending && SC.pending()))
            return;
        if (run.empty()) {
            uint64_t next = UINT64_MAX;
            for (Task* t : SC.tasks)
                if (t->st < TS_DONE && t->wake > SC.now && t->wake < next)
                    next = t->wake;
            size_t k = 0;
            for (uint64_t w : SC.timers)
                if (w > SC.now) {
                    SC.timers[k++] = w;
                    if (w < next)
                        next = w;
                }
            SC.timers.resize(k);
            if (next == UINT64_MAX) {
                std::string who;
                for (Task* t : SC.tasks)
                    if (t->st < TS_DONE)
                        who += std::string(who.empty() ? "" : ", ") + t->proc->name + "/" + t->name;
                violate(dead_cls, "no task can make progress and nothing is in flight: %s", who.c_str());
            }
            HIT_N("simulated-ticks", next - SC.now);
            SC.now = next;
            ev("clock %llu", (unsigned long long)SC.now);
            continue;
        }
        if (++SC.steps > SC.limit)
            violate(dead_cls, "no completion within %llu scheduling steps", (unsigned long long)SC.limit);
        Task* t = run[0];
        if (SC.policy == 3) {
            for (Task* x : run)
                if (x->prio > t->prio)
                    t = x;
        } else if (run.size() > 1) {
            t = run[draw((uint32_t)run.size())];
        }
        if (t->st == TS_BLOCKED)
            t->st = TS_READY;
        SC.order = hash64(SC.order, t->id);
        if ((SC.steps & 15) == 0)
            state_point(SC.order);
        ++g_nontrivial;
        ev("run %s/%s", t->proc->name, t->name);
        HIT("task-switches");
        task_switch_in(t);
    }
}

// ------------------------------------------------------------ connections
struct Piece {
    uint64_t when;
    bytes_t data;
};
struct Pipe {                     // one direction of a connection
    const char* name;
    std::vector<Piece> flight;    // sent, not yet delivered, in order
    size_t fpos;                  // first piece in flight
    bytes_t rx;                   // delivered
    size_t rxpos;
    size_t cap;                   // bytes in flight or unread
    size_t sent;                  // total accepted from the sender
    size_t got;                   // total taken by the receiver
    size_t cut_at;                // the connection breaks after this many bytes
    bool wclosed, rclosed;        // ends closed
    bool broken;
    bool* link_broken;            // both directions break together
    uint32_t delay_max, style, fixed;
    uint64_t last_when;
    uint64_t sends, recvs;
};

static void pipe_init(Pipe& p, const char* name) {
    p.name = name;
    p.fpos = p.rxpos = p.sent = p.got = 0;
    static const size_t caps[] = {1, 7, 40, 200, 2000, 1u << 20};
    p.cap = caps[draw(6)];
    p.cut_at = SIZE_MAX;
    p.wclosed = p.rclosed = p.broken = false;
    p.link_broken = NULL;
    p.delay_max = coin(1, 2) ? 0 : 1 + draw(50);
    p.style = draw(5);
    p.fixed = 1 + draw(40);
    p.last_when = 0;
    p.sends = p.recvs = 0;
}
static size_t pipe_load(Pipe& p) {
    size_t n = p.rx.size() - p.rxpos;
    for (size_t i = p.fpos; i < p.flight.size(); ++i)
        n += p.flight[i].data.size();
    return n;
}
static void pipe_deliver(Pipe& p) {
    if (p.rxpos && p.rxpos == p.rx.size()) {
        p.rx.clear();
        p.rxpos = 0;
    }
    while (p.fpos < p.flight.size() && p.flight[p.fpos].when <= SC.now) {
        bytes_t& d = p.flight[p.fpos].data;
        p.rx.insert(p.rx.end(), d.begin(), d.end());
        ++p.fpos;
    }
    if (p.fpos == p.flight.size()) {
        p.flight.clear();
        p.fpos = 0;
    }
}
static bool pipe_dead(Pipe& p) { return p.broken || (p.link_broken && *p.link_broken); }
static bool pipe_can_write(void* a) {
    Pipe& p = *(Pipe*)a;
    return pipe_dead(p) || p.rclosed || pipe_load(p) < p.cap;
}
static bool pipe_can_read(void* a) {
    Pipe& p = *(Pipe*)a;
    pipe_deliver(p);
    if (p.rxpos < p.rx.size())
        return true;
    return (p.wclosed || pipe_dead(p)) && p.fpos == p.flight.size();
}
static void pipe_break(Pipe& p) {
    p.broken = true;
    if (p.link_broken)
        *p.link_broken = true;
    if (coin(1, 2)) { // data in flight is lost, too
        size_t keep = p.fpos < p.flight.size() ? draw((uint32_t)(p.flight.size() - p.fpos + 1)) : 0;
        p.flight.resize(p.fpos + keep);
    }
}
static bool pipe_send(Pipe& p, const char* data, size_t n) {
    p.sends++;
    while (n) {
        block_until(pipe_can_write, &p);
        if (pipe_dead(p) || p.rclosed)
            return false;
        size_t room = p.cap - pipe_load(p);
        size_t k = n < room ? n : room;
        if (p.cut_at != SIZE_MAX && p.sent + k >= p.cut_at)
            k = p.cut_at - p.sent;
        if (k) {
            Piece c;
            c.when = SC.now + (p.delay_max ? draw(p.delay_max + 1) : 0);
            if (c.when < p.last_when)
                c.when = p.last_when;
            p.last_when = c.when;
            c.data.assign(data, data + k);
            p.flight.push_back(c);
            timer_at(c.when);
        }
        p.sent += k;
        data += k;
        n -= k;
        ev("%s: sent %lu (total %lu)", p.name, (unsigned long)k, (unsigned long)p.sent);
        if (p.sent == p.cut_at) {
            FAULT("connection-cut");
            ev("%s: connection cut after %lu bytes", p.name, (unsigned long)p.sent);
            pipe_break(p);
            return false;
        }
    }
    return true;
}
// 0: end of stream, or (not blocking) nothing yet
static size_t pipe_recv(Pipe& p, char* buf, size_t count, bool block) {
    p.recvs++;
    if (block)
        block_until(pipe_can_read, &p);
    else {
        yield_point();
        pipe_deliver(p);
    }
    size_t avail = p.rx.size() - p.rxpos;
    size_t n = avail < count ? avail : count;
    if (n > 1) {
        size_t k = n;
        switch (p.style) {
            case 0: break;
            case 1: k = 1; break;
            case 2: k = p.fixed - p.got % p.fixed; break;
            case 3: k = 1 + draw((uint32_t)(n > 48 ? 48 : n)); break;
            default: k = coin(1, 2) ? n : 1 + draw(4); break;
        }
        if (k < n)
            n = k;
    }
    if (n)
        memcpy(buf, p.rx.data() + p.rxpos, n);
    p.rxpos += n;
    p.got += n;
    ev("%s: got %lu of %lu (total %lu)", p.name, (unsigned long)n, (unsigned long)count, (unsigned long)p.got);
    if (n < count && coin(1, 4))
        memset(buf + n, 0xDB, count - n > 64 ? 64 : count - n); // the rest of the range is the callee's
    yield_point();
    return n;
}
