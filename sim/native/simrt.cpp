// Simulated native runtime for the tomography extension.
//
// Replaces, for an extension compiled with -fopenmp -fsanitize=thread but
// linked against neither libgomp nor libtsan:
//   * the OpenMP runtime (GOMP_*, omp_*): every team member is a fiber of the
//     calling OS thread, and a seeded scheduler decides who runs;
//   * the __tsan_* hooks: every instrumented memory access inside a parallel
//     region is a yield point;
//   * the heap (operator new/delete, malloc family of the extension, numpy's
//     data allocator): junk filled, fenced, quarantined and failing on demand.
// One configuration (seed + options, or an explicit schedule) determines the
// execution completely.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstddef>
#include <vector>
#include <deque>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <mutex>
#include <sys/mman.h>
#include <unistd.h>

#define API extern "C" __attribute__((visibility("default")))
typedef unsigned long long ull;

// ------------------------------------------------------------------ PRNG --
struct Rng {
    uint64_t s;
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool coin(double p) { return unit() < p; }
};

// --------------------------------------------------------------- options --
enum Strategy { S_RTC = 0, S_RANDOM = 1, S_PCT = 2, S_RMW = 3, S_HOT = 4, S_STALL = 5, S_DETECT = 6, S_MIX = 7 };

struct Opt {
    uint64_t seed = 1;
    int strategy = S_RTC;
    double p = 0.5;          // preemption probability at a targeted point
    int mean = 10;           // mean distance of random preemptions
    int depth = 3;           // PCT change points
    int nthreads = 4;        // the "machine's" default team size
    double short_team = 0;   // probability that a team gets fewer threads
    uint64_t step_cap = 2000000000ULL;
    int detect = 0;          // record conflicting accesses
    int replay = 0;          // follow the explicit schedule only
    int junk = 0;            // heap junk pattern
};

struct Event { int32_t region, tid; int64_t step; int32_t kind, target; };

struct Stats {
    uint64_t regions, steps, switches, preemptions, blocked, short_teams, max_team;
    uint64_t conflicts, hot_pcs, sched_hash, allocs, alloc_fail, alloc_bytes;
    uint64_t barriers, criticals, chunks, deadlock, step_cap_hit, nested;
    uint64_t np_allocs, realloc_moves;
};

static Opt opt;
static Stats st;
static Rng rng;
static bool active = false;        // between sim_begin and sim_end
static int32_t region_no = 0;
static std::vector<Event> rec;     // decisions taken
static std::map<std::pair<int32_t, int32_t>, std::vector<Event>> plan; // by (region,tid)
static std::map<int32_t, int32_t> plan_team;
static std::vector<int32_t> team_sizes;
static std::unordered_set<uintptr_t> hot;
static int icv_nthreads = 0;       // set through omp_set_num_threads
static uint64_t last_len = 1000;   // length of the previous region (PCT)
static char fatal_msg[256];
static int fatal_flag = 0;

static void note_fatal(const char *m) {
    if (!fatal_flag) { fatal_flag = 1; snprintf(fatal_msg, sizeof fatal_msg, "%s", m); }
}

// ---------------------------------------------------------------- fibers --
struct Team; struct Fiber;
enum FState { F_RUN, F_BLOCK, F_DONE };

struct WsState { int index = 0; };

struct Fiber {
    void *sp = nullptr;
    char *stack = nullptr;
    int tid = 0;
    FState state = F_DONE;
    uint64_t steps = 0;
    Team *team = nullptr;
    void *wait_on = nullptr;
    int ws_index = 0;           // number of worksharing constructs entered
    long ordered_chunk = -1;
    long static_trip = 0;
    int64_t prio = 0;
    uintptr_t recent[8]; int rpos = 0;
    void *eh0 = nullptr; unsigned eh1 = 0;
    size_t plan_pos = 0;
    int nest = 0;               // depth of serialised nested regions
    bool worker = false;        // not the thread that entered the outermost region
    bool inactive = false;      // a region of one thread outside any other: regions inside it may have a team
};

struct Work {
    int kind = 0;               // 1 loop, 2 sections, 3 single
    bool up = true;
    long start = 0, end = 0, incr = 1, chunk = 1, next = 0;
    ull ustart = 0, uend = 0, uincr = 1, uchunk = 1, unext = 0;
    bool isull = false, guided = false, isstatic = false, ordered = false;
    long chunk_no = 0, ordered_cur = 0;
    std::unordered_map<int, long> trips;
    int entered = 0, left = 0;
    void *copy = nullptr; bool copy_ready = false;
};

struct Team {
    void (*fn)(void *) = nullptr;
    void *data = nullptr;
    int n = 1;
    int32_t region = 0;
    std::vector<Fiber *> f;
    Fiber *running = nullptr;
    void *main_sp = nullptr;
    int at_barrier = 0;
    uint64_t epoch = 0;
    std::vector<Work *> works;
    uint64_t steps = 0;
    int64_t countdown = 0;
    int strat = 0; double p = 0; int mean = 1;
    std::vector<uint64_t> change;  // PCT
    int64_t low_prio = 0;
    std::vector<Event> *dummy = nullptr;
};

static thread_local Fiber *cur __attribute__((tls_model("initial-exec"))) = nullptr;
static thread_local int serial_nest = 0;     // nested serialised team on main

struct EhGlobals { void *a; unsigned b; };
static EhGlobals *(*eh_get)() = nullptr;
API void sim_register_eh(void *(*f)()) { eh_get = (EhGlobals * (*)()) f; }

extern "C" void sim_swap(void **from, void *to);
asm(R"(
.text
.globl sim_swap
.hidden sim_swap
.type sim_swap,@function
sim_swap:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_swap,.-sim_swap
.globl sim_entry
.hidden sim_entry
.type sim_entry,@function
sim_entry:
    .cfi_startproc
    .cfi_undefined rip
    movq %r12, %rdi
    xorl %ebp, %ebp
    call sim_fiber_main@PLT
    ud2
    .cfi_endproc
.size sim_entry,.-sim_entry
)");
extern "C" void sim_entry();

static const size_t STACK = 1 << 20;
static std::vector<Fiber *> pool;

static Fiber *get_fiber() {
    if (!pool.empty()) { Fiber *f = pool.back(); pool.pop_back(); return f; }
    Fiber *f = new Fiber;
    f->stack = (char *) mmap(nullptr, STACK, PROT_READ | PROT_WRITE,
                             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(f->stack, 4096, PROT_NONE);
    return f;
}

static void prep(Fiber *f, Team *t, int tid) {
    char *stack = f->stack;
    Fiber fresh; *f = fresh; f->stack = stack;
    f->tid = tid; f->worker = tid > 0; f->team = t; f->state = F_RUN;
    memset(f->recent, 0, sizeof f->recent);
    uintptr_t top = ((uintptr_t) stack + STACK) & ~(uintptr_t) 63;
    void **sp = (void **) top;
    *--sp = nullptr;
    *--sp = nullptr;
    *--sp = (void *) sim_entry;         // return address
    *--sp = nullptr;                    // rbp
    *--sp = nullptr;                    // rbx
    *--sp = (void *) f;                 // r12
    *--sp = nullptr; *--sp = nullptr; *--sp = nullptr; // r13-15
    uint32_t mx; uint16_t cw;
    asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw));
    --sp; ((uint32_t *) sp)[0] = mx; ((uint32_t *) sp)[1] = cw;
    f->sp = sp;
}

static void hash_in(uint64_t v) {
    st.sched_hash ^= v + 0x9E3779B97F4A7C15ULL + (st.sched_hash << 6) + (st.sched_hash >> 2);
    st.sched_hash *= 0x100000001B3ULL;
}

static void record(Team *t, int tid, uint64_t step, int kind, int target) {
    hash_in(((uint64_t) t->region << 40) ^ ((uint64_t) (tid + 2) << 32) ^ (step * 4 + kind));
    hash_in(target);
    if (rec.size() < 400000) rec.push_back({t->region, tid, (int64_t) step, kind, target});
}

static void swap_to(Team *t, Fiber *from, Fiber *to) {
    if (eh_get) {
        EhGlobals *g = eh_get();
        if (from) { from->eh0 = g->a; from->eh1 = g->b; }
        if (to) { g->a = to->eh0; g->b = to->eh1; }
    }
    t->running = to;
    cur = to;
    void *sp = to ? to->sp : t->main_sp;
    if (from) sim_swap(&from->sp, sp); else sim_swap(&t->main_sp, sp);
}

// deterministic default for a forced choice: lowest runnable thread number
static Fiber *lowest(Team *t, Fiber *not_this) {
    for (Fiber *f : t->f) if (f->state == F_RUN && f != not_this) return f;
    return nullptr;
}

static Fiber *plan_lookup(Team *t, int tid, uint64_t step, int kind) {
    auto it = plan.find({t->region, tid});
    if (it == plan.end()) return nullptr;
    for (auto &e : it->second)
        if ((uint64_t) e.step == step && e.kind == kind) {
            if (e.target >= 0 && e.target < t->n && t->f[e.target]->state == F_RUN) return t->f[e.target];
            return nullptr;
        }
    return nullptr;
}

static Fiber *pick(Team *t, Fiber *not_this) {
    if (t->strat == S_PCT || t->strat == S_STALL || t->strat == S_RTC) {
        Fiber *b = nullptr;
        for (Fiber *f : t->f) if (f->state == F_RUN && f != not_this && (!b || f->prio > b->prio)) b = f;
        return b;
    }
    int c = 0; for (Fiber *f : t->f) if (f->state == F_RUN && f != not_this) c++;
    if (!c) return nullptr;
    int k = (int) rng.below(c);
    for (Fiber *f : t->f) if (f->state == F_RUN && f != not_this) if (k-- == 0) return f;
    return nullptr;
}

// the current fiber cannot go on (blocked or done): somebody else must
static void forced_switch(Team *t, Fiber *f) {
    Fiber *n;
    if (opt.replay) {
        n = plan_lookup(t, f->tid, f->steps, 1);
        if (!n) n = lowest(t, f);
    } else {
        n = pick(t, f);
    }
    if (!n) {
        bool all_done = true;
        for (Fiber *g : t->f) if (g->state != F_DONE) all_done = false;
        if (!all_done) {
            st.deadlock++;
            fprintf(stderr, "simrt: deadlock in parallel region %d\n", t->region);
            fflush(stderr);
            _exit(97);
        }
        swap_to(t, f, nullptr);
        return;
    }
    st.switches++;
    if (n != lowest(t, f)) record(t, f->tid, f->steps, 1, n->tid);
    else hash_in(f->steps * 7 + f->tid);
    swap_to(t, f, n);
}

static void preempt(Fiber *f, Fiber *n) {
    Team *t = f->team;
    if (!n || n == f) return;
    st.switches++; st.preemptions++;
    record(t, f->tid, f->steps, 0, n->tid);
    swap_to(t, f, n);
}

extern "C" __attribute__((visibility("hidden"))) void sim_fiber_main(Fiber *f) {
    f->team->fn(f->team->data);
    f->state = F_DONE;
    forced_switch(f->team, f);
    abort();
}

static int64_t draw_gap(int mean) {
    if (mean <= 1) return 1;
    // geometric-ish with a heavy tail
    double u = rng.unit();
    int64_t g = 1 + (int64_t) (-(double) mean * __builtin_log(1.0 - u * 0.999999));
    return g < 1 ? 1 : g;
}

// --------------------------------------------------- conflict detection --
struct Cell { uintptr_t a; uint64_t tag; uint64_t rmask, wmask; uintptr_t rpc, wpc; };
static Cell *shadow = nullptr;
static const size_t SHN = 1 << 18;

static void detect_access(Fiber *f, uintptr_t a, bool w, uintptr_t pc) {
    if (!shadow) shadow = (Cell *) mmap(nullptr, SHN * sizeof(Cell), PROT_READ | PROT_WRITE,
                                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    uint64_t tag = ((uint64_t) f->team->region << 20) + f->team->epoch + 1;
    size_t h = (a * 0x9E3779B97F4A7C15ULL) >> 46;
    for (int i = 0; i < 8; i++) {
        Cell &c = shadow[(h + i) & (SHN - 1)];
        if (c.tag != tag) { c.a = a; c.tag = tag; c.rmask = c.wmask = 0; c.rpc = c.wpc = 0; }
        else if (c.a != a) continue;
        uint64_t me = 1ULL << (f->tid & 63);
        bool conf = w ? ((c.rmask | c.wmask) & ~me) : (c.wmask & ~me);
        if (conf) {
            st.conflicts++;
            hot.insert(pc);
            if (c.wpc) hot.insert(c.wpc);
            if (w && c.rpc) hot.insert(c.rpc);
        }
        if (w) { c.wmask |= me; c.wpc = pc; } else { c.rmask |= me; c.rpc = pc; }
        return;
    }
}

// native code that gave up the interpreter lock: other clients may run here
static void (*free_hook)(void) = nullptr;
static int (*gil_held)(void) = nullptr;
static int free_count = 0;
static __attribute__((noinline)) void free_point() {
    if (gil_held && !gil_held()) free_hook();
}

// work done by native code: the clock of a simulated process
static uint64_t work_clock = 0;

// one yield point
static inline __attribute__((always_inline)) void step(const volatile void *addr, bool w, uintptr_t pc) {
    Fiber *f = cur;
    work_clock++;
    if (__builtin_expect(!f, 1)) {
        if (__builtin_expect(free_hook != nullptr, 0) && !serial_nest && (++free_count & 3) == 0) free_point();
        return;
    }
    Team *t = f->team;
    f->steps++; t->steps++; st.steps++;
    if (__builtin_expect(st.steps > opt.step_cap, 0)) {
        fprintf(stderr, "simrt: step cap exceeded in parallel region %d\n", t->region);
        fflush(stderr);
        _exit(98);
    }
    if (opt.replay) {
        auto it = plan.find({t->region, f->tid});
        if (it == plan.end()) return;
        auto &v = it->second;
        while (f->plan_pos < v.size() && ((uint64_t) v[f->plan_pos].step < f->steps ||
               ((uint64_t) v[f->plan_pos].step == f->steps && v[f->plan_pos].kind != 0))) f->plan_pos++;
        if (f->plan_pos < v.size() && (uint64_t) v[f->plan_pos].step == f->steps && v[f->plan_pos].kind == 0) {
            int tg = v[f->plan_pos].target;
            f->plan_pos++;
            if (tg >= 0 && tg < t->n && tg != f->tid && t->f[tg]->state == F_RUN) preempt(f, t->f[tg]);
        }
        return;
    }
    if (opt.detect) detect_access(f, (uintptr_t) addr, w, pc);
    switch (t->strat) {
        case S_RTC: case S_STALL: return;
        case S_RANDOM: case S_DETECT:
            if (--t->countdown <= 0) { t->countdown = draw_gap(t->mean); preempt(f, pick(t, f)); }
            return;
        case S_PCT:
            for (uint64_t c : t->change) if (c == t->steps) {
                f->prio = --t->low_prio;
                preempt(f, pick(t, nullptr));
                return;
            }
            return;
        case S_RMW: {
            uintptr_t a = (uintptr_t) addr;
            if (w) {
                bool seen = false;
                for (int i = 0; i < 8; i++) if (f->recent[i] == a) seen = true;
                if (seen && rng.coin(t->p)) { preempt(f, pick(t, f)); return; }
            } else { f->recent[f->rpos++ & 7] = a; }
            if (--t->countdown <= 0) { t->countdown = draw_gap(t->mean); preempt(f, pick(t, f)); }
            return;
        }
        case S_HOT:
            if (hot.count(pc)) { if (rng.coin(t->p)) preempt(f, pick(t, f)); return; }
            if (--t->countdown <= 0) { t->countdown = draw_gap(t->mean); preempt(f, pick(t, f)); }
            return;
    }
}

#define PC ((uintptr_t) __builtin_return_address(0))

// yield at a runtime call (sync operations)
static void sync_step() { step((void *) &sync_step, true, 1); }

// ---------------------------------------------------------------- regions --
static void run_team(void (*fn)(void *), void *data, unsigned req, Work *first) {
    if (cur && cur->inactive) {
        Fiber *save = cur;
        cur = nullptr;
        run_team(fn, data, req, first);
        cur = save;
        return;
    }
    if (!cur && !serial_nest && req == 1) {        // if(false), num_threads(1)
        Team t; t.fn = fn; t.data = data; t.n = 1;
        Fiber nf; nf.tid = 0; nf.team = &t; nf.state = F_RUN; t.f.push_back(&nf);
        if (first) t.works.push_back(first);
        t.strat = S_RTC; t.running = &nf;
        nf.nest = 1; nf.inactive = true;
        cur = &nf;
        fn(data);
        cur = nullptr;
        for (Work *w : t.works) delete w;
        return;
    }
    if (cur || serial_nest) {                      // nested: one thread
        st.nested++;
        Fiber *f = cur;
        if (f) {
            f->nest++;
            // a nested serial region needs its own worksharing context
            Team *outer = f->team; (void) outer;
        } else serial_nest++;
        // worksharing inside a serialised nested region: give it a private team
        Team t; t.fn = fn; t.data = data; t.n = 1; t.region = f ? f->team->region : 0;
        Fiber nf; nf.tid = 0; nf.team = &t; nf.state = F_RUN; t.f.push_back(&nf);
        if (first) t.works.push_back(first);
        t.strat = S_RTC;
        Fiber *save = cur; cur = &nf; t.running = &nf;
        nf.nest = 1;
        nf.worker = save && save->worker;
        fn(data);
        cur = save;
        for (Work *w : t.works) delete w;
        if (f) f->nest--; else serial_nest--;
        return;
    }
    if (free_hook) free_point();
    struct AtEnd { ~AtEnd() { if (free_hook) free_point(); } } at_end;
    int n = req ? (int) req : (icv_nthreads > 0 ? icv_nthreads : opt.nthreads);
    if (n < 1) n = 1;
    if (n > 512) n = 512;
    int32_t region = region_no++;
    if (opt.replay) {
        auto it = plan_team.find(region);
        if (it != plan_team.end() && it->second < n) { n = it->second; st.short_teams++; }
    } else if (n > 1 && opt.short_team > 0 && rng.coin(opt.short_team)) {
        n = 1 + (int) rng.below(n); st.short_teams++;
    }
    if (team_sizes.size() < 100000) team_sizes.push_back(n);
    st.regions++;
    if ((uint64_t) n > st.max_team) st.max_team = n;
    Team t; t.fn = fn; t.data = data; t.n = n; t.region = region;
    if (first) t.works.push_back(first);
    if (!opt.replay) {
        t.strat = opt.strategy; t.p = opt.p; t.mean = opt.mean;
        if (t.strat == S_MIX) {
            static const int pool_s[] = {S_RTC, S_RANDOM, S_PCT, S_RMW, S_STALL, S_RANDOM};
            t.strat = pool_s[rng.below(6)];
            static const int means[] = {1, 2, 4, 10, 50, 400};
            t.mean = means[rng.below(6)];
            t.p = 0.1 + 0.9 * rng.unit();
        }
        t.countdown = draw_gap(t.mean);
        if (t.strat == S_PCT)
            for (int i = 0; i < opt.depth; i++) t.change.push_back(1 + rng.below(last_len));
    }
    std::vector<int> perm(n);
    for (int i = 0; i < n; i++) perm[i] = i;
    if (!opt.replay) for (int i = n - 1; i > 0; i--) std::swap(perm[i], perm[rng.below(i + 1)]);
    for (int i = 0; i < n; i++) {
        Fiber *f = get_fiber();
        prep(f, &t, i);
        f->prio = 1000 + perm[i];
        t.f.push_back(f);
    }
    if (t.strat == S_STALL) t.f[rng.below(n)]->prio = -1;
    Fiber *n0 = nullptr;
    if (opt.replay) n0 = plan_lookup(&t, -1, 0, 2);
    else n0 = pick(&t, nullptr);
    if (!n0) n0 = t.f[0];
    if (n0 != t.f[0]) record(&t, -1, 0, 2, n0->tid);
    EhGlobals save{nullptr, 0};
    if (eh_get) { save = *eh_get(); }
    swap_to(&t, nullptr, n0);
    cur = nullptr;
    if (eh_get) { *eh_get() = save; }
    last_len = t.steps + 1;
    for (Fiber *f : t.f) pool.push_back(f);
    for (Work *w : t.works) delete w;
}

static void team_barrier(Fiber *f) {
    Team *t = f->team;
    st.barriers++;
    sync_step();
    if (f->nest) return;
    t->at_barrier++;
    if (t->at_barrier == t->n) {
        t->at_barrier = 0; t->epoch++;
        for (Fiber *g : t->f) if (g->state == F_BLOCK && g->wait_on == (void *) &t->at_barrier) { g->state = F_RUN; g->wait_on = nullptr; }
        return;
    }
    f->state = F_BLOCK; f->wait_on = &t->at_barrier; st.blocked++;
    forced_switch(t, f);
}

static void wake(Team *t, void *obj) {
    for (Fiber *g : t->f) if (g->state == F_BLOCK && g->wait_on == obj) { g->state = F_RUN; g->wait_on = nullptr; }
}
static void wait_for(Fiber *f, void *obj) {
    f->state = F_BLOCK; f->wait_on = obj; st.blocked++;
    forced_switch(f->team, f);
}

// --------------------------------------------------------------- locking --
struct SimLock { Fiber *owner; int count; };
static std::unordered_map<void *, SimLock> locks;
static Fiber main_fiber_tag;

static void lock_obj(void *o, bool nest = false) {
    Fiber *f = cur; st.criticals++;
    sync_step();
    Fiber *me = f ? f : &main_fiber_tag;
    for (;;) {
        SimLock &l = locks[o];
        if (!l.count) { l.owner = me; l.count = 1; return; }
        if (nest && l.owner == me) { l.count++; return; }
        if (!f || f->nest) { fprintf(stderr, "simrt: self deadlock on a lock\n"); fflush(stderr); _exit(97); }
        wait_for(f, o);
    }
}
static void unlock_obj(void *o) {
    SimLock &l = locks[o];
    if (l.count && --l.count == 0) { l.owner = nullptr; if (cur) wake(cur->team, o); }
    sync_step();
}

static char g_crit, g_atomic;
API void GOMP_critical_start() { lock_obj(&g_crit); }
API void GOMP_critical_end() { unlock_obj(&g_crit); }
API void GOMP_critical_name_start(void **p) { lock_obj(p); }
API void GOMP_critical_name_end(void **p) { unlock_obj(p); }
API void GOMP_atomic_start() { lock_obj(&g_atomic); }
API void GOMP_atomic_end() { unlock_obj(&g_atomic); }
API void omp_init_lock(void *l) { locks[l] = SimLock{nullptr, 0}; }
API void omp_destroy_lock(void *l) { locks.erase(l); }
API void omp_set_lock(void *l) { lock_obj(l); }
API void omp_unset_lock(void *l) { unlock_obj(l); }
API int omp_test_lock(void *l) { sync_step(); SimLock &s = locks[l]; if (s.count) return 0; s.owner = cur ? cur : &main_fiber_tag; s.count = 1; return 1; }
API void omp_init_nest_lock(void *l) { locks[l] = SimLock{nullptr, 0}; }
API void omp_destroy_nest_lock(void *l) { locks.erase(l); }
API void omp_set_nest_lock(void *l) { lock_obj(l, true); }
API void omp_unset_nest_lock(void *l) { unlock_obj(l); }
API int omp_test_nest_lock(void *l) { sync_step(); SimLock &s = locks[l]; Fiber *me = cur ? cur : &main_fiber_tag; if (s.count && s.owner != me) return 0; s.owner = me; return ++s.count; }

API void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_team(fn, data, n, nullptr); }
API unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) { run_team(fn, data, n, nullptr); return 1; }
API void GOMP_barrier() { if (cur) team_barrier(cur); }
API bool GOMP_barrier_cancel() { if (cur) team_barrier(cur); return false; }
API bool GOMP_cancel(int, bool) { return false; }
API bool GOMP_cancellation_point(int) { return false; }
API void GOMP_taskwait() { sync_step(); }
API void GOMP_taskwait_depend(void **) { sync_step(); }
API void GOMP_taskyield() { sync_step(); }
API void GOMP_taskgroup_start() {}
API void GOMP_taskgroup_end() { sync_step(); }
API void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
    sync_step();
    if (cpy) {
        char *buf = (char *) alloca(size + align);
        char *arg = (char *) (((uintptr_t) buf + align - 1) & ~(uintptr_t) (align - 1));
        cpy(arg, data);
        fn(arg);
    } else fn(data);
}
template <class T> static void taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, T start, T end, T stepv, bool up) {
    char *buf = (char *) alloca(size + align);
    char *arg = (char *) (((uintptr_t) buf + align - 1) & ~(uintptr_t) (align - 1));
    for (T i = start; up ? i < end : i > end; i += stepv) {
        sync_step();
        if (cpy) cpy(arg, data); else memcpy(arg, data, size);
        ((T *) arg)[0] = i; ((T *) arg)[1] = i + stepv;
        fn(arg);
    }
}
API void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned, unsigned long, int, long start, long end, long stepv) {
    taskloop<long>(fn, data, cpy, size, align, start, end, stepv, stepv > 0);
}
API void GOMP_taskloop_ull(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned flags, unsigned long, int, ull start, ull end, ull stepv) {
    taskloop<ull>(fn, data, cpy, size, align, start, end, stepv, (flags & (1 << 8)) != 0);
}

// ----------------------------------------------------------- worksharing --
static Team *solo_team() { static Team t; t.n = 1; return &t; }
static Fiber *here() {
    if (cur) return cur;
    static Fiber solo; solo.team = solo_team(); solo.nest = 1; solo.state = F_RUN;
    if (solo.team->f.empty()) solo.team->f.push_back(&solo);
    return &solo;
}
static Work *enter_ws(Fiber *f, bool &fresh) {
    Team *t = f->team;
    int idx = f->ws_index++;
    fresh = false;
    while ((int) t->works.size() <= idx) t->works.push_back(nullptr);
    if (!t->works[idx]) { t->works[idx] = new Work; fresh = true; }
    t->works[idx]->entered++;
    return t->works[idx];
}
static Work *cur_ws(Fiber *f) {
    if (f->ws_index == 0) { f->ws_index = 1; if (!f->team->works.empty()) f->team->works[0]->entered++; }
    return f->team->works[f->ws_index - 1];
}
static void init_loop(Work *w, long start, long end, long incr, long chunk, bool guided, bool isstatic, bool ordered) {
    w->kind = 1; w->start = start; w->end = end; w->incr = incr; w->chunk = chunk < 1 ? 1 : chunk; w->next = start;
    w->guided = guided; w->isstatic = isstatic; w->ordered = ordered;
    if (isstatic && chunk < 1) w->chunk = 0;
}
static bool grant(Fiber *f, Work *w, long *is, long *ie) {
    long total = w->incr > 0 ? (w->end > w->start ? (w->end - w->start + w->incr - 1) / w->incr : 0)
                             : (w->start > w->end ? (w->start - w->end - w->incr - 1) / -w->incr : 0);
    st.chunks++;
    if (w->isstatic) {
        long n = f->team->n, trip = w->trips[f->tid]++;
        if (w->chunk == 0) {
            if (trip) return false;
            long q = total / n, r = total % n;
            long s = f->tid < r ? f->tid * (q + 1) : r * (q + 1) + (f->tid - r) * q;
            long e = s + q + (f->tid < r ? 1 : 0);
            if (s >= e) return false;
            *is = w->start + s * w->incr; *ie = w->start + e * w->incr; f->ordered_chunk = f->tid; return true;
        }
        long s = (trip * n + f->tid) * w->chunk, e = std::min(total, s + w->chunk);
        if (s >= total) return false;
        *is = w->start + s * w->incr; *ie = w->start + e * w->incr; f->ordered_chunk = trip * n + f->tid; return true;
    }
    long done = w->incr > 0 ? (w->next - w->start) / w->incr : (w->start - w->next) / -w->incr;
    long left = total - done;
    if (left <= 0) return false;
    long c = w->chunk;
    if (w->guided) c = std::max(c, (left + f->team->n - 1) / f->team->n);
    if (c > left) c = left;
    *is = w->next; *ie = w->next + c * w->incr; w->next = *ie;
    f->ordered_chunk = w->chunk_no++;
    return true;
}
static void ordered_release(Fiber *f, Work *w) {
    if (!w->ordered || f->ordered_chunk < 0) return;
    while (w->ordered_cur != f->ordered_chunk && !f->nest) wait_for(f, w);
    w->ordered_cur = f->ordered_chunk + 1; f->ordered_chunk = -1;
    wake(f->team, w);
}
static bool loop_next(long *is, long *ie) {
    Fiber *f = here(); sync_step();
    Work *w = cur_ws(f);
    ordered_release(f, w);
    return grant(f, w, is, ie);
}
static bool loop_start(long s, long e, long i, long c, long *is, long *ie, bool g, bool stc, bool ord) {
    Fiber *f = here(); sync_step();
    bool fresh; Work *w = enter_ws(f, fresh);
    if (fresh) init_loop(w, s, e, i, c, g, stc, ord);
    return grant(f, w, is, ie);
}
static long rt_chunk() { return opt.replay ? 1 : 1 + (long) rng.below(4); }
#define LOOP(NAME, G, ST, ORD) \
API bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *is, long *ie) { return loop_start(s, e, i, c, is, ie, G, ST, ORD); } \
API bool GOMP_loop_##NAME##_next(long *is, long *ie) { return loop_next(is, ie); }
#define LOOPR(NAME, ORD) \
API bool GOMP_loop_##NAME##_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, is, ie, false, false, ORD); } \
API bool GOMP_loop_##NAME##_next(long *is, long *ie) { return loop_next(is, ie); }
LOOP(static, false, true, false) LOOP(dynamic, false, false, false) LOOP(guided, true, false, false)
LOOP(nonmonotonic_dynamic, false, false, false) LOOP(nonmonotonic_guided, true, false, false)
LOOP(ordered_static, false, true, true) LOOP(ordered_dynamic, false, false, true) LOOP(ordered_guided, true, false, true)
LOOPR(runtime, false) LOOPR(nonmonotonic_runtime, false) LOOPR(maybe_nonmonotonic_runtime, false) LOOPR(ordered_runtime, true)
API bool GOMP_loop_start(long s, long e, long i, long sched, long c, long *is, long *ie, uintptr_t *, void **mem) {
    if (mem) { Fiber *f = here(); bool fresh; Work *w = enter_ws(f, fresh);
        if (fresh) { init_loop(w, s, e, i, c, false, (sched & 0xff) == 1, false); w->copy = calloc(1, (size_t) (uintptr_t) *mem + 64); }
        *mem = w->copy; if (!is) return true; return grant(f, w, is, ie); }
    if (!is) { Fiber *f = here(); bool fresh; Work *w = enter_ws(f, fresh); if (fresh) init_loop(w, s, e, i, c, false, true, false); return true; }
    return loop_start(s, e, i, c, is, ie, (sched & 0xff) == 3, (sched & 0xff) == 1, false);
}
API bool GOMP_loop_ordered_start(long s, long e, long i, long sched, long c, long *is, long *ie, uintptr_t *, void **) {
    return loop_start(s, e, i, c, is, ie, (sched & 0xff) == 3, (sched & 0xff) == 1, true);
}
static void leave_ws() { Fiber *f = here(); if (f->ws_index > 0 && (int) f->team->works.size() >= f->ws_index) { Work *w = f->team->works[f->ws_index - 1]; if (w) ordered_release(f, w); }
    if (!cur) { for (Work *w : f->team->works) delete w; f->team->works.clear(); f->ws_index = 0; } }
API void GOMP_loop_end() { leave_ws(); if (cur) team_barrier(cur); }
API void GOMP_loop_end_nowait() { leave_ws(); }
API bool GOMP_loop_end_cancel() { leave_ws(); if (cur) team_barrier(cur); return false; }
API void GOMP_workshare_task_reduction_unregister(bool) { if (cur) team_barrier(cur); }

// unsigned long long loops (mapped on the same machinery, iteration space as longs)
static bool uloop_start(bool up, ull s, ull e, ull i, ull c, ull *is, ull *ie, bool g, bool stc, bool ord) {
    return loop_start((long) s, (long) e, (long) i, (long) c, (long *) is, (long *) ie, g, stc, ord); (void) up;
}
#define ULOOP(NAME, G, ST, ORD) \
API bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull *is, ull *ie) { return uloop_start(up, s, e, i, c, is, ie, G, ST, ORD); } \
API bool GOMP_loop_ull_##NAME##_next(ull *is, ull *ie) { return loop_next((long *) is, (long *) ie); }
#define ULOOPR(NAME, ORD) \
API bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull *is, ull *ie) { return uloop_start(up, s, e, i, 1, is, ie, false, false, ORD); } \
API bool GOMP_loop_ull_##NAME##_next(ull *is, ull *ie) { return loop_next((long *) is, (long *) ie); }
ULOOP(static, false, true, false) ULOOP(dynamic, false, false, false) ULOOP(guided, true, false, false)
ULOOP(nonmonotonic_dynamic, false, false, false) ULOOP(nonmonotonic_guided, true, false, false)
ULOOP(ordered_static, false, true, true) ULOOP(ordered_dynamic, false, false, true) ULOOP(ordered_guided, true, false, true)
ULOOPR(runtime, false) ULOOPR(nonmonotonic_runtime, false) ULOOPR(maybe_nonmonotonic_runtime, false) ULOOPR(ordered_runtime, true)

#define PLOOP(NAME, G, ST) \
API void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned) { \
    Work *w = new Work; init_loop(w, s, e, i, c, G, ST, false); run_team(fn, data, n, w); }
#define PLOOPR(NAME) \
API void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned) { \
    Work *w = new Work; init_loop(w, s, e, i, rt_chunk(), false, false, false); run_team(fn, data, n, w); }
PLOOP(static, false, true) PLOOP(dynamic, false, false) PLOOP(guided, true, false)
PLOOP(nonmonotonic_dynamic, false, false) PLOOP(nonmonotonic_guided, true, false)
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)

API void GOMP_ordered_start() {
    Fiber *f = here(); sync_step(); Work *w = cur_ws(f);
    while (w->ordered && w->ordered_cur != f->ordered_chunk && !f->nest) wait_for(f, w);
}
API void GOMP_ordered_end() { sync_step(); }

API bool GOMP_single_start() { Fiber *f = here(); sync_step(); bool fresh; Work *w = enter_ws(f, fresh); (void) w; if (!cur) leave_ws(); return fresh; }
API void *GOMP_single_copy_start() {
    Fiber *f = here(); sync_step(); bool fresh; Work *w = enter_ws(f, fresh);
    if (fresh) return nullptr;
    while (!w->copy_ready) wait_for(f, w);
    return w->copy;
}
API void GOMP_single_copy_end(void *p) { Fiber *f = here(); Work *w = cur_ws(f); w->copy = p; w->copy_ready = true; wake(f->team, w); if (cur) team_barrier(cur); }
API void GOMP_scope_start(uintptr_t *) {}
static unsigned sec_next(Work *w) { st.chunks++; return w->next < w->end ? (unsigned) ++w->next : 0; }
API unsigned GOMP_sections_start(unsigned count) { Fiber *f = here(); sync_step(); bool fresh; Work *w = enter_ws(f, fresh); if (fresh) { w->kind = 2; w->end = count; } return sec_next(w); }
API unsigned GOMP_sections2_start(unsigned count, uintptr_t *, void **mem) { if (mem) *mem = nullptr; return GOMP_sections_start(count); }
API unsigned GOMP_sections_next() { Fiber *f = here(); sync_step(); return sec_next(cur_ws(f)); }
API void GOMP_sections_end() { leave_ws(); if (cur) team_barrier(cur); }
API bool GOMP_sections_end_cancel() { leave_ws(); if (cur) team_barrier(cur); return false; }
API void GOMP_sections_end_nowait() { leave_ws(); }
API void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned) {
    Work *w = new Work; w->kind = 2; w->end = count; run_team(fn, data, n, w);
}
API void *GOMP_alloc(size_t align, size_t size, uintptr_t) { return aligned_alloc(align < 16 ? 16 : align, (size + align + 15) & ~(size_t) 15); }
API void GOMP_free(void *p, uintptr_t) { free(p); }

// ------------------------------------------------------------------ omp_* --
API int omp_get_num_threads() { sync_step(); return cur && !0 ? cur->team->n : 1; }
API int omp_get_thread_num() { sync_step(); return cur ? cur->tid : 0; }
API int omp_get_max_threads() { return icv_nthreads > 0 ? icv_nthreads : opt.nthreads; }
API int omp_get_num_procs() { return opt.nthreads; }
API int omp_in_parallel() { return cur != nullptr; }
API void omp_set_num_threads(int n) { icv_nthreads = n > 0 ? n : 1; }
API void omp_set_dynamic(int) {}
API int omp_get_dynamic() { return 0; }
API void omp_set_nested(int) {}
API int omp_get_nested() { return 0; }
API void omp_set_max_active_levels(int) {}
API int omp_get_max_active_levels() { return 1; }
API int omp_get_level() { return cur ? 1 : 0; }
API int omp_get_active_level() { return cur ? 1 : 0; }
API int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : omp_get_thread_num(); }
API int omp_get_team_size(int l) { return l == 0 ? 1 : omp_get_num_threads(); }
API int omp_get_thread_limit() { return 512; }
API double omp_get_wtime() { return (double) st.steps * 1e-9; }
API double omp_get_wtick() { return 1e-9; }
API void omp_set_schedule(int, int) {}
API void omp_get_schedule(int *k, int *c) { *k = 2; *c = 1; }
API int omp_get_cancellation() { return 0; }
API int omp_in_final() { return 0; }
API int omp_get_num_teams() { return 1; }
API int omp_get_team_num() { return 0; }
API int omp_get_num_devices() { return 0; }
API int omp_get_default_device() { return 0; }
API int omp_is_initial_device() { return 1; }
API int omp_get_proc_bind() { return 0; }
API int omp_get_num_places() { return 0; }

// -------------------------------------------------------------- tsan API --
API void __tsan_init() {}
API void __tsan_func_entry(void *) {}
API void __tsan_func_exit() {}
static int guard_on = 0;
static void guard_slow(const void *a, size_t n, bool w);
static inline void guard(const void *a, size_t n, bool w) { if (__builtin_expect(guard_on, 0)) guard_slow(a, n, w); }
#define RW(N) \
API void __tsan_read##N(void *a) { guard(a, N, false); step(a, false, PC); } \
API void __tsan_write##N(void *a) { guard(a, N, true); step(a, true, PC); } \
API void __tsan_unaligned_read##N(void *a) { guard(a, N, false); step(a, false, PC); } \
API void __tsan_unaligned_write##N(void *a) { guard(a, N, true); step(a, true, PC); } \
API void __tsan_volatile_read##N(void *a) { guard(a, N, false); step(a, false, PC); } \
API void __tsan_volatile_write##N(void *a) { guard(a, N, true); step(a, true, PC); } \
API void __tsan_unaligned_volatile_read##N(void *a) { guard(a, N, false); step(a, false, PC); } \
API void __tsan_unaligned_volatile_write##N(void *a) { guard(a, N, true); step(a, true, PC); } \
API void __tsan_read##N##_pc(void *a, void *pc) { guard(a, N, false); step(a, false, (uintptr_t) pc); } \
API void __tsan_write##N##_pc(void *a, void *pc) { guard(a, N, true); step(a, true, (uintptr_t) pc); } \
API void __tsan_read_write##N(void *a) { guard(a, N, true); step(a, false, PC); step(a, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
API void __tsan_read_range(void *a, long n) { guard(a, n, false); step(a, false, PC); }
API void __tsan_write_range(void *a, long n) { guard(a, n, true); step(a, true, PC); }
API void __tsan_vptr_update(void **a, void *) { step(a, true, PC); }
API void __tsan_vptr_read(void **a) { step(a, false, PC); }
API void __tsan_acquire(void *) {}
API void __tsan_release(void *) {}
API void __tsan_ignore_thread_begin() {}
API void __tsan_ignore_thread_end() {}
API void __tsan_atomic_thread_fence(int) { sync_step(); }
API void __tsan_atomic_signal_fence(int) {}
#define AT(N, T) \
API T __tsan_atomic##N##_load(const volatile T *a, int) { guard((const void *) a, N / 8, false); step(a, false, PC); return *a; } \
API void __tsan_atomic##N##_store(volatile T *a, T v, int) { guard((const void *) a, N / 8, true); step(a, true, PC); *a = v; } \
API T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { guard((const void *) a, N / 8, true); step(a, true, PC); T o = *a; *a = v; return o; } \
API T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { guard((const void *) a, N / 8, true); step(a, true, PC); T o = *a; *a = o + v; return o; } \
API T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { guard((const void *) a, N / 8, true); step(a, true, PC); T o = *a; *a = o - v; return o; } \
API T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { step(a, true, PC); T o = *a; *a = o & v; return o; } \
API T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { step(a, true, PC); T o = *a; *a = o | v; return o; } \
API T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { step(a, true, PC); T o = *a; *a = o ^ v; return o; } \
API T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { step(a, true, PC); T o = *a; *a = ~(o & v); return o; } \
API bool __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { guard((const void *) a, N / 8, true); step(a, true, PC); T o = *a; if (o == *c) { *a = v; return true; } *c = o; return false; } \
API bool __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { guard((const void *) a, N / 8, true); step(a, true, PC); T o = *a; if (o == *c) { *a = v; return true; } *c = o; return false; } \
API T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int, int) { step(a, true, PC); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, __uint128_t)

// ------------------------------------------------------------- allocator --
struct Head { uint64_t magic; uint64_t size; uint64_t kind_seq; Head *next; uint64_t canary[4]; };  // 64 bytes
static_assert(sizeof(Head) == 64, "head");
static const uint64_t MAGIC = 0x51AB1EB10C5EED01ULL, FREED = 0xDEADF1EE5EED0002ULL;
static const size_t TAIL = 256;
enum { K_NEW = 0, K_ARR = 1, K_MALLOC = 2, K_NP = 3 };

static std::mutex alloc_mx;
static std::unordered_set<void *> *live = nullptr;
static uint64_t live_count[4], live_bytes[4], alloc_seq = 0;
static std::deque<Head *> *quarantine = nullptr;
static size_t quarantine_bytes = 0;
static uint64_t corrupt_count = 0; static char corrupt_msg[256];
// fault plan
static int64_t fail_at = -1; static int64_t fail_span = 1; static int64_t elig = 0; static unsigned fail_mask = 0; static uint64_t fail_min = 0;
static int counting = 0; static uint64_t max_bytes = 0;

static void corrupt(const char *what, Head *h) {
    if (!corrupt_count++) snprintf(corrupt_msg, sizeof corrupt_msg, "%s (block of %llu bytes, kind %d)", what,
                                   h ? (ull) h->size : 0ULL, h ? (int) (h->kind_seq & 3) : -1);
}

static uint64_t junk_word(uint64_t i) {
    switch (opt.junk) {
        case 0: return 0xA5A5A5A5A5A5A5A5ULL;
        case 1: return 0x7FF8DEAD7FF8DEADULL;                 // NaN as double and as float
        case 2: return 0x47EFFFFF47EFFFFFULL;                 // large finite as double / float
        case 3: return 0;                                     // zeroes
        case 4: return 0x3FF000003F800000ULL ^ (i & 7);       // around one
        default: { uint64_t z = (i + opt.seed) * 0x9E3779B97F4A7C15ULL; return z ^ (z >> 29); }
    }
}
static void fill_junk(char *p, size_t n) {
    size_t w = n / 8; uint64_t *q = (uint64_t *) p;
    for (size_t i = 0; i < w; i++) q[i] = junk_word(i);
    for (size_t i = w * 8; i < n; i++) p[i] = (char) (junk_word(i) & 0xff);
}
static void set_fence(char *p, size_t n) { // junk words, so that an overread sees junk
    for (size_t i = 0; i < n; i += 8) { uint64_t w = junk_word(i / 8); memcpy(p + i, &w, 8); }
}
static bool ok_fence(const char *p, size_t n, int junk_save) {
    int j = opt.junk; opt.junk = junk_save; bool ok = true;
    for (size_t i = 0; i < n && ok; i += 8) { uint64_t w = junk_word(i / 8); if (memcmp(p + i, &w, 8)) ok = false; }
    opt.junk = j; return ok;
}

static bool check_block(Head *h) {
    int js = (int) ((h->kind_seq >> 2) & 7);
    if (js > 4) return true;   // seed dependent junk fences are checked only within a run
    return ok_fence((char *) h->canary, sizeof h->canary, js) && ok_fence((char *) (h + 1) + h->size, TAIL, js);
}

static std::map<uintptr_t, Head *> *blocks = nullptr;
static Head *last_hit = nullptr;
static void drain(size_t limit) {
    while (quarantine_bytes > limit && !quarantine->empty()) {
        Head *h = quarantine->front(); quarantine->pop_front();
        quarantine_bytes -= h->size;
        const uint64_t *q = (const uint64_t *) (h + 1);
        for (size_t i = 0; i < h->size / 8; i++) if (q[i] != 0xDDDDDDDDDDDDDDDDULL) { corrupt("write after free", h); break; }
        if (guard_on) blocks->erase((uintptr_t) h);
        if (last_hit == h) last_hit = nullptr;
        ::free(h);
    }
}

// every block, live or quarantined, by address of its header (guard mode)
static uint64_t guard_hits = 0;
API void sim_guard(int on) { std::lock_guard<std::mutex> g(alloc_mx); if (!blocks) blocks = new std::map<uintptr_t, Head *>; guard_on = on; }
static void guard_slow(const void *p, size_t n, bool w) {
    uintptr_t a = (uintptr_t) p;
    if (!n) return;
    guard_hits++;
    Head *h = last_hit;
    if (h && h->magic == MAGIC && a >= (uintptr_t) (h + 1) && a + n <= (uintptr_t) (h + 1) + h->size) return;
    std::lock_guard<std::mutex> g(alloc_mx);
    auto it = blocks->upper_bound(a);
    if (it == blocks->begin()) return;
    --it;
    h = it->second;
    uintptr_t d = (uintptr_t) (h + 1);
    if (a >= d + h->size + TAIL) return;
    if (h->magic == FREED) { corrupt(w ? "write after free" : "read after free", h); return; }
    if (a < d || a + n > d + h->size) { corrupt(w ? "write outside the block" : "read outside the block", h); return; }
    last_hit = h;
}
API void sim_guard_range(const void *a, size_t n, int w) { guard(a, n, w); }
API void sim_touch(const void *a, int w) { step((void *) a, w, PC); }
API uint64_t sim_guard_count() { return guard_hits; }

// an allocation done elsewhere (by the interpreter for the extension)
API int sim_alloc_refused(int kind) {
    std::lock_guard<std::mutex> g(alloc_mx);
    if (!counting || !(fail_mask >> kind & 1)) return 0;
    int64_t k = elig++;
    if (fail_at >= 0 && k >= fail_at && k < fail_at + fail_span) { st.alloc_fail++; return 1; }
    return 0;
}
API void *sim_alloc(size_t size, int kind, int zero) {
    std::lock_guard<std::mutex> g(alloc_mx);
    if (!live) { live = new std::unordered_set<void *>; quarantine = new std::deque<Head *>; }
    if (counting && (fail_mask >> kind & 1) && (kind != K_NEW || size >= fail_min)) {
        int64_t k = elig++;
        if (fail_at >= 0 && k >= fail_at && k < fail_at + fail_span) { st.alloc_fail++; return nullptr; }
        if (max_bytes && size > max_bytes) { st.alloc_fail++; return nullptr; }
    }
    if (size > (1ULL << 33)) return nullptr;
    Head *h = (Head *) ::malloc(sizeof(Head) + size + TAIL);
    if (!h) return nullptr;
    int junk = opt.junk > 4 ? 0 : opt.junk;
    int save = opt.junk; 
    h->magic = MAGIC; h->size = size; h->kind_seq = (uint64_t) kind | ((uint64_t) junk << 2) | (++alloc_seq << 8); h->next = nullptr;
    if (zero) memset(h + 1, 0, size); else fill_junk((char *) (h + 1), size);
    opt.junk = junk;
    set_fence((char *) h->canary, sizeof h->canary);
    set_fence((char *) (h + 1) + size, TAIL);
    opt.junk = save;
    live->insert(h + 1);
    if (guard_on) (*blocks)[(uintptr_t) h] = h;
    live_count[kind]++; live_bytes[kind] += size;
    st.allocs++; st.alloc_bytes += size;
    if (kind == K_NP) st.np_allocs++;
    return h + 1;
}

// returns 1 if the block was ours
API int sim_free(void *p, int kind) {
    if (!p) return 1;
    std::lock_guard<std::mutex> g(alloc_mx);
    Head *h = (Head *) p - 1;
    if (!live || !live->count(p)) {
        if (quarantine) for (Head *q : *quarantine) if (q == h) { corrupt("double free", h); return 1; }
        return 0;
    }
    int k = (int) (h->kind_seq & 3);
    if (k != kind && !(kind < 0)) corrupt("mismatched deallocation (new/new[]/malloc)", h);
    if (h->magic != MAGIC) corrupt("header overwritten", h);
    if (!check_block(h)) corrupt("write outside the block", h);
    live->erase(p);
    live_count[k]--; live_bytes[k] -= h->size;
    memset(h + 1, 0xDD, h->size);
    h->magic = FREED;
    quarantine->push_back(h); quarantine_bytes += h->size;
    drain(8u << 20);
    return 1;
}
API size_t sim_size(void *p) {
    std::lock_guard<std::mutex> g(alloc_mx);
    if (!live || !live->count(p)) return (size_t) -1;
    return ((Head *) p - 1)->size;
}
// scan every live block and the quarantine
API uint64_t sim_heap_check() {
    std::lock_guard<std::mutex> g(alloc_mx);
    if (!live) return 0;
    for (void *p : *live) { Head *h = (Head *) p - 1; if (h->magic != MAGIC) corrupt("header overwritten", nullptr); else if (!check_block(h)) corrupt("write outside the block", h); }
    drain(0);
    return corrupt_count;
}
API const char *sim_corrupt_msg() { return corrupt_msg; }
API void sim_corrupt_reset() { corrupt_count = 0; corrupt_msg[0] = 0; }
API uint64_t sim_corrupt_count() { return corrupt_count; }
API uint64_t sim_live(int kind, int bytes) { return bytes ? live_bytes[kind] : live_count[kind]; }
API void sim_alloc_plan(int on, long long at, long long span, unsigned mask, unsigned long long min_size) {
    std::lock_guard<std::mutex> g(alloc_mx);
    counting = on; fail_at = at; fail_span = span; elig = 0; fail_mask = mask; fail_min = min_size; max_bytes = 0;
}
API void sim_alloc_cap(unsigned long long cap) { max_bytes = cap; }
API void sim_alloc_pause(int on) { counting = on; }
API long long sim_alloc_eligible() { return elig; }

// ------------------------------------------------------------ control API --
API void sim_begin(uint64_t seed, int strategy, double p, int mean, int depth, int nthreads, double short_team, int replay, int junk) {
    opt.seed = seed; opt.strategy = strategy; opt.p = p; opt.mean = mean; opt.depth = depth; opt.nthreads = nthreads;
    opt.short_team = short_team; opt.replay = replay; opt.junk = junk; opt.detect = 0;
    rng.s = seed * 0xD1342543DE82EF95ULL + 0x2545F4914F6CDD1DULL; rng.next();
    memset(&st, 0, sizeof st);
    st.sched_hash = 1469598103934665603ULL;
    rec.clear(); team_sizes.clear(); region_no = 0; hot.clear(); icv_nthreads = 0; last_len = 1000;
    if (!replay) { plan.clear(); plan_team.clear(); }
    active = true;
}
API void sim_set_strategy(int s, double p, int mean) { opt.strategy = s; opt.p = p; opt.mean = mean; }
API void sim_set_detect(int on) { opt.detect = on; }
API void sim_set_step_cap(uint64_t c) { opt.step_cap = c; }
API uint64_t sim_hot_count() { return hot.size(); }
API void sim_stats(uint64_t *out) { st.hot_pcs = hot.size(); memcpy(out, &st, sizeof st); }
API int sim_stats_words() { return sizeof(Stats) / 8; }
API size_t sim_rec_count() { return rec.size(); }
API void sim_rec_get(int32_t *out) { // region,tid,step,kind,target
    for (size_t i = 0; i < rec.size(); i++) { int32_t *o = out + 5 * i; o[0] = rec[i].region; o[1] = rec[i].tid; o[2] = (int32_t) rec[i].step; o[3] = rec[i].kind; o[4] = rec[i].target; }
}
API size_t sim_team_count() { return team_sizes.size(); }
API void sim_team_get(int32_t *out) { memcpy(out, team_sizes.data(), team_sizes.size() * 4); }
API void sim_plan_clear() { plan.clear(); plan_team.clear(); }
API void sim_plan_add(int region, int tid, long long stepv, int kind, int target) { plan[{region, tid}].push_back({region, tid, stepv, kind, target}); }
API void sim_plan_team(int region, int n) { plan_team[region] = n; }
API int sim_on_worker() { return cur && cur->worker; }
API int sim_thread_num() { return cur ? cur->tid : -1; }
API int sim_region() { return region_no; }
API uint64_t sim_clock() { return work_clock; }
API uint64_t sim_steps() { return st.steps; }
API void sim_on_free(void (*fn)(void), void *held) { free_hook = fn; gil_held = (int (*)(void)) held; free_count = 0; }
