// An OpenMP run-time for checking thread schedules.
//
// All OpenMP threads of a process are fibers of its main thread; only one runs
// at a time, and a seeded scheduler decides at every parallel region, barrier,
// work-sharing chunk and critical section, and (through -fsanitize=thread
// instrumentation, whose hooks are implemented here) between single memory
// accesses, which one goes on.  Iterations of dynamic loops are handed to
// whichever thread asks first, so the schedule also decides the assignment.
//
// VOMP_SEED=n    schedule (0: first runnable thread, no preemption)
// VOMP_REC=file  record, per phase of a parallel region (the code between two
//                barriers), which tasks read and wrote each cell of the
//                variables' storage.  A task is a thread's own part of the
//                phase or one chunk of a dynamic loop.  One JSON line a phase:
//                the distinct combinations of readers and writers of a cell.
// VOMP_STAT=1    print counts at exit (stderr).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <climits>
#include <errno.h>
#include <unistd.h>
#include <sched.h>
#include <time.h>
#include <ucontext.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/mman.h>
#include <algorithm>
#include <array>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
using namespace std;
extern "C" { extern char *vnap_lo, *vnap_hi; } // set by vmpi.cpp

namespace {
typedef void (*Fn)(void*);

// ---- Storage blocks and footprints. ----
struct Block { uintptr_t lo, hi; int id; };
vector<Block> blocks;          // registered storage, sorted by address
int nblocks = 0;
// The variables' own storage, as opposed to what belongs to a thread: there,
// chunks a thread runs one after the other count as concurrent, because they
// might as well have gone to different threads.
vector<pair<uintptr_t, uintptr_t>> shared_;
bool is_shared(uintptr_t a) { for (auto& s : shared_) if (a >= s.first && a < s.second) return true; return false; }
FILE* rec = nullptr;
const int GRAN = 4;

struct Foot {
    int tid = 0;
    map<int, vector<uint8_t>> m;   // block -> per granule: 1 read, 2 written
    bool empty() const { return m.empty(); }
    void add(const Block& b, uintptr_t a, size_t n, int mode) {
        auto& v = m[b.id];
        if (v.empty()) v.resize((b.hi - b.lo) / GRAN + 1);
        size_t g0 = (a - b.lo) / GRAN, g1 = (min(a + n, b.hi) - 1 - b.lo) / GRAN;
        for (size_t g = g0; g <= g1; g++) v[g] |= mode;
    }
    void merge(const Foot& o) {
        for (auto& kv : o.m) {
            auto& v = m[kv.first];
            if (v.size() < kv.second.size()) v.resize(kv.second.size());
            for (size_t i = 0; i < kv.second.size(); i++) v[i] |= kv.second[i];
        }
    }
};
typedef shared_ptr<Foot> FootP;

// ---- Threads and teams. ----
struct Loop { long next, end, incr, chunk; bool inited; int left; };
struct Team;
struct Thr {
    ucontext_t ctx;
    char* stk = nullptr; size_t stksz = 0;
    Team* team = nullptr; int tid = 0;
    int icv = 0;             // nthreads-var
    int level = 0, alevel = 0;
    Thr* parent = nullptr;
    enum { RUN, WAIT, BARR, DONE } st = RUN;
    long loopn = 0; Loop* loop = nullptr; long singn = 0;
    int crit = 0;
    double prio = 0;
    FootP own, cur;
    Fn fn = nullptr; void* data = nullptr;
};
struct Team {
    int n; Thr* parent; vector<Thr*> thr; int waiting = 0, left;
    map<long, Loop> loops; long singles = 0;
    vector<FootP> foots; int phase = 0; long id;
    int lazy = -1;           // a thread that is kept waiting as long as possible
    Fn loopfn = nullptr; Loop pre;
};

thread_local bool is_main = false;
Thr root, *me = &root;
vector<Thr*> alive;        // fibers that are not done (without root)
vector<char*> stacks;
const size_t STK = 1 << 20;
int max_levels = INT_MAX;
int def_threads = 4;

// ---- The schedule. ----
unsigned seed = 0; int mode = 0;
uint64_t rng = 88172645463325252ull;
inline uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
inline uint64_t rnd(uint64_t n) { return (rnd() >> 11) % n; }
long budget = LONG_MAX, mean = 0;
long n_switch = 0, n_pre = 0, n_reg = 0, n_ph = 0, n_acc = 0;
inline void rebudget() {
    budget = mean ? 1 + long(-log((rnd(1 << 20) + 1.0) / (1 << 20)) * mean) : LONG_MAX;
}
void reseed(unsigned s) {
    seed = s; rng = 88172645463325252ull ^ (uint64_t(s) * 0x9E3779B97F4A7C15ull);
    for (int i = 0; i < 8; i++) rnd();
    // 0 in order, 1 reverse order, 2 random at sync points, 3 + few preemptions,
    // 4 + many preemptions, 5 one thread of each team held back, 6 priorities.
    mode = s ? 1 + (s - 1) % 6 : 0;
    mean = mode == 3 ? 400 : mode == 4 ? 25 : mode == 5 ? 100 : mode == 6 ? 300 : 0;
    rebudget();
}
Thr* pick(Thr* avoid = nullptr) {
    static vector<Thr*> r; r.clear();
    if (root.st == Thr::RUN) r.push_back(&root);
    for (auto t : alive) if (t->st == Thr::RUN) r.push_back(t);
    if (r.empty()) { fprintf(stderr, "vomp: deadlock\n"); _exit(87); }
    if (r.size() == 1) return r[0];
    if (avoid) { auto i = find(r.begin(), r.end(), avoid); if (i != r.end()) r.erase(i); }
    switch (mode) {
    case 0: return r[0];
    case 1: return r.back();
    case 5: {
        static vector<Thr*> q; q.clear();
        for (auto t : r) if (!(t->team && t->team->lazy == t->tid)) q.push_back(t);
        auto& u = q.empty() ? r : q;
        return u[rnd(u.size())]; }
    case 6: {
        Thr* b = r[0];
        for (auto t : r) if (t->prio > b->prio) b = t;
        return b; }
    default: return r[rnd(r.size())];
    }
}
void go(Thr* t) {
    if (t == me) return;
    Thr* o = me; me = t; n_switch++;
    swapcontext(&o->ctx, &t->ctx);
}
inline bool many() { return !alive.empty(); }
void yield_() { if (many() && !me->crit) go(pick()); }
void preempt() {
    rebudget();
    if (!many() || me->crit) return;
    n_pre++;
    if (mode == 6) { me->prio = rnd(1000) - 1000.0; go(pick()); }
    else go(pick(me));
}

// ---- Recording. ----
const Block* blk(uintptr_t a) {
    size_t lo = 0, hi = blocks.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (blocks[m].hi <= a) lo = m + 1; else hi = m; }
    return lo < blocks.size() && blocks[lo].lo <= a ? &blocks[lo] : nullptr;
}
unordered_set<string> seen;
void endphase(Team* tm) {
    tm->phase++;
    if (!rec) return;
    vector<FootP> f;
    for (auto& p : tm->foots) if (!p->empty()) f.push_back(p);
    tm->foots.clear();
    if (f.size() >= 2) {
        // Distinct (readers, writers) of a cell.
        map<pair<vector<int>, vector<int>>, array<long, 2>> cls;
        set<int> bl;
        for (auto& p : f) for (auto& kv : p->m) bl.insert(kv.first);
        vector<int> r, w;
        for (int b : bl) {
            vector<pair<int, const vector<uint8_t>*>> who; size_t n = 0;
            for (size_t i = 0; i < f.size(); i++) { auto it = f[i]->m.find(b); if (it != f[i]->m.end()) { who.push_back({int(i) + 1, &it->second}); n = max(n, it->second.size()); } }
            uintptr_t lo = 0;
            for (auto& q : blocks) if (q.id == b) lo = q.lo;
            for (size_t g = 0; g < n; g++) {
                r.clear(); w.clear();
                bool sh = is_shared(lo + g * GRAN);
                for (auto& q : who) if (g < q.second->size()) {
                    int a = (*q.second)[g], t = q.first;
                    if (!sh) { t = 1; while (f[t - 1]->tid != f[q.first - 1]->tid) t++; }  // the thread's first task
                    if (a & 1 && find(r.begin(), r.end(), t) == r.end()) r.push_back(t);
                    if (a & 2 && find(w.begin(), w.end(), t) == w.end()) w.push_back(t);
                }
                if (r.size() + w.size()) cls.emplace(make_pair(r, w), array<long, 2>{b, (long)g * GRAN});
            }
        }
        auto ls = [](const vector<int>& v) { string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + to_string(v[i]); return s + "]"; };
        string s = "{\"n\":" + to_string(f.size()) + ",\"lv\":" + to_string(tm->thr[0]->level) + ",\"cells\":[", key;
        bool first = true;
        for (auto& kv : cls) {
            key += ls(kv.first.first) + ls(kv.first.second);
            s += string(first ? "" : ",") + "{\"b\":" + to_string(kv.second[0]) + ",\"at\":" + to_string(kv.second[1]) + ",\"r\":" + ls(kv.first.first) + ",\"w\":" + ls(kv.first.second) + "}";
            first = false;
        }
        n_ph++;
        if (seen.insert(key).second) fprintf(rec, "%s]}\n", s.c_str());
    }
    Thr* p = tm->parent;
    if (p->team) { if (!p->cur) p->cur = make_shared<Foot>(); for (auto& q : f) p->cur->merge(*q); }
}
inline void newpart(Thr* t) {
    t->own = t->cur = nullptr;
    if (rec) { t->own = t->cur = make_shared<Foot>(); t->own->tid = t->tid; t->team->foots.push_back(t->own); }
}
// Naps at accesses to memory shared between ranks (VNAP=seed): at the first
// of a sequence of neighboring accesses, i.e., at locks and at the start of a
// buffer, this rank may be held up while the others go on.
static uint64_t nap_x = getenv("VNAP") ? strtoull(getenv("VNAP"), nullptr, 10) * 2654435761ull + 88172645463325252ull : 0;
static int naps_left = 120;
static uintptr_t nap_last = 0, nap_ring[4]; // the last places read: a rank that waits reads a few of them all the time
static bool nap_seeded = false;
void nap_(uintptr_t a, int md) {
    bool jump = a < nap_last || a - nap_last > 48;
    nap_last = a;
    if (!jump || naps_left <= 0) return;
    if (md == 1) {
        for (auto b : nap_ring) if (b == a) return;
        static int k = 0;
        nap_ring[k++ % 4] = a;
    }
    if (!nap_seeded) { nap_seeded = true; nap_x += uint64_t(getpid()) * 0x9E3779B97F4A7C15ull; nap_x |= 1; }
    nap_x ^= nap_x << 13; nap_x ^= nap_x >> 7; nap_x ^= nap_x << 17;
    if ((nap_x >> 20) % 5) return;
    naps_left--;
    usleep((nap_x >> 30) % 3 ? 50 + (nap_x >> 40) % 400 : 1500 + (nap_x >> 40) % 3000);
}
inline void access_(const volatile void* p, size_t n, int md) {
    if (nap_x && (char*)p >= vnap_lo && (char*)p < vnap_hi && is_main) nap_(uintptr_t(p), md);
    if (!is_main) {        // a thread of the user's: really concurrent
        if (blk(uintptr_t(p))) { static thread_local uint64_t x = uint64_t(&x) | 1; x ^= x << 13; x ^= x >> 7; x ^= x << 17; if ((x >> 13) % 4 == 0) sched_yield(); else if ((x >> 13) % 61 == 0) usleep(20); }
        return;
    }
    if (!me->team) return;
    auto a = uintptr_t(p);
    if (a - uintptr_t(me->stk) < me->stksz) return;
    if (rec && n && me->cur && !me->crit) { auto b = blk(a); if (b) { me->cur->add(*b, a, n, md); n_acc++; } }
    if (--budget <= 0) preempt();
}

// ---- Parallel regions. ----
void finish() { // end of a thread of a team: never returns
    Team* tm = me->team;
    me->st = Thr::DONE;
    alive.erase(find(alive.begin(), alive.end(), me));
    if (--tm->left == 0) tm->parent->st = Thr::RUN;
    Thr* t = pick();
    me = t; n_switch++;
    setcontext(&t->ctx);
}
void entry() { me->fn(me->data); finish(); }

void parallel(Fn fn, void* data, unsigned n, const Loop* pre) {
    if (n == 0) n = me->icv ? me->icv : def_threads;
    if (!is_main || me->alevel >= max_levels) n = 1;
    if (!is_main) { fn(data); return; }
    static long ids = 0;
    Team tm; tm.n = n; tm.parent = me; tm.left = n; tm.id = ++ids;
    if (pre) { tm.pre = *pre; tm.loopfn = fn; }
    tm.lazy = rnd(n);
    n_reg++;
    Thr* par = me;
    vector<unique_ptr<Thr>> own;
    for (unsigned i = 0; i < n; i++) {
        own.emplace_back(new Thr);
        Thr* t = own.back().get();
        t->team = &tm; t->tid = i; t->icv = par->icv; t->level = par->level + 1; t->alevel = par->alevel + (n > 1);
        t->parent = par; t->fn = fn; t->data = data; t->prio = rnd(1000);
        tm.thr.push_back(t);
        newpart(t);
        if (pre) { Loop l = *pre; tm.loops.emplace(0, l); t->loopn = 1; t->loop = &tm.loops[0]; }
    }
    if (n == 1) {           // same stack
        Thr* t = tm.thr[0];
        t->stk = par->stk; t->stksz = par->stksz; t->crit = par->crit;
        // It takes its parent's place.
        auto it = find(alive.begin(), alive.end(), par);
        bool inrt = it == alive.end();
        par->st = Thr::WAIT;
        if (inrt) alive.insert(alive.begin(), t); else *it = t;
        me = t;
        fn(data);
        auto j = find(alive.begin(), alive.end(), t);
        if (inrt) alive.erase(j); else *j = par;
        par->st = Thr::RUN; me = par;
    }
    else {
        for (auto t : tm.thr) {
            if (stacks.empty()) stacks.push_back((char*)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
            t->stk = stacks.back(); t->stksz = STK; stacks.pop_back();
            getcontext(&t->ctx);
            t->ctx.uc_stack.ss_sp = t->stk; t->ctx.uc_stack.ss_size = STK; t->ctx.uc_link = nullptr;
            makecontext(&t->ctx, entry, 0);
            alive.push_back(t);
        }
        par->st = Thr::WAIT;
        while (tm.left) go(pick());
        for (auto t : tm.thr) stacks.push_back(t->stk);
    }
    endphase(&tm);
}
void barrier() {
    Team* tm = is_main ? me->team : nullptr;
    if (!tm || tm->n == 1) return;
    if (++tm->waiting == tm->n) {
        tm->waiting = 0;
        endphase(tm);
        for (auto t : tm->thr) { t->st = Thr::RUN; newpart(t); }
        yield_();
    } else {
        me->st = Thr::BARR;
        go(pick());
    }
}
Loop* enter_loop(long s, long e, long inc, long ch) {
    Team* tm = me->team;
    auto& l = tm->loops[me->loopn++];
    if (!l.inited) l = Loop{s, e, inc, ch < 1 ? 1 : ch, true, 0};
    me->loop = &l;
    return &l;
}
bool next_chunk(long* is, long* ie) {
    yield_();
    Loop* l = me->loop;
    if (rec) me->cur = me->own;
    if (l->incr > 0 ? l->next >= l->end : l->next <= l->end) return false;
    *is = l->next;
    long e = l->next + l->chunk * l->incr;
    if (l->incr > 0 ? e > l->end : e < l->end) e = l->end;
    *ie = e; l->next = e;
    if (rec) { me->cur = make_shared<Foot>(); me->cur->tid = me->tid; me->team->foots.push_back(me->cur); }
    return true;
}
bool solo_start(long s, long e, long inc, long* is, long* ie) {
    if (inc > 0 ? s >= e : s <= e) return false;
    *is = s; *ie = e; return true;
}
bool lstart(long s, long e, long inc, long ch, long* is, long* ie) {
    if (!is_main || !me->team) return solo_start(s, e, inc, is, ie);
    enter_loop(s, e, inc, ch);
    return next_chunk(is, ie);
}
bool lnext(long* is, long* ie) {
    if (!is_main || !me->team) return false;
    return next_chunk(is, ie);
}
// Static: each thread's share at once (chunks for an explicit chunk size).
void pre_loop(Fn f, void* d, unsigned n, long s, long e, long inc, long ch) {
    Loop l{s, e, inc, ch < 1 ? 1 : ch, true, 0};
    parallel(f, d, n, &l);
}

struct Init {
    Init() {
        is_main = true;
        // Library code must use real atomic operations (reference counts): it
        // does so from the first thread on.
        pthread_t t;
        if (!pthread_create(&t, nullptr, [](void*) -> void* { return nullptr; }, nullptr)) pthread_join(t, nullptr);
        const char* s = getenv("VOMP_SEED"); reseed(s ? atoi(s) : 0);
        s = getenv("OMP_NUM_THREADS"); if (s && atoi(s) > 0) def_threads = atoi(s);
    }
} init_;
void open_rec() {
    const char* s = getenv("VOMP_REC");
    if (!rec && s) { string f = string(s) + "." + to_string(getpid()); rec = fopen(f.c_str(), "w"); }
}
struct Fini { ~Fini() {
    if (rec) fclose(rec), rec = nullptr;
    if (getenv("VOMP_STAT")) fprintf(stderr, "vomp: %ld regions, %ld phases, %ld switches, %ld preemptions, %ld accesses\n", n_reg, n_ph, n_switch, n_pre, n_acc);
} } fini_;
} // namespace

extern "C" {
void vomp_reseed(unsigned s) { reseed(s); }
void vomp_shared(void* p, size_t n) {
    if (!p) shared_.clear();
    else shared_.push_back({uintptr_t(p), uintptr_t(p) + n});
}

int posix_memalign(void** p, size_t al, size_t n) {
    void* q = memalign(al, n);
    if (!q) return ENOMEM;
    *p = q;
    open_rec();
    if (is_main) {
        uintptr_t lo = uintptr_t(q), hi = lo + n;
        vector<Block> nb;
        for (auto& b : blocks) if (b.hi <= lo || b.lo >= hi) nb.push_back(b);
        nb.push_back({lo, hi, ++nblocks});
        sort(nb.begin(), nb.end(), [](const Block& a, const Block& b) { return a.lo < b.lo; });
        blocks = nb;
    }
    return 0;
}

void __libc_free(void*);
void free(void* p) {
    if (is_main && p)
        for (size_t i = 0; i < blocks.size(); i++)
            if (blocks[i].lo == uintptr_t(p)) { blocks.erase(blocks.begin() + i); break; }
    __libc_free(p);
}

// ---- libgomp's interface. ----
void GOMP_parallel(Fn f, void* d, unsigned n, unsigned) { parallel(f, d, n, nullptr); }
#define LOOPK(K) \
    bool GOMP_loop_##K##_start(long s, long e, long i, long c, long* a, long* b) { return lstart(s, e, i, c, a, b); } \
    bool GOMP_loop_##K##_next(long* a, long* b) { return lnext(a, b); } \
    void GOMP_parallel_loop_##K(Fn f, void* d, unsigned n, long s, long e, long i, long c, unsigned) { pre_loop(f, d, n, s, e, i, c); }
LOOPK(static) LOOPK(dynamic) LOOPK(guided) LOOPK(nonmonotonic_dynamic) LOOPK(nonmonotonic_guided)
#define LOOPR(K) \
    bool GOMP_loop_##K##_start(long s, long e, long i, long* a, long* b) { return lstart(s, e, i, 1, a, b); } \
    bool GOMP_loop_##K##_next(long* a, long* b) { return lnext(a, b); } \
    void GOMP_parallel_loop_##K(Fn f, void* d, unsigned n, long s, long e, long i, unsigned) { pre_loop(f, d, n, s, e, i, 1); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) { }
void GOMP_barrier(void) { barrier(); }
bool GOMP_single_start(void) {
    if (!is_main || !me->team) return true;
    yield_();
    if (me->singn++ == me->team->singles) { me->team->singles++; return true; }
    return false;
}
static map<void*, Thr*> held; static int held_default;
static void lock_(void* k) {
    if (!is_main) return;
    yield_();
    while (held.count(k) && held[k] != me) { go(pick(me)); }
    held[k] = me; me->crit++;
}
static void unlock_(void* k) { if (!is_main) return; held.erase(k); me->crit--; yield_(); }
void GOMP_critical_start(void) { lock_(&held_default); }
void GOMP_critical_end(void) { unlock_(&held_default); }
void GOMP_critical_name_start(void** p) { lock_(p); }
void GOMP_critical_name_end(void** p) { unlock_(p); }
void GOMP_atomic_start(void) { lock_(&held); }
void GOMP_atomic_end(void) { unlock_(&held); }
void GOMP_taskwait(void) { }

int omp_get_level(void) { return is_main ? me->level : 0; }
int omp_get_active_level(void) { return is_main ? me->alevel : 0; }
int omp_in_parallel(void) { return omp_get_active_level() > 0; }
int omp_get_num_threads(void) { return is_main && me->team ? me->team->n : 1; }
int omp_get_thread_num(void) { return is_main ? me->tid : 0; }
int omp_get_max_threads(void) { return is_main && me->icv ? me->icv : def_threads; }
void omp_set_num_threads(int n) { if (is_main) me->icv = n > 0 ? n : 1; }
int omp_get_num_procs(void) { return 8; }
int omp_get_thread_limit(void) { return INT_MAX; }
int omp_get_max_active_levels(void) { return max_levels; }
int omp_get_supported_active_levels(void) { return INT_MAX; }
void omp_set_max_active_levels(int n) { if (n >= 0) max_levels = n; }
void omp_set_nested(int n) { max_levels = n ? INT_MAX : 1; }
int omp_get_nested(void) { return max_levels > 1; }
void omp_set_dynamic(int) { }
int omp_get_dynamic(void) { return 0; }
int omp_get_team_size(int l) { Thr* t = me; while (t && t->level > l) t = t->parent; return t && t->level == l ? (t->team ? t->team->n : 1) : -1; }
int omp_get_ancestor_thread_num(int l) { Thr* t = me; while (t && t->level > l) t = t->parent; return t && t->level == l ? t->tid : -1; }
double omp_get_wtime(void) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
void omp_init_lock(void* p) { }
void omp_destroy_lock(void* p) { }
void omp_set_lock(void* p) { lock_(p); }
void omp_unset_lock(void* p) { unlock_(p); }
int omp_test_lock(void* p) { if (held.count(p)) return 0; lock_(p); return 1; }

// No other thread runs during the initialization of a local static.
static pthread_mutex_t gm = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
int __cxa_guard_acquire(long long* gp) {
    char* g = (char*)gp;
    pthread_mutex_lock(&gm);
    if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) { pthread_mutex_unlock(&gm); return 0; }
    if (is_main) me->crit++;
    return 1;
}
void __cxa_guard_release(long long* gp) { char* g = (char*)gp; __atomic_store_n(g, 1, __ATOMIC_RELEASE); if (is_main) me->crit--; pthread_mutex_unlock(&gm); }
void __cxa_guard_abort(long long* gp) { if (is_main) me->crit--; pthread_mutex_unlock(&gm); }

// ---- The hooks of -fsanitize=thread. ----
void __tsan_init(void) { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit(void) { }
void __tsan_vptr_update(void** p, void*) { access_(p, 8, 2); }
void __tsan_vptr_read(void** p) { access_(p, 8, 1); }
#define RW(N) \
    void __tsan_read##N(void* p) { access_(p, N, 1); } \
    void __tsan_write##N(void* p) { access_(p, N, 2); } \
    void __tsan_unaligned_read##N(const void* p) { access_(p, N, 1); } \
    void __tsan_unaligned_write##N(void* p) { access_(p, N, 2); } \
    void __tsan_volatile_read##N(void* p) { access_(p, N, 1); } \
    void __tsan_volatile_write##N(void* p) { access_(p, N, 2); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, long n) { access_(p, n, 1); }
void __tsan_write_range(void* p, long n) { access_(p, n, 2); }
#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T* p, int) { access_(p, 0, 0); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##B##_store(volatile T* p, T v, int) { access_(p, 0, 0); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { access_(p, 0, 0); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { access_(p, 0, 0); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { access_(p, 0, 0); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { access_(p, 0, 0); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { access_(p, 0, 0); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { access_(p, 0, 0); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { access_(p, 0, 0); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { access_(p, 0, 0); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int, int) { access_(p, 0, 0); __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { }
void __tsan_atomic_signal_fence(int) { }
} // extern "C"
