// A small MPI for checking: the ranks are processes forked before main() that
// share one mapping, and every freedom MPI gives its implementation (when an
// Isend reads its buffer, when an Irecv fills its buffer, which requests a
// Testsome reports, how fast a rank runs) is taken at the choice of a seed.
// It plays the environment of the specification's halo-exchange module.
//
// VMPI_N     number of ranks (default 1)
// VMPI_PPN   ranks per shared-memory node (default: all)
// VMPI_SEED  0: prompt delivery; else adversarial, reproducible choices
// VMPI_TIMEOUT seconds until the run counts as hung (default 60)
//
// It also checks what MPI requires of its user: a buffer handed to Isend is
// not changed, and one handed to Irecv is not written, before completion.
// Violations go to stderr as "VMPI_MISUSE ..." and end the run with code 86.
#include <mpi.h>
#include <atomic>
#include <vector>
#include <deque>
#include <map>
#include <mutex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <sys/syscall.h>
#include <unistd.h>
#include <signal.h>
#include <sched.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
using namespace std;

namespace {
const int MAXR = 16;
const size_t CH_BYTES = size_t(8) << 20;     // per (src,dst) channel.
const size_t ARENA_BYTES = size_t(256) << 20; // per-rank shared-window arena.
const int MAXMSG = 4096;

struct Msg { size_t ofs; size_t bytes; int tag; int taken; int comm; };
struct Chan {                     // single producer, single consumer.
    atomic<long> head;            // messages produced.
    atomic<long> done;            // messages consumed (all before are taken).
    size_t wofs;                  // producer's write offset.
    Msg msgs[MAXMSG];
};
struct Coll { atomic<int> count; atomic<int> sense; };
struct Shared {
    Coll bar[MAXR + 2];           // per comm.
    unsigned char cbuf[MAXR + 2][MAXR][4096];
    Chan ch[MAXR][MAXR];
    atomic<int> aborted;
    atomic<int> winseq;
    struct { size_t size; void* base; } win[256][MAXR];
    size_t abump[MAXR];
};
Shared* G = nullptr;
unsigned char* DATA = nullptr;    // channels' payload.
unsigned char* ARENA = nullptr;
} // namespace
extern "C" { char *vnap_lo = nullptr, *vnap_hi = nullptr; } // for vomp.cpp
namespace {
int N = 1, ME = 0, PPN = 0;
unsigned long SEED = 0, RNG = 0;
bool inited = false, finalized = false;
recursive_mutex MX;
int sense_of[MAXR + 2];
long n_sends = 0, n_recvs = 0, n_bytes = 0, n_deferred = 0, n_spurious = 0, n_pokes = 0;

unsigned long rnd() {
    RNG ^= RNG << 13; RNG ^= RNG >> 7; RNG ^= RNG << 17;
    return RNG;
}
bool chance(int pct) { return SEED && int(rnd() % 100) < pct; }
int mode_delay_send, mode_delay_recv, mode_spurious, mode_slow, mode_poison;

// A communicator is WORLD (0) or the node communicator of a group (1 + group).
int node_of(int r) { return PPN ? r / PPN : 0; }
const MPI_Comm NODE_COMM = MPI_Comm(0x44000777);
const MPI_Group WORLD_GROUP = MPI_Group(0x48000700), NODE_GROUP = MPI_Group(0x48000701);
int comm_id(MPI_Comm c) { return c == NODE_COMM ? 1 + node_of(ME) : 0; }
int comm_size(MPI_Comm c) {
    if (c != NODE_COMM) return N;
    int n = 0; for (int r = 0; r < N; r++) n += node_of(r) == node_of(ME);
    return n;
}
int comm_first(MPI_Comm c) {
    if (c != NODE_COMM) return 0;
    for (int r = 0; r < N; r++) if (node_of(r) == node_of(ME)) return r;
    return 0;
}
int dsize(MPI_Datatype t) { return (int(t) >> 8) & 0xff; }

uint64_t fnv(const void* p, size_t n) {
    auto* b = (const unsigned char*)p; uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
void misuse(const char* what) {
    fprintf(stderr, "VMPI_MISUSE rank %d: %s\n", ME, what);
    fflush(nullptr);
    _exit(86);
}

struct Req {
    bool send; void* buf; size_t bytes; int peer, tag, comm;
    bool delivered = false, complete = false;
    int hold = 0;            // pokes to wait before the transfer may happen.
    int hide = 0;            // Tests for which completion is not reported.
    uint64_t sum = 0;
    size_t got = 0; int src = 0;
};
map<int, Req*> reqs;
vector<int> order;           // request ids in posting order.
int next_req = 1;
MPI_Request handle(int id) { return MPI_Request(0x2c000000 + 0x100000 + id); }
int rid(MPI_Request r) { return int(r) - 0x2c000000 - 0x100000; }

Chan& chan(int s, int d) { return G->ch[s][d]; }
unsigned char* payload(int s, int d) { return DATA + (size_t(s) * MAXR + d) * CH_BYTES; }

void relax() { struct timespec t = { 0, 30000 }; sched_yield(); nanosleep(&t, nullptr); if (G->aborted) _exit(87); }
void slow() {
    if (mode_slow && chance(20)) { struct timespec t = { 0, long(rnd() % (mode_slow == 2 ? 1500000 : 200000)) }; nanosleep(&t, nullptr); }
}

// Sender: move the data out of the user's buffer.
void deliver(Req& q) {
    if (q.delivered) return;
    if (fnv(q.buf, q.bytes) != q.sum) misuse("a buffer passed to Isend was changed before the send completed");
    auto& c = chan(ME, q.peer);
    if (q.bytes > CH_BYTES) misuse("message too large for the checking MPI");
    long h = c.head.load();
    while (h - c.done.load() >= MAXMSG - 1) relax();
    if (c.done.load() == h) c.wofs = 0;
    while (c.wofs + q.bytes > CH_BYTES) { if (c.done.load() == h) { c.wofs = 0; break; } relax(); }
    auto& m = c.msgs[h % MAXMSG];
    m.ofs = c.wofs; m.bytes = q.bytes; m.tag = q.tag; m.taken = 0; m.comm = q.comm;
    memcpy(payload(ME, q.peer) + m.ofs, q.buf, q.bytes);
    c.wofs += (q.bytes + 63) & ~size_t(63);
    c.head.store(h + 1);
    q.delivered = true;
}
bool try_match(Req& q) {
    auto& c = chan(q.peer, ME);
    long h = c.head.load(), d = c.done.load();
    for (long i = d; i < h; i++) {
        auto& m = c.msgs[i % MAXMSG];
        if (m.taken || m.comm != q.comm || (q.tag != MPI_ANY_TAG && m.tag != q.tag)) continue;
        if (m.bytes > q.bytes) misuse("a received message is larger than the receive buffer");
        if (mode_poison && fnv(q.buf, q.bytes) != q.sum) misuse("a buffer passed to Irecv was written before the receive completed");
        memcpy(q.buf, payload(q.peer, ME) + m.ofs, m.bytes);
        q.got = m.bytes; q.src = q.peer; q.tag = m.tag;
        m.taken = 1;
        while (d < h && c.msgs[d % MAXMSG].taken) d++;
        c.done.store(d);
        q.complete = true;
        return true;
    }
    return false;
}
// Progress: all = also perform transfers being held back.
void progress(bool all) {
    // Sends to one peer leave in posting order (MPI's non-overtaking rule).
    bool blocked[MAXR] = {};
    map<pair<int,int>, bool> rblocked;
    for (size_t i = 0; i < order.size(); i++) {
        auto it = reqs.find(order[i]);
        if (it == reqs.end()) continue;
        auto& q = *it->second;
        if (q.send) {
            if (q.delivered) { continue; }
            if (!all && q.hold > 0) { q.hold--; blocked[q.peer] = true; continue; }
            if (!all && blocked[q.peer]) continue;
            deliver(q);
            q.complete = true;
        } else if (!q.complete) {
            auto k = make_pair(q.peer, q.tag);
            if (rblocked[k]) continue;
            if (!all && q.hold > 0) { q.hold--; rblocked[k] = true; continue; }
            if (!try_match(q)) rblocked[k] = true;
        }
    }
}
void fill_status(MPI_Status* s, Req& q) {
    if (s == MPI_STATUS_IGNORE) return;
    memset(s, 0, sizeof *s);
    s->MPI_SOURCE = q.send ? ME : q.src; s->MPI_TAG = q.tag; s->MPI_ERROR = MPI_SUCCESS;
    s->count_lo = int(q.got);
}
void retire(int id) {
    auto it = reqs.find(id);
    if (it == reqs.end()) return;
    auto& q = *it->second;
    if (q.send && fnv(q.buf, q.bytes) != q.sum) misuse("a buffer passed to Isend was changed before the send completed");
    delete it->second; reqs.erase(it);
    for (size_t i = 0; i < order.size(); i++) if (order[i] == id) { order.erase(order.begin() + i); break; }
}
void barrier(MPI_Comm cm) {
    int id = comm_id(cm), n = comm_size(cm);
    if (n == 1) return;
    auto& b = G->bar[id];
    int s = sense_of[id] ^= 1;
    if (b.count.fetch_add(1) == n - 1) { b.count = 0; b.sense = s; }
    else while (b.sense.load() != s) { progress(true); relax(); }
}

void child_setup(int r) {
    ME = r;
    SEED = getenv("VMPI_SEED") ? strtoul(getenv("VMPI_SEED"), nullptr, 10) : 0;
    RNG = (SEED + 1) * 0x9E3779B97F4A7C15ul ^ (unsigned long)(r + 1) * 0xD1B54A32D192ED03ul;
    if (!RNG) RNG = 1;
    for (int i = 0; i < 8; i++) rnd();
    unsigned long m = SEED * 2654435761ul >> 7;      // the same modes on all ranks.
    mode_poison = SEED != 0;
    mode_delay_send = SEED ? (m & 1) * 3 : 0;
    mode_delay_recv = SEED ? ((m >> 1) & 1) * 3 : 0;
    mode_spurious = SEED ? ((m >> 2) & 1) : 0;
    mode_slow = SEED ? ((m >> 3) & 3) : 0;
    if (mode_slow == 3) mode_slow = (r == int((m >> 5) % N)) ? 2 : 0;   // one slow rank.
}

__attribute__((constructor(101))) void launch() {
    const char* e = getenv("VMPI_N");
    N = e ? atoi(e) : 1;
    if (N < 1) N = 1;
    if (N > MAXR) { fprintf(stderr, "VMPI_N too large\n"); _exit(9); }
    e = getenv("VMPI_PPN"); PPN = e ? atoi(e) : 0;
    size_t z = sizeof(Shared);
    int fl = MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE;
    G = (Shared*)mmap(nullptr, z, PROT_READ | PROT_WRITE, fl, -1, 0);
    DATA = (unsigned char*)mmap(nullptr, CH_BYTES * MAXR * MAXR, PROT_READ | PROT_WRITE, fl, -1, 0);
    ARENA = (unsigned char*)mmap(nullptr, ARENA_BYTES * N, PROT_READ | PROT_WRITE, fl, -1, 0);
    if (G == MAP_FAILED || DATA == MAP_FAILED || ARENA == MAP_FAILED) { perror("vmpi mmap"); _exit(9); }
    vnap_lo = (char*)ARENA; vnap_hi = vnap_lo + ARENA_BYTES * N;
    if (N == 1 && !getenv("VMPI_TIMEOUT")) { child_setup(0); return; }
    pid_t pids[MAXR];
    fflush(nullptr);
    for (int r = 0; r < N; r++) {
        pids[r] = fork();
        if (pids[r] < 0) { perror("vmpi fork"); _exit(9); }
        if (pids[r] == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); child_setup(r); return; }
    }
    double limit = getenv("VMPI_TIMEOUT") ? atof(getenv("VMPI_TIMEOUT")) : 60;
    struct timespec t0, t1; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
    int left = N, rc = 0; double dead_since = -1;
    while (left) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
        double now = t1.tv_sec - t0.tv_sec + 1e-9 * (t1.tv_nsec - t0.tv_nsec);
        if (p > 0) {
            for (int r = 0; r < N; r++) if (pids[r] == p) { pids[r] = 0; left--; }
            int c = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
            if (c && (!rc || rc == 87)) rc = c;
            if (c && dead_since < 0) { dead_since = now; }
            continue;
        }
        if (dead_since >= 0 && now > dead_since + 0.5) { G->aborted = 1; if (now > dead_since + 1.0) { for (int r = 0; r < N; r++) if (pids[r]) kill(pids[r], SIGKILL); } }
        if (now > limit) {
            fprintf(stderr, "VMPI_HANG after %g s\n", limit);
            for (int r = 0; r < N; r++) if (pids[r]) kill(pids[r], SIGKILL);
            while (waitpid(-1, &st, 0) > 0);
            _exit(124);
        }
        struct timespec t = { 0, 500000 }; nanosleep(&t, nullptr);
    }
    _exit(rc);
}
} // namespace

#define LK lock_guard<recursive_mutex> lk_(MX); slow()
extern "C" {
void vmpi_stats(char* b, int n) {
    snprintf(b, n, "sends=%ld recvs=%ld bytes=%ld deferred=%ld spurious=%ld", n_sends, n_recvs, n_bytes, n_deferred, n_spurious);
}
int MPI_Init_thread(int*, char***, int, int* p) { inited = true; *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Init(int*, char***) { inited = true; return 0; }
int MPI_Initialized(int* f) { *f = inited; return 0; }
int MPI_Finalized(int* f) { *f = finalized; return 0; }
int MPI_Finalize() {
    LK;
    progress(true);
    barrier(MPI_COMM_WORLD);
    finalized = true;
    return 0;
}
int MPI_Abort(MPI_Comm, int code) { fflush(nullptr); G->aborted = 1; _exit(code ? code : 1); }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = ME - comm_first(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { *n = comm_size(c); return 0; }
int MPI_Comm_group(MPI_Comm c, MPI_Group* g) { *g = c == NODE_COMM ? NODE_GROUP : WORLD_GROUP; return 0; }
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm* c) { *c = NODE_COMM; return 0; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Group_free(MPI_Group* g) { *g = MPI_GROUP_NULL; return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int ra[], MPI_Group b, int rb[]) {
    for (int i = 0; i < n; i++) {
        int w = ra[i];
        if (w == MPI_PROC_NULL) { rb[i] = MPI_PROC_NULL; continue; }
        if (a == NODE_GROUP) w += comm_first(NODE_COMM);
        if (b == NODE_GROUP) rb[i] = node_of(w) == node_of(ME) ? w - comm_first(NODE_COMM) : MPI_UNDEFINED;
        else rb[i] = w;
    }
    return 0;
}
int MPI_Barrier(MPI_Comm c) { LK; progress(true); barrier(c); return 0; }
int MPI_Bcast(void* buf, int n, MPI_Datatype t, int root, MPI_Comm c) {
    LK;
    size_t z = size_t(n) * dsize(t);
    if (z > 4096) misuse("broadcast too large for the checking MPI");
    int id = comm_id(c), rr = root + comm_first(c);
    barrier(c);
    if (ME == rr) memcpy(G->cbuf[id][0], buf, z);
    barrier(c);
    if (ME != rr) memcpy(buf, G->cbuf[id][0], z);
    barrier(c);
    return 0;
}
static bool is_float(MPI_Datatype t) { return t == MPI_FLOAT || t == MPI_DOUBLE; }
int MPI_Allreduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    LK;
    size_t e = dsize(t), z = size_t(n) * e;
    if (z > 4096) misuse("reduction too large for the checking MPI");
    int id = comm_id(c), f = comm_first(c), m = comm_size(c);
    barrier(c);
    memcpy(G->cbuf[id][ME - f], s == MPI_IN_PLACE ? d : s, z);
    barrier(c);
    for (int i = 0; i < n; i++) {
        if (is_float(t)) {
            double acc = 0;
            for (int r = 0; r < m; r++) {
                double v = e == 4 ? ((float*)G->cbuf[id][r])[i] : ((double*)G->cbuf[id][r])[i];
                if (r == 0) acc = v;
                else if (op == MPI_SUM) acc += v; else if (op == MPI_MIN) acc = min(acc, v); else if (op == MPI_MAX) acc = max(acc, v);
                else misuse("unsupported reduction");
            }
            if (e == 4) ((float*)d)[i] = acc; else ((double*)d)[i] = acc;
        } else {
            int64_t acc = 0;
            for (int r = 0; r < m; r++) {
                int64_t v = e == 8 ? ((int64_t*)G->cbuf[id][r])[i] : e == 4 ? ((int32_t*)G->cbuf[id][r])[i] : ((int8_t*)G->cbuf[id][r])[i];
                if (r == 0) acc = v;
                else if (op == MPI_SUM) acc += v; else if (op == MPI_MIN) acc = min(acc, v); else if (op == MPI_MAX) acc = max(acc, v);
                else if (op == MPI_LAND) acc = acc && v; else if (op == MPI_LOR) acc = acc || v;
                else misuse("unsupported reduction");
            }
            if (e == 8) ((int64_t*)d)[i] = acc; else if (e == 4) ((int32_t*)d)[i] = acc; else ((int8_t*)d)[i] = acc;
        }
    }
    barrier(c);
    return 0;
}
int MPI_Reduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
    vector<char> tmp(size_t(n) * dsize(t));
    int r = MPI_Allreduce(s == MPI_IN_PLACE ? d : s, tmp.data(), n, t, op, c);
    if (ME == root + comm_first(c)) memcpy(d, tmp.data(), tmp.size());
    return r;
}
int MPI_Isend(const void* buf, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* r) {
    LK;
    if (dst == MPI_PROC_NULL) { *r = MPI_REQUEST_NULL; return 0; }
    if (dst < 0 || dst >= comm_size(c)) misuse("Isend to a rank that does not exist");
    auto* q = new Req();
    q->send = true; q->buf = (void*)buf; q->bytes = size_t(n) * dsize(t); q->peer = dst + comm_first(c); q->tag = tag; q->comm = comm_id(c);
    q->sum = fnv(q->buf, q->bytes);
    if (mode_delay_send && chance(70)) { q->hold = 1 + int(rnd() % 6); n_deferred++; }
    if (mode_spurious && chance(50)) q->hide = 1 + int(rnd() % 3);
    int id = next_req++; reqs[id] = q; order.push_back(id);
    *r = handle(id); n_sends++; n_bytes += q->bytes;
    if (!q->hold) progress(false);
    return 0;
}
int MPI_Irecv(void* buf, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* r) {
    LK;
    if (src == MPI_PROC_NULL) { *r = MPI_REQUEST_NULL; return 0; }
    if (src < 0 || src >= comm_size(c)) misuse("Irecv from a rank that does not exist");
    auto* q = new Req();
    q->send = false; q->buf = buf; q->bytes = size_t(n) * dsize(t); q->peer = src + comm_first(c); q->tag = tag; q->comm = comm_id(c);
    if (mode_poison) { memset(buf, 0xff, q->bytes); q->sum = fnv(buf, q->bytes); }
    if (mode_delay_recv && chance(70)) { q->hold = 1 + int(rnd() % 6); n_deferred++; }
    if (mode_spurious && chance(50)) q->hide = 1 + int(rnd() % 3);
    int id = next_req++; reqs[id] = q; order.push_back(id);
    *r = handle(id); n_recvs++;
    progress(false);
    return 0;
}
int MPI_Wait(MPI_Request* r, MPI_Status* s) {
    LK;
    if (*r == MPI_REQUEST_NULL) {
        if (s != MPI_STATUS_IGNORE) { memset(s, 0, sizeof *s); s->MPI_SOURCE = MPI_ANY_SOURCE; s->MPI_TAG = MPI_ANY_TAG; }
        return 0;
    }
    int id = rid(*r);
    auto it = reqs.find(id);
    if (it == reqs.end()) misuse("Wait on a request that is not active");
    auto& q = *it->second;
    while (!q.complete) { progress(true); if (!q.complete) relax(); }
    fill_status(s, q);
    retire(id);
    *r = MPI_REQUEST_NULL;
    return 0;
}
int MPI_Waitall(int n, MPI_Request r[], MPI_Status s[]) {
    for (int i = 0; i < n; i++) MPI_Wait(&r[i], s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &s[i]);
    return 0;
}
int MPI_Test(MPI_Request* r, int* flag, MPI_Status* s) {
    LK;
    if (*r == MPI_REQUEST_NULL) { *flag = 1; if (s != MPI_STATUS_IGNORE) memset(s, 0, sizeof *s); return 0; }
    int id = rid(*r);
    auto it = reqs.find(id);
    if (it == reqs.end()) misuse("Test on a request that is not active");
    progress(false);
    auto& q = *it->second;
    if (!q.complete) { *flag = 0; return 0; }
    if (q.hide > 0) { q.hide--; n_spurious++; *flag = 0; return 0; }
    fill_status(s, q); retire(id); *r = MPI_REQUEST_NULL; *flag = 1;
    return 0;
}
int MPI_Testsome(int n, MPI_Request r[], int* outc, int idx[], MPI_Status s[]) {
    LK;
    progress(false);
    n_pokes++;
    int act = 0, k = 0;
    for (int i = 0; i < n; i++) {
        if (r[i] == MPI_REQUEST_NULL) continue;
        act++;
        auto it = reqs.find(rid(r[i]));
        if (it == reqs.end()) misuse("Testsome on a request that is not active");
        auto& q = *it->second;
        if (!q.complete) continue;
        if (q.hide > 0) { q.hide--; n_spurious++; continue; }
        if (s != MPI_STATUSES_IGNORE) fill_status(&s[k], q);
        idx[k++] = i;
        retire(rid(r[i])); r[i] = MPI_REQUEST_NULL;
    }
    *outc = act ? k : MPI_UNDEFINED;
    return 0;
}
int MPI_Testall(int n, MPI_Request r[], int* flag, MPI_Status s[]) {
    LK;
    progress(false);
    for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && !reqs.at(rid(r[i]))->complete) { *flag = 0; return 0; }
    *flag = 1;
    return MPI_Waitall(n, r, s);
}
int MPI_Testany(int n, MPI_Request r[], int* idx, int* flag, MPI_Status* s) {
    LK;
    bool any = false;
    for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) {
        any = true;
        int f; MPI_Test(&r[i], &f, s);
        if (f) { *idx = i; *flag = 1; return 0; }
    }
    *idx = MPI_UNDEFINED; *flag = any ? 0 : 1;
    return 0;
}
int MPI_Waitsome(int n, MPI_Request r[], int* outc, int idx[], MPI_Status s[]) {
    while (true) {
        MPI_Testsome(n, r, outc, idx, s);
        if (*outc) return 0;
        LK; progress(true); relax();
    }
}
int MPI_Waitany(int n, MPI_Request r[], int* idx, MPI_Status* s) {
    while (true) { int f; MPI_Testany(n, r, idx, &f, s); if (f) return 0; LK; progress(true); relax(); }
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request r; MPI_Isend(b, n, t, d, tag, c, &r); return MPI_Wait(&r, MPI_STATUS_IGNORE); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Status* s) { MPI_Request r; MPI_Irecv(b, n, t, d, tag, c, &r); return MPI_Wait(&r, s); }
int MPI_Request_free(MPI_Request* r) { LK; progress(true); *r = MPI_REQUEST_NULL; return 0; }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = s->count_lo / dsize(t); return 0; }
int MPI_Info_create(MPI_Info* i) { *i = MPI_INFO_NULL; return 0; }
int MPI_Info_set(MPI_Info, const char*, const char*) { return 0; }
int MPI_Info_free(MPI_Info* i) { *i = MPI_INFO_NULL; return 0; }
static int mywin = 0;
int MPI_Win_allocate_shared(MPI_Aint size, int, MPI_Info, MPI_Comm c, void* bp, MPI_Win* w) {
    LK;
    int id = mywin++;                       // collective: the same on all ranks.
    if (id >= 256) misuse("too many windows for the checking MPI");
    size_t z = (size_t(size) + 4095) & ~size_t(4095);
    if (G->abump[ME] + z > ARENA_BYTES) misuse("window too large for the checking MPI");
    void* p = ARENA + size_t(ME) * ARENA_BYTES + G->abump[ME];
    G->abump[ME] += z;
    memset(p, 0xc0, size_t(size));         // the contents are undefined (finite, not an integer).
    G->win[id][ME].size = size; G->win[id][ME].base = p;
    *(void**)bp = p;
    *w = MPI_Win(0x20000000 + id);
    barrier(c);
    return 0;
}
int MPI_Win_shared_query(MPI_Win w, int rank, MPI_Aint* size, int* disp, void* bp) {
    int id = int(w) - 0x20000000;
    int r = rank + comm_first(NODE_COMM);
    *size = G->win[id][r].size; *disp = 1; *(void**)bp = G->win[id][r].base;
    return 0;
}
int MPI_Win_free(MPI_Win* w) { LK; barrier(NODE_COMM); *w = MPI_WIN_NULL; return 0; }
int MPI_Win_lock_all(int, MPI_Win) { return 0; }
int MPI_Win_unlock_all(MPI_Win) { return 0; }
int MPI_Win_sync(MPI_Win) { atomic_thread_fence(memory_order_seq_cst); return 0; }
int MPI_Get_processor_name(char* n, int* l) { strcpy(n, "vmpi"); *l = 4; return 0; }
double MPI_Wtime() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
int MPI_Error_string(int, char* s, int* l) { strcpy(s, "?"); *l = 1; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
}
