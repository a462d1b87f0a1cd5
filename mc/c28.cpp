// C28: two computations in two threads. The library is compiled with -fsanitize=thread, but the hooks it
// calls are the ones below: every memory access of the real code is seen, and a scheduler that lets one thread
// run at a time decides at each access to memory which both threads use (and one writes) whether to switch.
// Accesses that no other thread conflicts with commute with everything, so nothing is lost by not switching there.
#include "box.h"
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/wait.h>
#include <new>
#include <algorithm>
using namespace lp; using namespace gen;
typedef std::uintptr_t A;
// ---- memory: every thread allocates from a region of its own, nothing is reused ------------------------------
static char *region[3]; static size_t used[3]; static const size_t RSIZE = 256u << 20;
static bool inChild = false; static __thread int me = 2;   // 0, 1: the threads; 2: the setup
static void *take(std::size_t n) {
    if (!inChild) { void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
    n = (n + 31) & ~(size_t)15; if (used[me] + n > RSIZE) throw std::bad_alloc(); void *p = region[me] + used[me]; used[me] += n; return p;
}
static void give(void *p) { if (p >= (void *)region[0] && p < (void *)(region[0] + 3 * RSIZE)) return; std::free(p); }
void *operator new(std::size_t n) { return take(n); }
void *operator new[](std::size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, std::size_t) noexcept { give(p); }
void operator delete[](void *p, std::size_t) noexcept { give(p); }
// ---- what a child reports to its parent ------------------------------------------------------------------------
struct Shared { int status, nd; unsigned char val[1 << 16], ar[1 << 16]; u64 accesses; int nConf; A conf[1 << 16]; int textLen[2]; char text[2][1 << 20]; char err[2000]; };
static Shared *sh; static const int NMAX = 1 << 16;
// ---- scheduler (in the child) ------------------------------------------------------------------------------------
static vector<int> pre; static vector<A> conflict;     // decisions to replay; granules both threads use
static sem_t go[2], done_; static volatile int finished[2]; static int bound, spent, hold[2]; static bool opPoints, accessPoints; static volatile bool running;
struct Set { vector<A> t; size_t n = 0; vector<unsigned char> f; Set() : t(1 << 14, 0), f(1 << 14, 0) {}
    unsigned char &at(A a) { if (n * 2 > t.size()) { Set o; o.t.swap(t); o.f.swap(f); t.assign(o.t.size() * 2, 0); f.assign(o.t.size() * 2, 0); n = 0; for (size_t i = 0; i < o.t.size(); i++) if (o.t[i]) at(o.t[i]) = o.f[i]; }
        size_t m = t.size() - 1, i = (a * 0x9E3779B97F4A7C15ull >> 24) & m; while (t[i] && t[i] != a) i = (i + 1) & m; if (!t[i]) { t[i] = a; n++; } return f[i]; } };
static Set *seen[2];
static int decide(int n) { int v = sh->nd < (int)pre.size() ? pre[sh->nd] : 0; if (sh->nd >= NMAX) return 0; sh->val[sh->nd] = v; sh->ar[sh->nd] = n; sh->nd++; return v; }
static void toOther() { int o = 1 - me; sem_post(&go[o]); sem_wait(&go[me]); }
static void point(bool op) {
    if (!running || me > 1 || hold[me] || finished[1 - me]) return;
    if (op ? !opPoints : !accessPoints) return;
    if (spent >= bound || sh->nd >= 600) return;
    if (decide(2)) { spent++; toOther(); }
}
static void access(const void *p, size_t n, int kind) {      // 1 read, 2 write, 4 atomic
    if (me > 1 || !running) return;
    static __thread bool inside; if (inside) return; inside = true; bool hit = false;
    for (A g = (A)p >> 3; g <= ((A)p + (n ? n - 1 : 0)) >> 3; g++) {
        sh->accesses++; bool in = inChild; inChild = false; seen[me]->at(g) |= kind; inChild = in;
        if (!conflict.empty() && std::binary_search(conflict.begin(), conflict.end(), g)) hit = true;
    }
    if (hit) point(false);
    inside = false;
}
#define RW(n) extern "C" void __tsan_read##n(void *p) { access(p, n, 1); } extern "C" void __tsan_write##n(void *p) { access(p, n, 2); } extern "C" void __tsan_unaligned_read##n(void *p) { access(p, n, 1); } extern "C" void __tsan_unaligned_write##n(void *p) { access(p, n, 2); } extern "C" void __tsan_volatile_read##n(void *p) { access(p, n, 1); } extern "C" void __tsan_volatile_write##n(void *p) { access(p, n, 2); } extern "C" void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, 1); } extern "C" void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, 2); } extern "C" void __tsan_read##n##_pc(void *p, void *) { access(p, n, 1); } extern "C" void __tsan_write##n##_pc(void *p, void *) { access(p, n, 2); }
RW(1) RW(2) RW(4) RW(8) RW(16)
extern "C" void __tsan_init() {}
extern "C" void __tsan_func_entry(void *) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_read_range(void *p, unsigned long n) { access(p, n, 1); }
extern "C" void __tsan_write_range(void *p, unsigned long n) { access(p, n, 2); }
extern "C" void __tsan_vptr_update(void **p, void *) { access(p, 8, 2); }
extern "C" void __tsan_vptr_read(void **p) { access(p, 8, 1); }
#define AT(b, T) \
extern "C" T __tsan_atomic##b##_load(const volatile T *p, int) { access((void *)p, sizeof(T), 4 | 1); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
extern "C" void __tsan_atomic##b##_store(volatile T *p, T v, int) { access((void *)p, sizeof(T), 4 | 2); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { access((void *)p, sizeof(T), 4 | 2); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { access((void *)p, sizeof(T), 4 | 2); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { access((void *)p, sizeof(T), 4 | 2); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { access((void *)p, sizeof(T), 4 | 2); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { access((void *)p, sizeof(T), 4 | 2); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
extern "C" bool __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { access((void *)p, sizeof(T), 4 | 2); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
extern "C" bool __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { access((void *)p, sizeof(T), 4 | 2); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int, int) { access((void *)p, sizeof(T), 4 | 2); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}
// copies the compiler does not instrument, locks and guarded initialisations
extern "C" void *__real_memcpy(void *, const void *, size_t); extern "C" void *__real_memmove(void *, const void *, size_t); extern "C" void *__real_memset(void *, int, size_t);
extern "C" void *__wrap_memcpy(void *d, const void *s, size_t n) { access(s, n, 1); access(d, n, 2); return __real_memcpy(d, s, n); }
extern "C" void *__wrap_memmove(void *d, const void *s, size_t n) { access(s, n, 1); access(d, n, 2); return __real_memmove(d, s, n); }
extern "C" void *__wrap_memset(void *d, int c, size_t n) { access(d, n, 2); return __real_memset(d, c, n); }
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (me > 1 || !running) return pthread_mutex_trylock(m); while (int r = pthread_mutex_trylock(m)) { if (r != EBUSY) return r; if (finished[1 - me]) continue; toOther(); } return 0; }
extern "C" int __real___cxa_guard_acquire(void *); extern "C" void __real___cxa_guard_release(void *); extern "C" void __real___cxa_guard_abort(void *);
extern "C" int __wrap___cxa_guard_acquire(void *g) { int r = __real___cxa_guard_acquire(g); if (r && me < 2) hold[me]++; return r; }
extern "C" void __wrap___cxa_guard_release(void *g) { __real___cxa_guard_release(g); if (me < 2) hold[me]--; }
extern "C" void __wrap___cxa_guard_abort(void *g) { __real___cxa_guard_abort(g); if (me < 2) hold[me]--; }
// ---- the two computations ---------------------------------------------------------------------------------------
static string hex(ld x) { char b[64]; snprintf(b, 64, "%La ", x); return b; }
static string ser(const Res &r) { string s = hex(r.p) + hex(r.g) + hex(r.l); for (auto &x : r.parts) s += "[" + std::to_string(x.h) + " " + std::to_string(x.hs) + " " + std::to_string(x.s) + " " + std::to_string(x.e) + " " + std::to_string(x.size) + " " + hex(x.g) + hex(x.l) + "]"; return s; }
struct Prog { vector<std::function<void(string &)>> ops; };
static Prog prog[2]; static string outText[2];
static int shareMode; static const char *modes[] = {"unrelated objects", "the same dataset", "the same dataset and hierarchy object, own arrays", "the same computed qualities", "the same partition and dataset, own aggregations"};
// the datasets of the two kinds of component: how many of them, and in which dimensions
static vector<int> compDims(int nc) { return nc == 0 ? vector<int>{} : nc == 1 ? vector<int>{2} : nc == 2 ? vector<int>{2, 2} : vector<int>{2, 1, 2}; }
static box::Box dataset(const Inst &I, int nd, const vector<int> *par) {
    box::Ix dim; if (I.kind != 'O') dim.push_back(I.t.L); for (int x : compDims(nd - (I.kind == 'D' ? 2 : 1))) dim.push_back(x); if (I.kind != 'H') dim.push_back(I.n);
    box::Box b = box::shape(I.kind, nd, I.t, dim); if (par) b.t.par = *par;
    box::byValues(b, [&](const box::Ix &i) { int a, k, o; b.coords(i, a, k, o); return I.vals[k][a][o]; }); return b;
}
static string cells(lpaggreg::OQualities &q) { string s; auto t = q.getQualities(); for (int i = 0; i < t->getSize(); i++) for (int j = i; j < t->getSize(); j++) s += hex((*t)(i, j)->getGain()) + hex((*t)(i, j)->getLoss()); return s; }
static string cells(lpaggreg::HQualities &q) { string s; for (auto &x : *q.getQualities()) s += hex(x->getGain()) + hex(x->getLoss()); return s; }
static string cells(lpaggreg::DQualities &q) { string s; for (auto &y : *q.getQualities()) for (int i = 0; i < y->getSize(); i++) for (int j = i; j < y->getSize(); j++) s += hex((*y)(i, j)->getGain()) + hex((*y)(i, j)->getLoss()); return s; }
static string reads(box::Box &b) { string s; b.each([&](const box::Ix &i) { int a, k, o; b.coords(i, a, k, o); s += hex(b.get(i)) + hex(b.flat(a, k, o)); }); return s + std::to_string(b.vsize()) + " " + std::to_string(b.osize()); }
static vector<double> flat(double x) { return {x}; } template <class T> static vector<double> flat(const vector<T> &v) { vector<double> r; for (auto &x : v) for (double y : flat(x)) r.push_back(y); return r; }
template <class AG, class PN, class V> static void agg1(string &o, shared_ptr<PN> p, shared_ptr<V> v) { AG a(p, v); for (auto &x : a.getAggregates()) { for (double y : flat(x.getSum())) o += hex(y); for (double y : flat(x.getMean())) o += hex(y); } }
static void agg(string &o, shared_ptr<lpaggreg::OPartition> p, box::Box &b) { using namespace lpaggreg; if (b.o1) agg1<OAggregationN1>(o, p, b.o1); else if (b.o2) agg1<OAggregationN2>(o, p, b.o2); else if (b.o3) agg1<OAggregationN3>(o, p, b.o3); else agg1<OAggregationN4>(o, p, b.o4); }
static void agg(string &o, shared_ptr<lpaggreg::HPartition> p, box::Box &b) { using namespace lpaggreg; if (b.h1) agg1<HAggregationN1>(o, p, b.h1); else if (b.h2) agg1<HAggregationN2>(o, p, b.h2); else if (b.h3) agg1<HAggregationN3>(o, p, b.h3); else agg1<HAggregationN4>(o, p, b.h4); }
static void agg(string &o, shared_ptr<lpaggreg::DPartition> p, box::Box &b) { using namespace lpaggreg; if (b.d2) agg1<DAggregationN2>(o, p, b.d2); else if (b.d3) agg1<DAggregationN3>(o, p, b.d3); else agg1<DAggregationN4>(o, p, b.d4); }
struct OK { typedef lpaggreg::OQualities QS; typedef lpaggreg::OPartitioner PR; typedef lpaggreg::OPartition PN; static QS *mk(box::Box &b) { return new QS(b.o); } static vector<int> par(box::Box &b) { return b.t.par; } };
struct HK { typedef lpaggreg::HQualities QS; typedef lpaggreg::HPartitioner PR; typedef lpaggreg::HPartition PN; static QS *mk(box::Box &b) { return new QS(b.h); } static vector<int> par(box::Box &b) { return b.h->getMetaData().getParents(); } };
struct DK { typedef lpaggreg::DQualities QS; typedef lpaggreg::DPartitioner PR; typedef lpaggreg::DPartition PN; static QS *mk(box::Box &b) { return new QS(b.d); } static vector<int> par(box::Box &b) { return b.d->getMetaData().getParents(); } };
static int ndims;
template <class K> struct Maker {
    typedef typename K::QS QS; typedef typename K::PR PR; typedef typename K::PN PN; typedef box::Box B;
    struct St { B v; shared_ptr<QS> q; shared_ptr<PR> p; shared_ptr<PN> best; };
    static void make(const Inst *I, float th) {
        B v; shared_ptr<QS> q; shared_ptr<PN> pn; const int nd = ndims;
        if (shareMode >= 1) v = dataset(I[0], nd, nullptr);
        if (shareMode >= 3) { q.reset(K::mk(v)); q->computeQualities(); q->normalize(); }
        if (shareMode == 4) { PR p(*q); pn = p.computeBestPartition(0.5f); }
        for (int t = 0; t < 2; t++) {
            auto S = std::make_shared<St>(); auto &ops = prog[t].ops; ops.clear(); const Inst J = I[shareMode ? 0 : t]; if (shareMode) S->v = v; S->q = q; S->best = pn;
            if (shareMode == 0) ops.push_back([=](string &o) { S->v = dataset(J, nd, nullptr); box::Ix z(S->v.dim.size(), 0); double x = S->v.get(z); S->v.set(z, x + 1); o += reads(S->v); S->v.set(z, x); });
            if (shareMode == 2) ops.push_back([=](string &o) { auto par = K::par(S->v); S->v = dataset(J, nd, &par); });
            if (shareMode <= 2) { ops.push_back([=](string &o) { S->q.reset(K::mk(S->v)); S->q->computeQualities(); o += cells(*S->q); }); if (t == 0 || shareMode == 2) ops.push_back([=](string &o) { S->q->normalize(); o += cells(*S->q); }); }
            if (shareMode <= 3) {
                ops.push_back([=](string &o) { S->p.reset(new PR(*S->q)); S->best = S->p->computeBestPartition(t ? 0.25f : 0.5f); o += ser(conv(S->best)); });
                ops.push_back([=](string &o) { S->p->computeBestPartitions(t ? th : th / 2); for (auto &x : S->p->getPartitions()) o += ser(conv(x.second)); o += std::to_string(S->p->getPartitionsTuples().size()) + " " + hex(S->p->getP(P_OPT)) + hex(S->p->computeAUC()); for (auto &x : S->p->getQualityList()) o += hex(x.first) + hex(x.second->getGain()); });
            }
            if (shareMode == 3) ops.push_back([=](string &o) { o += cells(*S->q); });
            ops.push_back([=](string &o) { agg(o, S->best, S->v); o += reads(S->v); });
            if (shareMode == 4) { ops.push_back([=](string &o) { o += ser(conv(S->best)) + ((*S->best == *S->best) ? "=" : "!"); }); ops.push_back([=](string &o) { agg(o, S->best, S->v); }); }
            ops.push_back([=](string &o) { S->p.reset(); S->q.reset(); o += ser(conv(S->best)); S->v = B(); S->best.reset(); });
        }
    }
};
// arithmetic and tables alone
static void arithmetic(const Inst *I, float th) {
    using lpaggreg::Quality; using lpaggreg::Tradeoff; typedef lpaggreg::UpperTriangularMatrix<shared_ptr<Tradeoff>> TM; shared_ptr<Quality> common; if (shareMode) common.reset(new Quality(3, 2));
    for (int t = 0; t < 2; t++) {
        auto &ops = prog[t].ops; ops.clear(); ld a = t + 1, b = I[0].n + 2 * t; auto q = std::make_shared<shared_ptr<Quality>>(); auto x = std::make_shared<shared_ptr<Tradeoff>>(); auto put = [](string &o, Quality z) { o += hex(z.getGain()) + hex(z.getLoss()); }; auto putT = [](string &o, Tradeoff z) { o += hex(z.getValue()) + hex(z.getQuality()->getGain()) + hex(z.getQuality()->getLoss()); };
        ops.push_back([=](string &o) { *q = common ? common : shared_ptr<Quality>(new Quality(a, b)); Quality y(b, a), z = **q + y; z += y; z -= **q; put(o, z); put(o, z - y); put(o, z * y); put(o, z / y); o += std::to_string(z == y) + std::to_string(z != **q); });
        ops.push_back([=](string &o) { x->reset(new Tradeoff(*q, 0.25f)); Tradeoff y(*q, 0.75f); y.set(*q, 0.5f); Tradeoff z = **x + y; z += y; putT(o, z); putT(o, z - y); putT(o, z * y); putT(o, z / y); o += std::to_string(z > y) + std::to_string(y > **x) + std::to_string(z < y) + std::to_string(z == **x); });
        ops.push_back([=](string &o) { TM T(3); T(0, 2, *x); T(1, 1, shared_ptr<Tradeoff>(new Tradeoff(*q, 1))); for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) putT(o, *T(i, j)); for (int i = 0; i < T.getElements(); i++) putT(o, *T[i]); lpaggreg::UpperTriangularMatrix<int> U(2 + t, 7); U(0, 1, 5); for (int i = 0; i < U.getElements(); i++) o += std::to_string(U[i]); });
        ops.push_back([=](string &o) { put(o, **q); putT(o, **x); x->reset(); q->reset(); });
    }
}
// ---- one execution, in a child process ---------------------------------------------------------------------------
static void *body(void *arg) {
    me = (int)(A)arg; sem_wait(&go[me]);
    try { for (size_t i = 0; i < prog[me].ops.size(); i++) { if (i) point(true); prog[me].ops[i](outText[me]); } } catch (std::exception &e) { outText[me] += string("exception: ") + e.what(); }
    finished[me] = 1; sem_post(finished[1 - me] ? &done_ : &go[1 - me]); return nullptr;
}
static void child(char kind, const Inst *I, float th, int only, int k, bool ops, bool acc) {
    inChild = true; me = 2; seen[0] = new Set(); seen[1] = new Set(); bound = k; opPoints = ops; accessPoints = acc; spent = 0; outText[0].reserve(1 << 16); outText[1].reserve(1 << 16);
    if (kind == 'A') arithmetic(I, th); else if (kind == 'O') Maker<OK>::make(I, th); else if (kind == 'H') Maker<HK>::make(I, th); else Maker<DK>::make(I, th);
    sem_init(&go[0], 0, 0); sem_init(&go[1], 0, 0); sem_init(&done_, 0, 0);
    if (only >= 0) finished[1 - only] = 1;
    pthread_t th_[2]; for (int t = 0; t < 2; t++) if (!finished[t]) pthread_create(&th_[t], nullptr, body, (void *)(A)t);
    running = true; int first = only >= 0 ? only : decide(2); sem_post(&go[first]); sem_wait(&done_); running = false;
    for (int t = 0; t < 2; t++) { size_t n = std::min(outText[t].size(), sizeof sh->text[t]); std::memcpy(sh->text[t], outText[t].data(), n); sh->textLen[t] = (int)n; }
    if (only < 0) for (size_t i = 0; i < seen[0]->t.size(); i++) if (A g = seen[0]->t[i]) { int a = seen[0]->f[i], b = seen[1]->at(g); if (b && ((a | b) & 2) && !((a & 4) && (b & 4)) && sh->nConf < NMAX) sh->conf[sh->nConf++] = g; }
    sh->status = 1; _exit(0);
}
static string runChild(char kind, const Inst *I, float th, int only, int k, bool ops, bool acc) {
    sh->status = sh->nd = sh->nConf = 0; sh->accesses = 0; sh->textLen[0] = sh->textLen[1] = 0;
    pid_t p = fork(); if (p < 0) return "fork failed"; if (!p) { alarm(30); child(kind, I, th, only, k, ops, acc); }
    int st; while (waitpid(p, &st, 0) < 0) {}
    if (WIFSIGNALED(st)) return "the program dies with signal " + std::to_string(WTERMSIG(st)); if (!sh->status) return "the program ends early"; return "";
}
static string text(int t) { return string(sh->text[t], sh->textLen[t]); }
static void explore(Mc &m, char kind, const Inst *I, float th, int k, bool ops, bool acc) {
    auto what = [&] { string s = string(modes[shareMode]) + ": " + I[0].str().substr(0, 300); if (!shareMode) s += " and " + I[1].str().substr(0, 300); return s; };
    m.mine(); m.sample(what()); string alone[2], e; pre.clear(); conflict.clear();
    for (int t = 0; t < 2; t++) { e = runChild(kind, I, th, t, 0, false, false); m.check(e.empty(), [&] { return e + " (one computation alone): " + what(); }); alone[t] = text(t); m.op(prog[t].ops.size()); }
    // iterative preemption bounding; the memory both threads use is learnt on the way
    int grown = 0;
    for (int b = acc ? 1 : k; b <= k; b++) for (pre.clear();;) {
        e = runChild(kind, I, th, -1, b, ops, acc); vector<int> val(sh->val, sh->val + sh->nd), ar(sh->ar, sh->ar + sh->nd); m.op(10); m.trace();
        auto sched = [&] { string s = ", schedule"; for (int x : val) s += " " + std::to_string(x); return s + " (decisions: first thread, then switch or not at each of " + std::to_string(val.size()) + " points): " + what(); };
        m.check(e.empty(), [&] { return e + sched(); });
        for (int t = 0; t < 2; t++) m.check(text(t) == alone[t], [&] { size_t d = 0; string x = text(t); while (d < x.size() && d < alone[t].size() && x[d] == alone[t][d]) d++; return "thread " + std::to_string(t + 1) + " gets other results than alone (first difference at byte " + std::to_string(d) + ": \"" + x.substr(d > 10 ? d - 10 : 0, 80) + "\" instead of \"" + alone[t].substr(d > 10 ? d - 10 : 0, 80) + "\")" + sched(); });
        u64 h = 5; for (int x : val) h = mc::mix(h, x); m.state(h); m.outcome(mc::mixs(1, text(0) + text(1)));
        if (acc) { vector<A> c(sh->conf, sh->conf + sh->nConf); std::sort(c.begin(), c.end()); vector<A> u; std::set_union(c.begin(), c.end(), conflict.begin(), conflict.end(), std::back_inserter(u)); if (u.size() > conflict.size() && grown < 40) { conflict = u; grown++; pre.clear(); continue; } }
        int i = (int)val.size() - 1; while (i >= 0 && val[i] + 1 >= ar[i]) i--; if (i < 0) break; pre.assign(val.begin(), val.begin() + i + 1); pre[i]++;
    }
}
int main(int c, char **v) {
    char *r = (char *)mmap(0, 3 * RSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); for (int i = 0; i < 3; i++) region[i] = r + i * RSIZE;
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    vector<Space> s;
    struct Cls { char kind; int nd; bool base; }; static const vector<Cls> cls = {{'O', 1, true}, {'H', 1, true}, {'D', 2, true}, {'O', 2, false}, {'O', 3, false}, {'O', 4, false}, {'H', 2, false}, {'H', 3, false}, {'H', 4, false}, {'D', 3, false}, {'D', 4, false}, {'A', 0, true}};
    for (auto cl : cls) for (int mode = 0; mode < 5; mode++) for (int acc = 0; acc < 3; acc++) {
        if (!cl.base && acc == 0) continue; if (cl.kind == 'A' && mode > 1) continue;
        char kind = cl.kind; string name = string(1, kind) + (cl.base ? "" : std::to_string(cl.nd)) + ".share" + std::to_string(mode) + (acc == 0 ? ".ops" : acc == 1 ? ".accesses" : ".accesses+");
        string bound = string("threads that use ") + (kind == 'A' ? mode ? "the same quality, in own trade-offs and triangular tables" : "own qualities, trade-offs and triangular tables" : string(modes[mode]) + (cl.base ? "" : ", datasets of " + std::to_string(cl.nd) + " dimensions")) + (acc == 0 ? ": all interleavings of the API calls of both" : acc == 1 ? ": all schedules with at most 2 preemptions, at the first 600 accesses to memory both threads use" : ": all schedules with at most 3 preemptions, at the first 600 accesses to memory both threads use and between calls, more inputs");
        s.push_back({name, bound, acc == 2, [=](Mc &m) {
            static const vector<Tree> ts = {oneLeaf(), ref::label(ref::star(2), 0), ref::label(ref::caterpillar(3, true), 0), ref::label(ref::caterpillar(3, false), 3), ref::label(ref::star(3), 1)}, t2 = {ts[1], ts[3]};
            Inst I[2]; float th = 0.1f; int K = 1; if (kind != 'A') for (int x : compDims(cl.nd - (kind == 'D' ? 2 : 1))) K *= x;
            for (int t = 0; t < (mode ? 1 : 2); t++) {
                int big = acc == 0 ? 0 : 1; bool many = big && kind != 'A';
                I[t] = blank(kind, kind == 'O' || kind == 'A' ? oneLeaf() : many ? m.pick(ts) : big ? m.pick(t2) : t ? ts[2] : ts[1 + m.choose(2)], kind == 'H' ? 1 : acc == 0 && t ? 2 : 1 + m.choose(kind == 'D' ? 2 : many ? 4 : 2)); int f = kind == 'A' ? 0 : m.choose(acc == 0 ? 2 - t : !many ? 2 : acc == 1 ? 4 : 6);
                I[t].vals.assign(K, vector<vector<double>>(I[t].t.L, vector<double>(I[t].n))); for (int k = 0; k < K; k++) { int i = 0; for (auto &a : I[t].vals[k]) for (auto &x : a) { x = (f == 0 ? (i * 3 + t) % 4 : f == 1 ? (i % 2) * 2 + 1 : f == 2 ? 0 : f == 3 ? 1 + t : f == 4 ? (i / 2) % 2 : 1.0 / (i + 1)) + k * (i + 1); i++; } }
            }
            shareMode = mode; ndims = cl.nd; explore(m, kind, I, th, acc == 0 ? 100 : acc == 1 ? 2 : 3, acc != 1, acc != 0);
        }});
    }
    return mc::run(c, v, s);
}
