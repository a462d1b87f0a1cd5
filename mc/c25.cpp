// C25: no valid use touches memory it should not, runs undefined operations, uses uninitialised results or leaks.
// Built twice: under AddressSanitizer, UndefinedBehaviorSanitizer and bounds assertions (the sanitizers end
// the program), and with -DCOUNTING where every execution is run on differently filled memory with live blocks counted.
#include "box.h"
#include <malloc.h>
#include <new>
static long live = 0, liveBytes = 0; static int fillByte = 0;
#ifdef COUNTING
static void __attribute__((noinline)) fill(void *p, std::size_t n, int b) { volatile unsigned char *q = (volatile unsigned char *)p; for (std::size_t i = 0; i < n; i++) q[i] = (unsigned char)b; }
static void *take(std::size_t n) { void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (n < 20000) fill(p, n, fillByte); else std::memset(p, fillByte, n); live++; liveBytes += (long)malloc_usable_size(p); return p; }
static void give(void *p) { if (!p) return; live--; liveBytes -= (long)malloc_usable_size(p); std::size_t n = malloc_usable_size(p); fill(p, n < 256 ? n : 256, fillByte ^ 0x55); std::free(p); }
void *operator new(std::size_t n) { return take(n); }
void *operator new[](std::size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, std::size_t) noexcept { give(p); }
void operator delete[](void *p, std::size_t) noexcept { give(p); }
#endif
using namespace box; using namespace gen;
static string hex(ld x) { char b[64]; snprintf(b, 64, "%La ", x); return b; }
static string ser(const Res &r) { string s = hex(r.p) + hex(r.g) + hex(r.l); for (auto &x : r.parts) s += "[" + std::to_string(x.h) + " " + std::to_string(x.hs) + " " + std::to_string(x.s) + " " + std::to_string(x.e) + " " + std::to_string(x.size) + " " + hex(x.g) + hex(x.l) + "]"; return s; }
static void flat(double x, string &o) { o += hex(x); }
template <class T> static void flat(const vector<T> &v, string &o) { for (auto &x : v) flat(x, o); }
template <class A, class P, class V> static string aggregation(P p, V v) { shared_ptr<A> a(new A(p, v)); string s; auto g = a->getAggregates(); a.reset(); for (auto &x : g) { flat(x.getSum(), s); flat(x.getMean(), s); auto q = x.getPart(); s += std::to_string(q.getSize()) + ";"; } return s; }
static string aggs(Box &b, shared_ptr<lpaggreg::OPartition> p) { using namespace lpaggreg; return b.o1 ? aggregation<OAggregationN1>(p, b.o1) : b.o2 ? aggregation<OAggregationN2>(p, b.o2) : b.o3 ? aggregation<OAggregationN3>(p, b.o3) : b.o4 ? aggregation<OAggregationN4>(p, b.o4) : ""; }
static string aggs(Box &b, shared_ptr<lpaggreg::HPartition> p) { using namespace lpaggreg; return b.h1 ? aggregation<HAggregationN1>(p, b.h1) : b.h2 ? aggregation<HAggregationN2>(p, b.h2) : b.h3 ? aggregation<HAggregationN3>(p, b.h3) : b.h4 ? aggregation<HAggregationN4>(p, b.h4) : ""; }
static string aggs(Box &b, shared_ptr<lpaggreg::DPartition> p) { using namespace lpaggreg; return b.d2 ? aggregation<DAggregationN2>(p, b.d2) : b.d3 ? aggregation<DAggregationN3>(p, b.d3) : b.d4 ? aggregation<DAggregationN4>(p, b.d4) : ""; }
static string meta(const lpaggreg::HValuesMetaData &md) { lpaggreg::HValuesMetaData c(md); string s = std::to_string(c.getRoot()) + " " + std::to_string(c.getHsize()) + " " + std::to_string(c.getLeaveSize()) + ":"; for (int x : c.getPath()) s += std::to_string(x) + " "; for (int x : c.getParents()) s += std::to_string(x) + " "; for (auto &x : c.getChildren()) for (int y : x) s += std::to_string(y) + " "; for (auto &x : c.getSize()) s += std::to_string(x.second) + " "; return s; }
// cuts and qualities reachable from a partition
static string inner(shared_ptr<lpaggreg::OPartition> p) { string s; for (int x : p->getCuts()) s += std::to_string(x) + " "; return s + std::to_string(p->getQualities()->getSize()); }
static string inner(shared_ptr<lpaggreg::HPartition> p) { string s; for (bool x : p->getAggregated()) s += x ? "1" : "0"; return s + std::to_string(p->getQualities()->size()) + meta(p->getMetaData()); }
static string inner(shared_ptr<lpaggreg::DPartition> p) { string s; for (auto &x : p->getCuts()) for (int i = 0; i < x->getElements(); i++) s += std::to_string((*x)[i]) + " "; return s + std::to_string(p->getQualities()->size()) + meta(p->getMetaData()); }
struct OT { typedef lpaggreg::OQualities QS; typedef lpaggreg::OPartitioner PR; typedef lpaggreg::OPartition PN; typedef oqualities QT; static QS *mk(QT q, const Tree &) { return new QS(q); } static PR *part(QS &q) { return new PR(q.getQualities()); } };
struct HT { typedef lpaggreg::HQualities QS; typedef lpaggreg::HPartitioner PR; typedef lpaggreg::HPartition PN; typedef hqualities QT; static QS *mk(QT q, const Tree &t) { return new QS(q, lpaggreg::HValuesMetaData(t.L, t.par)); } static PR *part(QS &q) { return new PR(q.getQualities(), q.getMetaData()); } };
struct DT { typedef lpaggreg::DQualities QS; typedef lpaggreg::DPartitioner PR; typedef lpaggreg::DPartition PN; typedef dqualities QT; static QS *mk(QT q, const Tree &t) { return new QS(q, lpaggreg::HValuesMetaData(t.L, t.par)); } static PR *part(QS &q) { return new PR(q.getQualities(), q.getMetaData()); } };
static string cells(oqualities q) { string s; for (int i = 0; i < q->getSize(); i++) for (int j = i; j < q->getSize(); j++) s += hex((*q)(i, j)->getGain()) + hex((*q)(i, j)->getLoss()); return s; }
static string cells(hqualities q) { string s; for (auto &x : *q) s += hex(x->getGain()) + hex(x->getLoss()); return s; }
static string cells(dqualities q) { string s; for (auto &x : *q) s += cells(x); return s; }
template <class P> static string readAll(P &p) {
    string s; for (float x : p.getPList()) s += hex(x); for (auto &x : p.getPartitions()) s += ser(conv(x.second)) + inner(x.second); for (auto &x : p.getQualityList()) s += hex(x.first) + hex(x.second->getGain()) + hex(x.second->getLoss());
    s += std::to_string(p.getPartitionsTuples().size()) + " " + hex(p.getP(P_MIN)) + hex(p.getP(P_MAX)) + hex(p.getP(P_OPT)) + hex(p.computeAUC()); return s;
}
struct Plan { vector<float> ps; vector<std::array<float, 3>> sweeps; bool norm; int ctor; int drop; };
// a whole use of the library, with the objects in `drop` released before the remaining results are read
template <class K, class VP> static string use(Mc &m, VP values, typename K::QT table, const Tree &t, const Plan &pl, Box *b) {
    shared_ptr<typename K::QS> q(table ? K::mk(table, t) : nullptr); if constexpr (!std::is_same<VP, std::nullptr_t>::value) if (values) q.reset(new typename K::QS(values)); string s; m.op();
    if (!table) { q->computeQualities(); q->computeQualities(); m.op(2); }
    s += cells(q->getQualities()) + std::to_string(q->size());
    if (pl.norm) { q->normalize(); s += cells(q->getQualities()); m.op(); }
    shared_ptr<typename K::PR> pr(pl.ctor ? K::part(*q) : new typename K::PR(*q)); m.op();
    s += readAll(*pr); m.op(8);
    vector<shared_ptr<typename K::PN>> keep; vector<string> agg;
    for (float p : pl.ps) { auto x = pr->computeBestPartition(p); m.op(2); keep.push_back(x); if (b) s += aggs(*b, x); }
    for (auto &r : pl.sweeps) { if (r[0] < 0) pr->computeBestPartitions(-r[0]); else pr->computeBestPartitions(r[0], r[1], r[2]); m.op(9); s += readAll(*pr); for (auto &x : pr->getPartitions()) keep.push_back(x.second); }
    typename K::PR copy(*pr); s += readAll(copy);
    auto qt = q->getQualities();
    if (pl.drop & 1) q.reset(); if (pl.drop & 2) { pr.reset(); } if (pl.drop & 4) { values = nullptr; table.reset(); if (b) { auto k = *b; *b = shape(k.kind, k.nd, k.t, k.dim); } } if (pl.drop & 8) qt.reset(); if (pl.drop & 16) { auto l = keep.empty() ? nullptr : keep.back(); keep.clear(); if (l) keep.push_back(l); }
    for (auto &x : keep) s += ser(conv(x)) + inner(x); 
    if (keep.size() > 1) s += *keep[0] == *keep[1] ? "e" : "d";
    if (qt) s += cells(qt); if (pr) { s += readAll(*pr); s += ser(conv(pr->computeBestPartition(0.5f))); } if (q) s += cells(q->getQualities());
    s += ser(conv(copy.computeBestPartition(0.25f)));
    return s;
}
static string useBox(Mc &m, Box &b, const Plan &pl, std::function<double(const Ix &)> f, int ctor) {
    string s;
    if (ctor == 0) byValues(b, f); else { bySize(b); b.each([&](const Ix &i) { s += hex(b.get(i)); }); b.each([&](const Ix &i) { b.set(i, f(i)); }); }
    b.each([&](const Ix &i) { s += hex(b.get(i)); }); m.op();
    for (int a = 0; a < b.L(); a++) for (int k = 0; k < b.vsize(); k++) for (int o = 0; o < b.n(); o++) { s += hex(b.flat(a, k, o)); b.rowLength(a, k); }
    s += std::to_string(b.osize()) + b.innerSizes(); if (b.h) s += meta(b.h->getMetaData()); if (b.d) s += meta(b.d->getMetaData());
    if (b.kind == 'O') return s + use<OT>(m, b.o, nullptr, b.t, pl, &b); if (b.kind == 'H') return s + use<HT>(m, b.h, nullptr, b.t, pl, &b); return s + use<DT>(m, b.d, nullptr, b.t, pl, &b);
}
static string useInst(Mc &m, const Inst &I, const Plan &pl) {
    if (!I.vals.empty()) {
        bool one = I.vals.size() == 1; Ix dim; if (I.kind != 'O') dim.push_back(I.t.L); if (!one) dim.push_back((int)I.vals.size()); if (I.kind != 'H') dim.push_back(I.n);
        Box b = shape(I.kind, (int)dim.size(), I.t, dim);
        return useBox(m, b, pl, [&](const Ix &i) { int a, k, o; b.coords(i, a, k, o); return I.vals[k][a][o]; }, pl.ctor);
    }
    if (I.kind == 'O') return use<OT>(m, shared_ptr<lpaggreg::OValues>(), qmat(I.tab[0], I.n), I.t, pl, nullptr);
    if (I.kind == 'H') { hqualities t(new vector<shared_ptr<lpaggreg::Quality>>()); for (int h = 0; h < I.t.N; h++) t->push_back(shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality((lp_quality_type)I.tab[h][0][0].g, (lp_quality_type)I.tab[h][0][0].l))); return use<HT>(m, shared_ptr<lpaggreg::HValues>(), t, I.t, pl, nullptr); }
    dqualities t(new vector<shared_ptr<QMat>>()); for (int h = 0; h < I.t.N; h++) t->push_back(qmat(I.tab[h], I.n)); return use<DT>(m, shared_ptr<lpaggreg::DValues>(), t, I.t, pl, nullptr);
}
// run once (A), or on memory filled in three ways, counting what stays allocated (L)
static void __attribute__((noinline)) soil(int b) { volatile unsigned char x[12000]; for (size_t i = 0; i < sizeof x; i++) x[i] = (unsigned char)b; }
static void execute(Mc &m, std::function<string()> f, std::function<string()> what) {
#ifdef COUNTING
    string first; u64 h0 = 0; bool has = false; long after = 0, bytes = 0;
    first.reserve(1 << 20);
    for (int pass = 0; pass < 4; pass++) {
        static const int fills[4] = {0x00, 0xA5, 0xFF, 0x41}; fillByte = fills[pass]; soil(fillByte);
        u64 h; size_t n; { string s = f(); h = mc::mixs(3, s); n = s.size(); }
        if (!has) { h0 = mc::mix(h, n); has = true; }
        else m.check(mc::mix(h, n) == h0, [&] { return "results depend on the previous content of memory (uninitialised use): " + what(); });
        if (pass >= 2) m.check(live == after && liveBytes == bytes, [&] { return "memory leak: " + std::to_string(live - after) + " blocks, " + std::to_string(liveBytes - bytes) + " bytes stay allocated by each repetition of " + what(); });
        after = live; bytes = liveBytes;
    }
    m.state(h0); m.outcome(h0);
#else
    u64 h = mc::mixs(3, f()); m.state(h); m.outcome(h); (void)what;
#endif
    m.trace();
}
static const vector<std::array<float, 3>> few = {{-0.01f, 0, 0}, {0.05f, 0.5f, 0.5f}}, more = {{-0.001f, 0, 0}, {0, 0, 0.01f}, {0.1f, 0.25f, 0.75f}, {1, 0, 1}, {0.05f, 1, 1}, {0, 0, 0}};
static vector<Space> families(const Gens &g, const Plan &pl) { return spaces(g, [pl](Mc &m, Inst &I) { execute(m, [&] { return useInst(m, I, pl); }, [&] { return string("the use of ") + I.str().substr(0, 300); }); }); }
static double val(int f, int x) { return f == 0 ? 1.5 + x % 3 : f == 1 ? 0 : (x * 7 % 5) * 0.25; }
int main(int c, char **v) {
    vector<Space> s; auto add_ = [&](vector<Space> x) { s.insert(s.end(), x.begin(), x.end()); };
    bool counting = false;
#ifdef COUNTING
    counting = true;
#endif
    for (auto cl : classes()) {
        int nc = cl.kind == 'O' ? cl.nd - 1 : cl.kind == 'H' ? cl.nd - 1 : cl.nd - 2; int C = nc >= 3 ? 2 : 3;
        s.push_back({string("box.") + cl.kind + std::to_string(cl.nd), "all shapes: component dimensions <= 2 or 3, length <= 3, trees with <= 3 leaves; by size or values, 3 value patterns, raw or normalised, whole life", false, [=](Mc &m) {
            static map<int, vector<Tree>> ts; auto &tl = ts[cl.nd]; if (tl.empty()) { if (cl.nd == 2 || cl.kind == 'H' && cl.nd < 3) { tl = dTrees(); add(tl, unaryTrees()); } else tl = {oneLeaf(), ref::label(ref::chain(2), 1), ref::label(ref::star(2), 0), ref::label(ref::caterpillar(3, true), 0), ref::label(ref::caterpillar(3, false), 3)}; }
            Box b = drawShape(m, cl.kind, cl.nd, tl, C, 3); int f = m.choose(3), ctor = m.choose(2), norm = m.choose(2);
            m.mine(); m.sample(b.name());
            Plan pl{{0, 0.5f, 1}, few, norm == 1, ctor, 0};
            execute(m, [&] { Box x = shape(b.kind, b.nd, b.t, b.dim); int i = 0; return useBox(m, x, pl, [&](const Ix &) { return val(f, i++); }, ctor); }, [&] { return b.name(); });
        }});
    }
    Plan base{{0, 0.3f, 0.5f, 1}, few, false, 0, 0}, normal = base, wide = base; normal.norm = true; normal.ctor = 1; wide.sweeps = more; wide.ps = {0.5f};
    auto all_ = all();
    add_(families(keep(all_, {"o.tab.micro", "o.tab5", "o.cover", "h.tab.all", "h.tab.unary", "h.tab.shapes", "h.cover", "d.tab.1xn", "d.tab.2x3"}), base));
    Gens n = keep(all_, {"o.data", "o.data.extreme", "o.data.multi", "o.data.comps", "o.data.near", "h.data.multi", "h.data.comps", "h.data.near", "h.data.shapes", "h.data.extreme", "h.data.unary", "d.data.2x2", "d.data.extreme"}); for (auto &x : n) x.bound += ", normalised"; add_(families(n, normal));
    Gens k;
    k.push_back({"o.len", "ordered periodic data, n = 1..40, 12 shapes", false, [](Mc &m, Inst &I) { I = blank('O', oneLeaf(), 1 + m.choose(40)); waveValues(m, I, 1 + m.choose(2), 1, 3); }});
    k.push_back({"h.big", "hierarchical periodic data on large trees", false, [](Mc &m, Inst &I) { I = blank('H', m.pick(bigTrees()), 1); waveValues(m, I, 1, 2, 2); }});
    k.push_back({"h.deep", "chains of 60 and caterpillars of 50 levels", false, [](Mc &m, Inst &I) { static vector<Tree> ts = {ref::label(ref::chain(60), 0), ref::label(ref::chain(60), 1), ref::label(ref::caterpillar(50, true), 0), ref::label(ref::caterpillar(50, false), 1)}; I = blank('H', m.pick(ts), 1); waveValues(m, I, 1, 1, 3); }});
    k.push_back({"d.mid", "spatiotemporal data, trees with 4-5 leaves, n=1..4", false, [](Mc &m, Inst &I) { static vector<Tree> ts = [] { vector<Tree> r; for (int L = 4; L <= 5; L++) gen::add(r, ref::labelled(L, false, 4, {0, 1})); gen::add(r, ref::labelled(3, true, 3, {0, 1})); return r; }(); const Tree &t = m.pick(ts); I = blank('D', t, 1 + m.choose(4)); waveValues(m, I, 1, 1, 2); }});
    k.push_back({"d.big", "spatiotemporal data on large trees, n in {3,6}", false, [](Mc &m, Inst &I) { I = blank('D', m.pick(dTreesBig()), m.choose(2) ? 3 : 6); waveValues(m, I, 1, 1, 2); }});
    add_(families(k, wide));
    // lifetimes: every subset of the objects is released before the rest is read
    {
        Gens l; l.push_back({"o.life", "ordered data and tables, n<=3, every subset of 5 objects released before the others are read", false, [](Mc &m, Inst &I) { if (m.choose(2)) data(m, I, 'O', oneLeaf(), 1 + m.choose(3), 1 + m.choose(2), {0, 2}); else table(m, I, 'O', oneLeaf(), 1 + m.choose(3), A2(), true); }});
        l.push_back({"h.life", "hierarchical data and tables, trees with <=3 leaves, same", false, [](Mc &m, Inst &I) { static vector<Tree> ts = ref::labelled(3, false, 3, {0, 3}); gen::add(ts, {oneLeaf()}); if (m.choose(2)) data(m, I, 'H', m.pick(ts), 1, 1 + m.choose(2), {0, 2}); else table(m, I, 'H', m.pick(ts), 1, A2(), true); }});
        l.push_back({"d.life", "spatiotemporal data and tables, 2 leaves, n<=2, same", false, [](Mc &m, Inst &I) { static vector<Tree> ts = {ref::label(ref::star(2), 0), oneLeaf()}; if (m.choose(2)) data(m, I, 'D', m.pick(ts), 1 + m.choose(2), 1, {0, 2}); else table(m, I, 'D', m.pick(ts), 1 + m.choose(2), A2(), true); }});
        static Plan P; P = base; auto x = spaces(l, [](Mc &m, Inst &I) { execute(m, [&] { return useInst(m, I, P); }, [&] { return string("the use of ") + I.str().substr(0, 300) + ", released objects " + std::to_string(P.drop); }); }, [](Mc &m) { P.drop = m.choose(32); P.ctor = m.choose(2); P.norm = m.choose(2); }); add_(x);
    }
    // histories of one object
    s.push_back({"histories", "all sequences of 4 of 7 operations on 6 objects", false, [](Mc &m) {
        int w = m.choose(6); vector<int> ops; for (int i = 0; i < 4; i++) ops.push_back(m.choose(7)); m.mine();
        Inst I; if (w == 0) I = blank('O', oneLeaf(), 4); else if (w == 1) I = blank('O', oneLeaf(), 1); else if (w == 2) I = blank('H', ref::label(ref::caterpillar(3, true), 0), 1); else if (w == 3) I = blank('H', oneLeaf(), 1); else if (w == 4) I = blank('D', ref::label(ref::caterpillar(3, false), 3), 2); else I = blank('D', oneLeaf(), 2);
        I.vals.assign(1, vector<vector<double>>(I.t.L, vector<double>(I.n))); int c = 0; for (auto &a : I.vals[0]) for (auto &x : a) x = c++ * 5 % 4;
        execute(m, [&] { auto P = pipe(I); string s; P->compute(); P->partitioner();
            for (int o : ops) { m.op(); if (o == 0) s += ser(P->best(0.4f)); else if (o == 1) { P->sweep(0.01f); for (auto &x : P->partitions()) s += ser(x.second); } else if (o == 2) { P->sweep(0.2f, 0.25f, 0.25f); for (float p : P->plist()) s += hex(p); } else if (o == 3) P->compute(); else if (o == 4) P->normalize(); else if (o == 5) P->partitioner(); else { s += hex(P->auc()) + hex(P->getP(P_OPT)) + hex(P->getP(P_MIN)) + hex(P->getP(P_MAX)); for (auto &r : P->rows()) s += hex(r.g); for (auto &x : P->qlist()) s += hex(x.second.l); } }
            return s; }, [&] { string s = "operations"; for (int o : ops) s += " " + std::to_string(o); return s + " on " + I.str().substr(0, 200); });
    }});
    // triangular tables and values
    s.push_back({"triangular", "triangular tables of sizes 0..70, every cell read and written, by pair and by rank", false, [](Mc &m) { int n = m.choose(71); int k = m.choose(3); m.mine();
        execute(m, [&] { string s; if (k == 0) { lpaggreg::UpperTriangularMatrix<int> M(n, 3); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { s += std::to_string(M(i, j)); M(i, j, i + j); } for (int r = 0; r < M.getElements(); r++) s += std::to_string(M[r]); m.op(n * n + n); }
            else if (k == 1) { lpaggreg::UpperTriangularMatrix<lp_quality_type> M(n); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { s += hex(M(i, j)); M(i, j, i); } auto N = M; for (int r = 0; r < N.getElements(); r++) s += hex(N[r]); m.op(n * n + n); }
            else { QMat M(n); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { s += hex(M(i, j)->getGain()); M(i, j)->addToGain(1); } for (int r = 0; r < M.getElements(); r++) s += hex(M[r]->getGain()); m.op(n * n + n); }
            return s; }, [&] { return "a triangular table of size " + std::to_string(n); }); }});
    Gens th = thorough(keep(all_, {"o.tab5+", "h.tab.shapes+", "d.tab.3x2", "d.tab.2", "d.cover", "o.formula", "d.data.3x3", "h.formula"})); add_(families(th, base));
    (void)counting;
    return mc::run(c, v, s);
}
