// C32: running out of memory at any point is reported as std::bad_alloc, loses and changes nothing. Every allocation of every
// operation is made to fail in turn (alone, or with all that follow), and the operation is then repeated on the same objects.
#include "box.h"
#include <new>
using namespace box; using namespace gen;
// ---- the allocator under control
static long live, nth, failAt = -1; static bool sticky, hit;
static void *get(std::size_t n) { if (failAt >= 0) { long c = nth++; if (c == failAt || (sticky && c > failAt)) { hit = true; return nullptr; } } void *p = std::malloc(n ? n : 1); if (p) live++; return p; }
static void put(void *p) { if (p) { live--; std::free(p); } }
void *operator new(std::size_t n) { void *p = get(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](std::size_t n) { void *p = get(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return get(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, std::size_t) noexcept { put(p); }
void operator delete[](void *p, std::size_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }
struct Armed { Armed(long k, bool s) { failAt = k; sticky = s; nth = 0; hit = false; } ~Armed() { failAt = -1; } };
static string hex(ld x) { char b[64]; snprintf(b, 64, "%La ", x); return b; }
static string ser(const Res &r) { string s = hex(r.p) + hex(r.g) + hex(r.l); for (auto &x : r.parts) s += "[" + std::to_string(x.h) + " " + std::to_string(x.hs) + " " + std::to_string(x.s) + " " + std::to_string(x.e) + " " + std::to_string(x.size) + " " + hex(x.g) + hex(x.l) + "]"; return s; }

// ---- a world: objects brought to where an operation can start, the operation, and what it gives
struct World {
    virtual ~World() {}
    virtual void run() = 0;                     // the operation; may throw std::bad_alloc
    virtual string show() = 0;                  // its result
    virtual string inputs() { return ""; }      // what it must not change
    virtual bool repair() { return true; }      // before the operation is repeated; false: it cannot be
    virtual string after() { return ""; }       // what the objects give when they are used on
};
static void inject(Mc &m, const string &what, std::function<std::unique_ptr<World>()> make, bool all, long every = 1) {
    string gold, goldAfter, in; { auto w = make(); in = w->inputs(); w->run(); gold = w->show(); goldAfter = w->after(); m.op(2); }
    u64 h = mc::mixs(1, gold);
    for (long k = 0;; k += every) {
        long l0 = live; bool out = false, reached; string e;
        {
            auto w = make(); auto when = [&] { return ", when allocation " + std::to_string(k + 1) + (all ? " and all later ones" : "") + " of " + what + " fails"; };
            try { Armed a(k, all); w->run(); } catch (std::bad_alloc &) { out = true; } catch (mc::Violation &x) { e = x.what(); } catch (std::exception &x) { e = string("an exception other than std::bad_alloc is thrown: ") + x.what(); }
            m.op(); reached = hit;
            m.check(e.empty(), [&] { return e + when(); });
            m.check(!out || reached, [&] { return "std::bad_alloc without a failure in " + what; });
            if (!out) { string s = w->show(); m.check(s == gold, [&] { return "the result is " + s.substr(0, 400) + " instead of " + gold.substr(0, 400) + when(); }); }
            string now = w->inputs(); m.check(now == in, [&] { return "the input has changed to " + now.substr(0, 400) + " from " + in.substr(0, 400) + when(); });
            if (reached && w->repair()) {
                w->run(); string s = w->show(); now = w->inputs(); m.op();
                m.check(now == in, [&] { return "the repeated operation has changed the input to " + now.substr(0, 400) + when(); });
                string t = w->after(); m.op();
                m.check(s == gold, [&] { return "repeated, the operation gives " + s.substr(0, 400) + " instead of " + gold.substr(0, 400) + when(); });
                m.check(t == goldAfter, [&] { return "used on, the objects give " + t.substr(0, 400) + " instead of " + goldAfter.substr(0, 400) + when(); });
            }
        }
        m.check(live == l0, [&] { return std::to_string(live - l0) + " allocations are lost when allocation " + std::to_string(k + 1) + (all ? " and all later ones" : "") + " of " + what + " fails"; });
        m.state(mc::mix(h, k)); m.trace();
        if (!reached) break;
    }
    m.outcome(h);
}
// ---- the pipeline
enum { BUILD, COMPUTE, NORMALIZE, PARTITIONER, RAWPART, BEST, SWEEP, READ, COMPARE, COPY, AGGREGATE, OPS };
static const char *opn[] = {"building the dataset and the quality object", "computing the qualities", "normalising", "making a partitioner", "making a partitioner of the table", "a best partition", "a sweep", "reading the results of a sweep", "comparing partitions", "copying a partitioner", "aggregating"};
template <class A> static void aggs(V1 &r, A &a) { for (auto &x : a.getAggregates()) { for (double y : V1(x.getSum())) r.push_back(y); for (double y : V1(x.getMean())) r.push_back(y); } }
template <class A> static void agg1(V1 &r, A &a) { for (auto &x : a.getAggregates()) { r.push_back(x.getSum()); r.push_back(x.getMean()); } }
static void aggOf(V1 &r, OPipe &P, shared_ptr<lpaggreg::OPartition> p) { using namespace lpaggreg; if (P.v1) { OAggregationN1 a(p, P.v1); agg1(r, a); } else { OAggregationN2 a(p, P.v2); aggs(r, a); } }
static void aggOf(V1 &r, HPipe &P, shared_ptr<lpaggreg::HPartition> p) { using namespace lpaggreg; if (P.v1) { HAggregationN1 a(p, P.v1); agg1(r, a); } else { HAggregationN2 a(p, P.v2); aggs(r, a); } }
static void aggOf(V1 &r, DPipe &P, shared_ptr<lpaggreg::DPartition> p) { using namespace lpaggreg; if (P.v2) { DAggregationN2 a(p, P.v2); agg1(r, a); } else { DAggregationN3 a(p, P.v3); aggs(r, a); } }
template <class PIPE> struct Line : World {
    const Inst &I; int op; std::unique_ptr<PIPE> P; typedef typename std::decay<decltype(*std::declval<PIPE>().part)>::type PT; shared_ptr<PT> copy;
    decltype(std::declval<PIPE>().raw(0.f)) p1, p2; Res r; vector<float> pl; map<float, Res> ps; vector<Row> rows; map<float, Q> ql; V1 nums; bool same = false;
    Line(const Inst &I, int op) : I(I), op(op) {
        if (op == BUILD) return; P.reset(new PIPE(I));
        if (op == COMPUTE) return; if (!I.exact()) P->compute();
        if (op == NORMALIZE || op == PARTITIONER || op == RAWPART) return; P->partitioner();
        if (op == READ || op == COPY) P->sweep(0.05f, 0, 1);
        if (op == COMPARE) { p1 = P->raw(0.25f); p2 = P->raw(0.25f); }
        if (op == AGGREGATE) p1 = P->raw(0.5f);
    }
    void run() override {
        nums.clear();
        switch (op) {
        case BUILD: P.reset(new PIPE(I)); break;
        case COMPUTE: P->compute(); break;
        case NORMALIZE: P->normalize(); break;
        case PARTITIONER: P->partitioner(); break;
        case RAWPART: P->partitionerRaw(); break;
        case BEST: r = P->best(0.5f); break;
        case SWEEP: P->sweep(0.05f, 0, 1); break;
        case READ: pl = P->plist(); ps = P->partitions(); rows = P->rows(); ql = P->qlist(); nums = {P->getP(P_MIN), P->getP(P_OPT), P->getP(P_MAX), P->auc()}; break;
        case COMPARE: same = *p1 == *p2 && !(*p1 != *p2); break;
        case COPY: copy = shared_ptr<PT>(new PT(*P->part)); *copy = *P->part; break;
        case AGGREGATE: aggOf(nums, *P, p1); break;
        }
    }
    string qualities() { string s; if (!P->hasQualities()) return s; for (int h = 0; h < I.t.N; h++) for (int i = 0; i < I.n; i++) for (int j = i; j < I.n; j++) { Q q = P->quality(h, i, j); s += hex(q.g) + hex(q.l); } return s; }
    string data() { string s; for (size_t k = 0; k < I.vals.size(); k++) for (int a = 0; a < I.t.L; a++) for (int o = 0; o < I.n; o++) s += hex(P->value((int)k, a, o)); return s; }
    string lists(PT &p) { string s; for (float x : p.getPList()) s += hex(x); for (auto &x : p.getPartitions()) s += hex(x.first) + ser(conv(x.second)); s += std::to_string(p.getPartitionsTuples().size()); for (auto &x : p.getQualityList()) s += hex(x.first) + hex(x.second->getGain()) + hex(x.second->getLoss()); return s; }
    string inputs() override { return op == BUILD ? "" : op <= NORMALIZE ? data() : data() + "|" + qualities() + (op == COPY || op == READ ? lists(*P->part) : op == COMPARE || op == AGGREGATE ? ser(conv(p1)) : ""); }
    bool repair() override { if (op == NORMALIZE) { if (I.exact()) return false; P->compute(); } return true; }
    string show() override {
        string s;
        switch (op) {
        case BUILD: return data() + (I.exact() ? qualities() : "");
        case COMPUTE: case NORMALIZE: return qualities();
        case PARTITIONER: case RAWPART: return "";
        case BEST: return ser(r);
        case SWEEP: return lists(*P->part);
        case READ: for (float x : pl) s += hex(x); for (auto &x : ps) s += hex(x.first) + ser(x.second); for (auto &x : rows) s += hex(x.p) + std::to_string(x.h) + " " + std::to_string(x.s) + " " + std::to_string(x.e) + " " + std::to_string(x.size) + hex(x.g) + hex(x.l); for (auto &x : ql) s += hex(x.first) + hex(x.second.g) + hex(x.second.l); break;
        case COMPARE: return same ? "same" : "different";
        case COPY: return lists(*copy);
        }
        for (double x : nums) s += hex(x); return s;
    }
    string after() override { if (op == BUILD && !I.exact()) P->compute(); if (op <= NORMALIZE) P->partitioner(); PIPE &p = *P; string s = ser(p.best(0.25f)); p.sweep(0.1f, 0, 1); return s + lists(*p.part); }
};
static int gOp; static bool gAll;
static void pipeline(Mc &m, Inst &I) {
    if (gOp == COMPUTE && I.exact()) return; if (gOp == AGGREGATE && I.exact()) return;
    inject(m, string(opn[gOp]) + " of " + I.str().substr(0, 1000), [&]() -> std::unique_ptr<World> { if (I.kind == 'O') return std::unique_ptr<World>(new Line<OPipe>(I, gOp)); if (I.kind == 'H') return std::unique_ptr<World>(new Line<HPipe>(I, gOp)); return std::unique_ptr<World>(new Line<DPipe>(I, gOp)); }, gAll);
}
// ---- datasets of every class
struct Data : World {
    Box b; bool size; V1 got; int vs = 0, os = 0; string in;
    Data(const Box &x, bool size) : b(x), size(size) {}
    static double val(const Ix &i) { double x = 1; for (int k : i) x = x * 5 + k; return x; }
    void run() override {
        got.clear(); if (size) bySize(b); else byValues(b, val);
        b.each([&](const Ix &i) { int a, k, o; b.coords(i, a, k, o); got.push_back(b.get(i)); got.push_back(b.flat(a, k, o)); }); vs = b.vsize(); os = b.osize();
    }
    string show() override { string s = std::to_string(vs) + " " + std::to_string(os); for (double x : got) s += " " + num(x); return s; }
    string after() override { double z = 0; b.each([&](const Ix &i) { b.set(i, z += 0.5); }); string s; b.each([&](const Ix &i) { s += num(b.get(i)) + " "; }); if (b.leafDim()) { auto md = b.h ? b.h->getMetaData() : b.d->getMetaData(); for (int x : md.getPath()) s += std::to_string(x) + " "; } return s; }
};
// ---- hierarchies and tables
struct Hier : World {
    const Tree &t; shared_ptr<lpaggreg::HValuesMetaData> d; vector<int> par, path; vector<vector<int>> ch; map<int, int> sz;
    Hier(const Tree &t) : t(t) {}
    template <class C> static void to(C &x, const C &y) { x = y; }
    template <class C, class D> static void to(C &x, const D &y) { x = C(y.begin(), y.end()); }
    void run() override { d.reset(new lpaggreg::HValuesMetaData(t.L, t.par)); lpaggreg::HValuesMetaData c(*d); c = *d; to(par, c.getParents()); to(path, d->getPath()); ch.clear(); for (auto &x : d->getChildren()) { ch.push_back({}); to(ch.back(), x); } sz.clear(); for (auto &x : d->getSize()) sz[x.first] = x.second; }
    string show() override { string s; for (int x : par) s += std::to_string(x) + " "; for (int x : path) s += std::to_string(x) + " "; for (auto &c : ch) { for (int x : c) s += std::to_string(x) + " "; s += ";"; } for (auto &x : sz) s += std::to_string(x.first) + ":" + std::to_string(x.second) + " "; return s; }
};
template <class T> struct Table : World {
    typedef lpaggreg::UpperTriangularMatrix<T> M; int n; bool init; T v; shared_ptr<M> x, y;
    Table(int n, bool init, T v) : n(n), init(init), v(v) {}
    void run() override { x.reset(init ? new M(n, v) : new M(n)); y.reset(new M(*x)); *y = *x; }
    string show() override { return std::to_string(x->getSize()) + " " + std::to_string(x->getElements()) + " " + std::to_string(y->getElements()); }
};
template <class T> static void tables(Mc &m, const char *name, T v) { int n = m.choose(7); bool init = m.choose(2), all = m.choose(2); m.mine(); m.sample(name); inject(m, string("making and copying a table of ") + name + ", size " + std::to_string(n), [&] { return std::unique_ptr<World>(new Table<T>(n, init, v)); }, all); }

int main(int c, char **v) {
    auto all_ = all(); vector<Space> s;
    auto pre = [](Mc &m) { gOp = m.choose(OPS); gAll = m.choose(2); };
    auto add = [&](const Gens &g) { for (auto &x : spaces(g, pipeline, pre)) { s.push_back(x); s.back().bound += ", every allocation of each of 11 operations failing, alone or with all later ones"; } };
    add({
        {"o.table", "ordered tables, n<=3, every interval of length>=2 in 3 exact qualities", false, [](Mc &m, Inst &I) { table(m, I, 'O', oneLeaf(), 1 + m.choose(3), A3(), true); }},
        {"o.values", "ordered data, n<=3 over {0,1,5}, and of 2 components, n<=2 over {0,3}", false, [](Mc &m, Inst &I) { if (m.choose(2)) data(m, I, 'O', oneLeaf(), 1 + m.choose(3), 1, {0, 1, 5}); else data(m, I, 'O', oneLeaf(), 1 + m.choose(2), 2, {0, 3}); }},
        {"h.table", "hierarchical tables, all labelled trees with <=3 leaves and <=2 inner nodes, every inner node in 2 exact qualities", false, [](Mc &m, Inst &I) { table(m, I, 'H', m.pick(smallTrees()), 1, A2(), true); }},
        {"h.values", "hierarchical data, all labelled trees with <=3 leaves and <=2 inner nodes, 1-2 components, values in {1,3}", false, [](Mc &m, Inst &I) { data(m, I, 'H', m.pick(smallTrees()), 1, 1 + m.choose(2), {1, 3}); }},
        {"d.table", "spatiotemporal formula tables, trees with <=3 leaves, n<=2", false, [](Mc &m, Inst &I) { I = blank('D', m.pick(dTrees()), 1 + m.choose(2)); formulaTable(m, I, 1, 2, 1); }},
        {"d.values", "spatiotemporal data, trees with <=3 leaves, n<=2, 1-2 components, periodic", false, [](Mc &m, Inst &I) { I = blank('D', m.pick(dTrees()), 1 + m.choose(2)); waveValues(m, I, 1 + m.choose(2), 1, 2); }},
        {"o.more", "ordered periodic data, n in {5,9}, 1-2 components", false, [](Mc &m, Inst &I) { I = blank('O', oneLeaf(), m.choose(2) ? 5 : 9); waveValues(m, I, 1 + m.choose(2), 2, 2); }},
        {"h.more", "hierarchical periodic data, shapes with 5 leaves, 2 numberings", false, [](Mc &m, Inst &I) { static vector<Tree> ts = ref::labelled(5, false, 5, {0, 3}); I = blank('H', m.pick(ts), 1); waveValues(m, I, 1 + m.choose(2), 1, 2); }},
        {"h.more+", "hierarchical tables, shapes with 6 leaves, inner nodes in 2 exact qualities", true, [](Mc &m, Inst &I) { static vector<Tree> ts = ref::labelled(6, false, 6, {0, 3}); table(m, I, 'H', m.pick(ts), 1, A2(), true); }},
        {"d.more+", "spatiotemporal periodic data, trees with <=3 leaves, n=3, 1-2 components", true, [](Mc &m, Inst &I) { I = blank('D', m.pick(dTrees()), 3); waveValues(m, I, 1 + m.choose(2), 1, 2); }},
    });
    static const vector<Tree> few = {ref::single(), ref::label(ref::chain(2), 1), ref::label(ref::star(2), 0), ref::label("((()())())", 3)};
    for (auto cl : classes()) s.push_back({string(1, cl.kind) + std::to_string(cl.nd) + ".data", string(1, cl.kind) + "ValuesN" + std::to_string(cl.nd) + ", component dimensions up to 2, length up to 2, 4 hierarchies, by values and by size, every allocation failing, alone or with all later ones", false, [=](Mc &m) {
        Box b = drawShape(m, cl.kind, cl.nd, few, 2, 2); bool size = m.choose(2), all = m.choose(2); m.mine(); m.sample(b.name()); inject(m, string("building by ") + (size ? "size " : "values ") + b.name(), [&] { return std::unique_ptr<World>(new Data(b, size)); }, all);
    }});
    s.push_back({"hierarchies", "all labelled trees with <=4 leaves and <=3 inner nodes, described, copied and read, every allocation failing, alone or with all later ones", false, [](Mc &m) { const Tree &t = m.pick(midTrees()); bool all = m.choose(2); m.mine(); m.sample(t.str()); inject(m, "describing " + t.str(), [&] { return std::unique_ptr<World>(new Hier(t)); }, all); }});
    s.push_back({"tables", "triangular tables of 4 element kinds, size<=6, with and without an initial value, every allocation failing, alone or with all later ones", false, [](Mc &m) {
        int k = m.choose(4); if (k == 0) tables<int>(m, "int", 4); else if (k == 1) tables<double>(m, "double", 0.5); else if (k == 2) tables<shared_ptr<lpaggreg::Quality>>(m, "qualities", std::make_shared<lpaggreg::Quality>(1, 2)); else tables<shared_ptr<lpaggreg::Tradeoff>>(m, "trade-offs", std::make_shared<lpaggreg::Tradeoff>(1, std::make_shared<lpaggreg::Quality>(1, 2)));
    }});
    return mc::run(c, v, s);
}
