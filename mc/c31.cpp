// C31: copies and handed-out results are independent of what they came from. All sequences of writes and copies over two
// objects against a model of two independent values; results kept while what they came from is used on, and destroyed.
#include "box.h"
using namespace box; using namespace gen;
static string hex(ld x) { char b[64]; snprintf(b, 64, "%La ", x); return b; }
static string ser(const Res &r) { string s = hex(r.p) + hex(r.g) + hex(r.l); for (auto &x : r.parts) s += "[" + std::to_string(x.h) + " " + std::to_string(x.s) + " " + std::to_string(x.e) + " " + std::to_string(x.size) + " " + hex(x.g) + hex(x.l) + "]"; return s; }
// ---- datasets
template <class T> static void dup(const shared_ptr<T> &from, Box &to, T *into) { if (into) *into = *from; else to.bind(shared_ptr<T>(new T(*from))); }
static void copyTo(const Box &a, Box &b, bool assign) {
#define X(f) if (a.f) { dup(a.f, b, assign ? b.f.get() : nullptr); return; }
    X(o1) X(o2) X(o3) X(o4) X(h1) X(h2) X(h3) X(h4) X(d2) X(d3) X(d4)
#undef X
}
static double start(const Ix &i) { double x = 1; for (int k : i) x = x * 3 + k; return x; }
static void datasets(Mc &m, char kind, int nd, int depth) {
    static vector<Tree> ts = {ref::label(ref::star(2), 0), ref::label("((()())())", 3)};
    Box b = drawShape(m, kind, nd, ts, 2, 2); int cells = 1; for (int x : b.dim) cells *= x;
    // operations: write the first, the middle or the last cell of A or B; B=A; A=B; a new B copied from A
    vector<int> seq; for (int d = 0; d < depth; d++) seq.push_back(m.choose(9));
    m.mine();
    vector<Ix> at; b.each([&](const Ix &i) { at.push_back(i); });
    Box x[2] = {b, b}; byValues(x[0], start); byValues(x[1], [](const Ix &) { return 0.5; }); m.op(2);
    vector<double> want[2]; for (auto &i : at) { want[0].push_back(start(i)); want[1].push_back(0.5); }
    string hist; int n = 0; u64 h = 1;
    for (int op : seq) {
        n++;
        if (op < 6) { int o = op % 2, c = op / 2 == 0 ? 0 : op / 2 == 1 ? cells / 2 : cells - 1; x[o].set(at[c], 100 + n); want[o][c] = 100 + n; hist += string(" write ") + "AB"[o] + std::to_string(c); }
        else if (op == 6) { copyTo(x[0], x[1], true); want[1] = want[0]; hist += " B=A"; }
        else if (op == 7) { copyTo(x[1], x[0], true); want[0] = want[1]; hist += " A=B"; }
        else { Box y = b; copyTo(x[0], y, false); x[1] = y; want[1] = want[0]; hist += " B(A)"; }
        m.op();
        for (int o = 0; o < 2; o++) for (int c = 0; c < cells; c++) {
            int a, k, t; b.coords(at[c], a, k, t); double v = x[o].get(at[c]), f = x[o].flat(a, k, t); m.op(2);
            m.check(v == want[o][c] && f == want[o][c], [&] { return string("dataset ") + "AB"[o] + " (" + b.name() + ") reads " + num(v) + ", flattened " + num(f) + ", instead of " + num(want[o][c]) + " in cell " + std::to_string(c) + " after" + hist; });
            h = mc::mix(h, (u64)(v * 8));
        }
        for (int o = 0; o < 2; o++) m.check(x[o].vsize() == b.K() && x[o].osize() == b.n() && x[o].innerSizes().empty(), [&] { return string("dataset ") + "AB"[o] + " (" + b.name() + ") reports other sizes after" + hist; });
        if (b.leafDim()) for (int o = 0; o < 2; o++) { auto md = x[o].h ? x[o].h->getMetaData() : x[o].d->getMetaData(); m.check(md.getParents() == b.t.par && md.getLeaveSize() == b.t.L && md.getRoot() == b.t.root, [&] { return string("dataset ") + "AB"[o] + " (" + b.name() + ") reports another hierarchy after" + hist; }); }
        m.state(h);
    }
    m.sample(b.name() + hist); m.trace(); m.outcome(h);
}
// ---- triangular tables
template <class T> struct Val;
template <> struct Val<int> { static int of(int k) { return k; } static bool is(int a, int k) { return a == k; } static int zero() { return 0; } };
template <> struct Val<double> { static double of(int k) { return k + 0.25; } static bool is(double a, int k) { return a == k + 0.25; } static double zero() { return 0; } };
template <> struct Val<shared_ptr<lpaggreg::Quality>> { static shared_ptr<lpaggreg::Quality> of(int k) { return std::make_shared<lpaggreg::Quality>(k, -k); } static bool is(const shared_ptr<lpaggreg::Quality> &a, int k) { return a && a->getGain() == k && a->getLoss() == -k; } };
template <> struct Val<shared_ptr<lpaggreg::Tradeoff>> { static shared_ptr<lpaggreg::Tradeoff> of(int k) { return std::make_shared<lpaggreg::Tradeoff>(k, std::make_shared<lpaggreg::Quality>(k, 1)); } static bool is(const shared_ptr<lpaggreg::Tradeoff> &a, int k) { return a && a->getValue() == k; } };
template <class T> static void tables(Mc &m, const char *name, int depth) {
    typedef lpaggreg::UpperTriangularMatrix<T> M; int n = 1 + m.choose(3), n2 = m.choose(2) ? n : n + 1; vector<int> seq; for (int d = 0; d < depth; d++) seq.push_back(m.choose(7));
    m.mine();
    typedef vector<vector<int>> W; W want[2]; int size[2] = {n, n2}; int c0 = 1; shared_ptr<M> x[2];
    for (int o = 0; o < 2; o++) { x[o].reset(new M(size[o])); want[o].assign(size[o], vector<int>(size[o])); for (int i = 0; i < size[o]; i++) for (int j = i; j < size[o]; j++) (*x[o])(i, j, Val<T>::of(want[o][i][j] = c0++)); m.op(); }
    string hist; u64 h = 1;
    for (int op : seq) {
        if (op < 4) { int o = op % 2, i = op / 2 ? size[o] - 1 : 0, j = size[o] - 1; (*x[o])(i, j, Val<T>::of(want[o][i][j] = c0++)); hist += string(" write ") + "AB"[o] + "(" + std::to_string(i) + "," + std::to_string(j) + ")"; }
        else if (op == 4) { *x[1] = *x[0]; want[1] = want[0]; size[1] = size[0]; hist += " B=A"; }
        else if (op == 5) { *x[0] = *x[1]; want[0] = want[1]; size[0] = size[1]; hist += " A=B"; }
        else { x[1].reset(new M(*x[0])); want[1] = want[0]; size[1] = size[0]; hist += " B(A)"; }
        m.op();
        for (int o = 0; o < 2; o++) {
            m.check(x[o]->getSize() == size[o] && x[o]->getElements() == size[o] * (size[o] + 1) / 2, [&] { return string(name) + ": table " + "AB"[o] + " reports another size after" + hist; });
            for (int i = 0; i < size[o]; i++) for (int j = i; j < size[o]; j++) { m.op(); m.check(Val<T>::is((*x[o])(i, j), want[o][i][j]), [&] { return string(name) + ": cell " + std::to_string(i) + "," + std::to_string(j) + " of table " + "AB"[o] + " of size " + std::to_string(size[o]) + " is wrong after" + hist; }); h = mc::mix(h, want[o][i][j]); }
        }
        m.state(h);
    }
    m.sample(name + hist); m.trace(); m.outcome(h);
}
// ---- hierarchy descriptions
static string desc(const lpaggreg::HValuesMetaData &d) {
    string s = std::to_string(d.getRoot()) + " " + std::to_string(d.getLeaveSize()) + " " + std::to_string(d.getHsize()) + "|"; for (int x : d.getParents()) s += std::to_string(x) + " "; s += "|"; for (int x : d.getPath()) s += std::to_string(x) + " "; s += "|";
    for (auto &c : d.getChildren()) { for (int x : c) s += std::to_string(x) + " "; s += ";"; } for (auto &x : d.getSize()) s += std::to_string(x.first) + ":" + std::to_string(x.second) + " "; return s;
}
static void metas(Mc &m, const vector<Tree> &ts) {
    int i = m.choose((int)ts.size()), j = m.choose((int)ts.size()); m.mine();
    vector<int> pa = ts[i].par, pb = ts[j].par; lpaggreg::HValuesMetaData a(ts[i].L, pa), b(ts[j].L, pb); string da = desc(a), db = desc(b); m.op(4); m.sample(ts[i].str() + " / " + ts[j].str());
    auto is = [&](const lpaggreg::HValuesMetaData &x, const string &w, const char *when) { string s = desc(x); m.op(); m.check(s == w, [&] { return string("a hierarchy description is ") + s + " instead of " + w + " " + when + ": " + ts[i].str() + " / " + ts[j].str(); }); };
    for (auto &x : pa) x = 7; pb.clear(); is(a, da, "after a change of the list it was made from"); is(b, db, "after a change of the list it was made from");
    { auto c = a.getChildren(); for (auto &x : c) x.clear(); auto p = a.getPath(); p.assign(p.size(), 0); auto s = a.getSize(); s.clear(); auto q = a.getParents(); q.clear(); } is(a, da, "after changes of what it returned");
    auto c = a; is(c, da, "in a copy"); a = b; is(a, db, "after an assignment"); is(c, da, "in a copy of what was overwritten"); is(b, db, "after it was assigned"); b = c; is(b, da, "after an assignment"); is(a, db, "after what it was assigned from was overwritten"); a = c = b; is(a, da, "after a chain of assignments"); is(c, da, "after a chain of assignments");
    m.state(mc::mixs(1, da + db)); m.trace();
}
// ---- partitioners, partitions, aggregations
template <class A> static V1 aggs(A &a) { V1 r; for (auto &x : a.getAggregates()) { for (double y : V1(x.getSum())) r.push_back(y); for (double y : V1(x.getMean())) r.push_back(y); } return r; }
template <class A> static V1 agg1(A &a) { V1 r; for (auto &x : a.getAggregates()) { r.push_back(x.getSum()); r.push_back(x.getMean()); } return r; }
static string str(const V1 &v) { string s; for (double x : v) s += num(x) + " "; return s; }
template <class V> static string lists(V &p) {
    string s; for (float x : p.getPList()) s += hex(x); s += "|"; for (auto &x : p.getPartitions()) s += hex(x.first) + ser(conv(x.second)); s += "|"; s += std::to_string(p.getPartitionsTuples().size()); s += "|"; for (auto &x : p.getQualityList()) s += hex(x.first) + hex(x.second->getGain()) + hex(x.second->getLoss());
    return s + "|" + hex(p.getP(P_MIN)) + hex(p.getP(P_OPT)) + hex(p.getP(P_MAX)) + hex(p.computeAUC());
}
// all sequences over two partitioners of which one was copied from the other: sweep A, sweep B, another sweep of A, of B, copies
template <class PIPE> static void partitioners(Mc &m, const Inst &I, const vector<int> &seq) {
    PIPE P(I); if (!I.exact()) P.compute(); P.partitioner(); m.op(2);
    typedef typename std::decay<decltype(*P.part)>::type PR; shared_ptr<PR> x[2] = {shared_ptr<PR>(new PR(*P.part)), shared_ptr<PR>(new PR(*P.part))};
    auto sweep = [](PR &p, int w) { if (w == 1) p.computeBestPartitions(0.01f, 0, 1); else p.computeBestPartitions(0.1f, 0.5f, 1); };
    string gold[3]; for (int w = 0; w < 3; w++) { PIPE F(I); if (!I.exact()) F.compute(); F.partitioner(); if (w) sweep(*F.part, w); gold[w] = lists(*F.part); m.op(3); }
    int st[2] = {0, 0}; string hist; u64 h = 1;
    #define VAL(e) typename std::decay<decltype(e)>::type
    struct Kept { vector<float> l; VAL(P.part->getPartitions()) p; VAL(P.part->getPartitionsTuples()) t; VAL(P.part->getQualityList()) q; string was; };
    auto str = [](const Kept &k) { string s; for (float y : k.l) s += hex(y); for (auto &y : k.p) s += hex(y.first) + ser(conv(y.second)); s += std::to_string(k.t.size()); for (auto &y : k.t) s += hex(std::get<0>(y)) + std::to_string(std::get<1>(y)) + " "; for (auto &y : k.q) s += hex(y.first) + hex(y.second->getGain()) + hex(y.second->getLoss()); return s; };
    std::list<Kept> kept;
    for (int op : seq) {
        hist += " " + vector<string>{"sweep1 A", "sweep1 B", "sweep2 A", "sweep2 B", "B=A", "A=B", "B(A)"}[op];
        if (op < 4) { sweep(*x[op % 2], 1 + op / 2); st[op % 2] = 1 + op / 2; } else if (op == 4) { *x[1] = *x[0]; st[1] = st[0]; } else if (op == 5) { *x[0] = *x[1]; st[0] = st[1]; } else { x[1].reset(new PR(*x[0])); st[1] = st[0]; }
        m.op();
        for (int o = 0; o < 2; o++) {
            string s = lists(*x[o]); m.op(); m.check(s == gold[st[o]], [&] { return string("partitioner ") + "AB"[o] + " gives " + s.substr(0, 500) + "\n instead of " + gold[st[o]].substr(0, 500) + "\n after" + hist + " on " + I.str(); });
            Kept k; k.l = x[o]->getPList(); k.p = x[o]->getPartitions(); k.t = x[o]->getPartitionsTuples(); k.q = x[o]->getQualityList(); k.was = str(k);
            { Kept z = k; z.l.assign(z.l.size(), 9); z.p.clear(); z.t.clear(); z.q.clear(); }
            kept.push_back(k);
        }
        for (auto &k : kept) m.check(str(k) == k.was, [&] { return "results taken earlier have changed after" + hist + " on " + I.str(); });
        h = mc::mix(h, st[0] * 3 + st[1]); m.state(mc::mixs(h, gold[st[0]]));
    }
    x[0].reset(); x[1].reset(); for (auto &k : kept) m.check(str(k) == k.was, [&] { return "results have changed when the partitioner was destroyed, after" + hist + " on " + I.str(); });
    m.trace(); m.outcome(h);
}
// a partition and its aggregation, kept while the dataset is overwritten and everything they were made from is destroyed
template <class A, class AGGS, class PN, class VP> static V1 aggregate(PN p, VP v, AGGS f, shared_ptr<A> &keep) { keep.reset(new A(p, v)); return f(*keep); }
template <class PIPE, class ONE, class MANY, class V1_, class V2_> static void results(Mc &m, const Inst &I, V1_ PIPE::*one, V2_ PIPE::*many) {
    std::unique_ptr<PIPE> P(new PIPE(I)); P->compute(); P->partitioner(); m.op(3); Pipe &Q_ = *P;
    auto part = P->raw(0.4f); Res r = conv(part); string was = ser(r); auto copy = *part; auto third = copy; third = *part; m.op(2);
    shared_ptr<ONE> a1; shared_ptr<MANY> a2; V1 ag = ((*P).*one) ? aggregate<ONE>(part, (*P).*one, agg1<ONE>, a1) : aggregate<MANY>(part, (*P).*many, aggs<MANY>, a2); m.op();
    // what it should be, from the reference
    auto still = [&](const char *when) {
        m.op(4);
        m.check(ser(conv(part)) == was, [&] { return string("a partition has changed ") + when + " on " + I.str(); });
        typedef decltype(copy) PT; m.check(ser(conv(shared_ptr<PT>(new PT(copy)))) == was && ser(conv(shared_ptr<PT>(new PT(third)))) == was && copy == *part && third == copy, [&] { return string("a copy of a partition has changed ") + when + " on " + I.str(); });
        V1 now = a1 ? agg1(*a1) : aggs(*a2); m.check(now == ag, [&] { return string("an aggregation has changed ") + when + " on " + I.str(); });
    };
    still("at once");
    { auto ps = part->getParts(); ps.clear(); } still("when the list of its parts was cleared by the caller");
    for (size_t k = 0; k < I.vals.size(); k++) for (int a = 0; a < I.t.L; a++) for (int o = 0; o < I.n; o++) Q_.put((int)k, a, o, 1000 + a + o); m.op();
    still("when the dataset was overwritten");
    // a new aggregation sees the new values
    { V1 g = ((*P).*one) ? ({ shared_ptr<ONE> z; aggregate<ONE>(part, (*P).*one, agg1<ONE>, z); }) : ({ shared_ptr<MANY> z; aggregate<MANY>(part, (*P).*many, aggs<MANY>, z); });
      Inst J = I; for (size_t k = 0; k < I.vals.size(); k++) for (int a = 0; a < I.t.L; a++) for (int o = 0; o < I.n; o++) J.vals[k][a][o] = 1000 + a + o;
      V1 w; for (auto &x : r.parts) { V1 means; for (size_t k = 0; k < I.vals.size(); k++) { double s = 0; for (double c : J.cells((int)k, x.h, x.s, x.e)) s += c; w.push_back(s); means.push_back(s / x.size); } w.insert(w.end(), means.begin(), means.end()); }
      bool eq = g.size() == w.size(); for (size_t k = 0; eq && k < g.size(); k++) eq = near(g[k], w[k], 1e-12L, 0);
      m.check(eq, [&] { return "an aggregation made after the dataset was overwritten does not hold the new sums, on " + I.str() + ": " + str(g) + " / " + str(w); }); m.op(); }
    P->compute(); P->partitioner(); P->sweep(0.1f); m.op(3); still("when the qualities were computed anew and swept");
    P->normalize(); m.op(); still("when the new qualities were normalised");
    P.reset(); still("when the dataset, the qualities and the partitioner were destroyed");
    m.state(mc::mixs(1, was)); m.trace(); m.outcome(hashRes(r));
}
static void resultsOf(Mc &m, Inst &I) {
    using namespace lpaggreg;
    if (I.kind == 'O') results<OPipe, OAggregationN1, OAggregationN2>(m, I, &OPipe::v1, &OPipe::v2); else if (I.kind == 'H') results<HPipe, HAggregationN1, HAggregationN2>(m, I, &HPipe::v1, &HPipe::v2); else results<DPipe, DAggregationN2, DAggregationN3>(m, I, &DPipe::v2, &DPipe::v3);
}
static vector<int> seq;
static void partitionersOf(Mc &m, Inst &I) { if (I.kind == 'O') partitioners<OPipe>(m, I, seq); else if (I.kind == 'H') partitioners<HPipe>(m, I, seq); else partitioners<DPipe>(m, I, seq); }
int main(int c, char **v) {
    vector<Space> s;
    for (auto cl : classes()) for (int th = 0; th < 2; th++) s.push_back({string(1, cl.kind) + std::to_string(cl.nd) + (th ? ".copies+" : ".copies"), string(1, cl.kind) + "ValuesN" + std::to_string(cl.nd) + ": every sequence of " + std::to_string(th ? 5 : 4) + " of 9 writes, copies and assignments over two datasets, every dimension up to 2, 2 hierarchies", (bool)th, [=](Mc &m) { datasets(m, cl.kind, cl.nd, th ? 5 : 4); }});
    s.push_back({"table.int", "tables of integers, n<=3: every sequence of 5 of 7 writes, copies and assignments over two tables of the same or other sizes", false, [](Mc &m) { tables<int>(m, "int", 5); }});
    s.push_back({"table.double", "the same for real numbers", false, [](Mc &m) { tables<double>(m, "double", 5); }});
    s.push_back({"table.quality", "the same for shared qualities", false, [](Mc &m) { tables<shared_ptr<lpaggreg::Quality>>(m, "quality", 5); }});
    s.push_back({"table.tradeoff", "the same for shared trade-offs", false, [](Mc &m) { tables<shared_ptr<lpaggreg::Tradeoff>>(m, "trade-off", 5); }});
    s.push_back({"hierarchy", "all pairs of labelled trees with <=3 leaves and <=2 inner nodes: lists changed after use, copies, assignments", false, [](Mc &m) { metas(m, smallTrees()); }});
    s.push_back({"hierarchy.shapes", "all pairs of shapes with 5 leaves", false, [](Mc &m) { metas(m, shapeTrees(5)); }});
    Gens pg = keep(all(), {"o.cover", "h.cover", "d.tab.1xn"});
    Gens few; few.push_back({"o.partitioners", "3 ordered formula tables n=6 and 2 datasets: every sequence of 4 of 7 sweeps, copies and assignments over two partitioners", false, [](Mc &m, Inst &I) { int f = m.choose(3); I = blank('O', oneLeaf(), 6); if (f) { I.vals.assign(f, V2(1, V1{1, 1, 4, 0, 7, 2})); } else formulaTable(m, I, 1, 1, 3); }});
    few.push_back({"h.partitioners", "the same for 3 hierarchies", false, [](Mc &m, Inst &I) { static vector<Tree> ts = {ref::label("((()())())", 3), ref::label("((()())(()()()))", 1), ref::label(ref::star(3), 0)}; I = blank('H', m.pick(ts), 1); if (m.choose(2)) { I.vals.assign(1, V2()); for (int a = 0; a < I.t.L; a++) I.vals[0].push_back(V1(1, (a * 3 + 1) % 5)); } else formulaTable(m, I, 1, 1, 2); }});
    few.push_back({"d.partitioners", "the same for 2 hierarchies, n=2", false, [](Mc &m, Inst &I) { static vector<Tree> ts = {ref::label("((()())())", 3), ref::label(ref::star(2), 0)}; I = blank('D', m.pick(ts), 2); if (m.choose(2)) { I.vals.assign(1, V2()); for (int a = 0; a < I.t.L; a++) I.vals[0].push_back(V1{double((a * 3 + 1) % 5), double(a)}); } else formulaTable(m, I, 1, 1, 2); }});
    for (int th = 0; th < 2; th++) { auto p = spaces(few, partitionersOf, [=](Mc &m) { seq.clear(); for (int d = 0; d < 4 + th; d++) seq.push_back(m.choose(7)); }); for (auto &x : p) { if (th) { x.name += "+"; x.bound += " (5)"; x.thoroughOnly = true; } s.push_back(x); } }
    auto r = spaces(keep(allData(), {"o.data", "o.data.multi", "h.data", "h.data.multi", "h.data.unary", "d.data.2x2", "d.data.multi"}), resultsOf); for (auto &x : r) x.name += ".results"; s.insert(s.end(), r.begin(), r.end());
    return mc::run(c, v, s);
}
