// C16/C17/C18: aggregates carry the sums and means of their parts. -DKIND selects the kind.
#include "box.h"
using namespace box; using namespace gen;
#ifndef KIND
#define KIND 'O'
#endif
struct Agg { Part part; V1 sum, mean; };
static void flatten(double x, V1 &o) { o.push_back(x); }
template <class T> static void flatten(const vector<T> &v, V1 &o) { for (auto &x : v) flatten(x, o); }
static Part conv1(const lpaggreg::OPart &q) { lpaggreg::OPart x = q; Part p; p.s = x.getStart(); p.e = x.getEnd(); p.size = x.getSize(); return p; }
static Part conv1(const lpaggreg::HPart &q) { lpaggreg::HPart x = q; Part p; p.h = x.getH(); p.size = x.getSize(); return p; }
static Part conv1(const lpaggreg::DPart &q) { lpaggreg::DPart x = q; Part p; p.h = x.getH(); p.s = x.getStart(); p.e = x.getEnd(); p.size = x.getSize(); return p; }
template <class A, class P, class VP> static vector<Agg> get(P part, VP vals, int way) {
    shared_ptr<A> a(new A(part, vals)); vector<Agg> r;
    for (auto &x : a->getAggregates()) { Agg g; g.part = conv1(x.getPart()); flatten(x.getSum(), g.sum); flatten(x.getMean(), g.mean); r.push_back(g); }
    return r;
}
#define PICK(nd, A, vp) if (b.vp) return get<lpaggreg::A>(part, b.vp, 0)
static vector<Agg> aggregates(Box &b, shared_ptr<lpaggreg::OPartition> part) { PICK(1, OAggregationN1, o1); PICK(2, OAggregationN2, o2); PICK(3, OAggregationN3, o3); PICK(4, OAggregationN4, o4); std::abort(); }
static vector<Agg> aggregates(Box &b, shared_ptr<lpaggreg::HPartition> part) { PICK(1, HAggregationN1, h1); PICK(2, HAggregationN2, h2); PICK(3, HAggregationN3, h3); PICK(4, HAggregationN4, h4); std::abort(); }
static vector<Agg> aggregates(Box &b, shared_ptr<lpaggreg::DPartition> part) { PICK(2, DAggregationN2, d2); PICK(3, DAggregationN3, d3); PICK(4, DAggregationN4, d4); std::abort(); }

static double pattern(int f, const Ix &i, const Box &b) {
    int a, k, o; b.coords(i, a, k, o); int x = a * b.n() + o;
    return f == 0 ? std::ldexp(1.0, x % 40) + 0.125 * k : f == 1 ? (double)((x * 7 + k * 3) % 11) : f == 2 ? (x == k % (b.L() * b.n()) ? 4.0 : 0) : f == 5 ? (x % 3 - 1.25) * (1 + k) - x : f == 3 ? 0.1 + x * 1.3 + k * 17 : (x + k) % 3 == 0 ? 1e17 : (x + k) % 3 == 1 ? 1.0 / (3 + x) : 1e-5 * (1 + k);
}
template <class PIPE> static void check(Mc &m, Box &b, Inst &T, int f, float p) {
    auto want = [&](const Ix &i) { return pattern(f, i, b); };
    byValues(b, want); m.op();
    PIPE P(T); P.partitioner(); auto part = P.raw(p); Res r = conv(part); m.op(3);
    checkCover(m, T, r);
    for (int again = 0; again < 2; again++) {
        vector<Agg> g = aggregates(b, part); m.op();
        auto ctx = [&] { return b.name() + " pattern " + std::to_string(f) + ", " + str(r); };
        m.check(g.size() == r.parts.size(), [&] { return std::to_string(g.size()) + " aggregates for " + std::to_string(r.parts.size()) + " parts: " + ctx(); });
        Inst I = inst(b, want); u64 h = hashRes(r);
        for (size_t x = 0; x < g.size(); x++) {
            auto &q = r.parts[x];
            m.check(ref::same(g[x].part, q) && g[x].part.size == q.size, [&] { return "aggregate " + std::to_string(x) + " is not that of part " + std::to_string(x) + ": " + ctx(); });
            m.check((int)g[x].sum.size() == b.K() && (int)g[x].mean.size() == b.K(), [&] { return "aggregate " + std::to_string(x) + " has " + std::to_string(g[x].sum.size()) + " sums: " + ctx(); });
            for (int k = 0; k < b.K(); k++) {
                ld s = 0, ab = 0; auto c = I.cells(k, q.h, q.s, q.e); for (double y : c) { s += y; ab += std::fabs(y); }
                m.check(near(g[x].sum[k], s, 0, 1e-13L * ab) && near(g[x].mean[k], s / c.size(), 0, 1e-13L * ab), [&] { return "aggregate " + std::to_string(x) + " component " + std::to_string(k) + " has sum " + num(g[x].sum[k]) + " mean " + num(g[x].mean[k]) + ", expected " + num(s) + ", " + num(s / c.size()) + ": " + ctx(); });
                h = mc::mix(h, (u64)(std::fabs(g[x].sum[k]) < 1e15 ? (long long)(g[x].sum[k] * 1000) : 1));
            }
        }
        m.state(h); m.outcome(h);
    }
    b.each([&](const Ix &i) { m.check(b.get(i) == want(i), [&] { return "aggregating changed the data of " + b.name(); }); });
    m.trace();
}
static void run1(Mc &m, int nd, const vector<Tree> &ts, int C, int T) {
    Box b = drawShape(m, KIND, nd, ts, C, T);
    auto &cv = ref::covers(b.t, b.n()); int c = m.choose((int)cv.size()); int f = m.choose(6);
    m.mine();
    Inst I = blank(KIND, b.t, b.n()); coverTable(I, cv[c]);
    m.sample(b.name() + " cover " + std::to_string(c) + " pattern " + std::to_string(f));
    if (KIND == 'O') check<OPipe>(m, b, I, f, 0.5f); else if (KIND == 'H') check<HPipe>(m, b, I, f, 0.5f); else check<DPipe>(m, b, I, f, 0.5f);
}
// large: partitions obtained from formula tables at several p
static void run2(Mc &m, int nd) {
    Tree t = KIND == 'O' ? oneLeaf() : KIND == 'H' ? m.pick(bigTrees()) : m.pick(dTreesBig()); int n = KIND == 'H' ? 1 : KIND == 'O' ? m.pick(vector<int>{17, 40, 65}) : m.pick(vector<int>{3, 8});
    Inst I = blank(KIND, t, n); formulaTable(m, I, 2, 2, 3); float p = m.pick(vector<float>{0, 0.25f, 0.4f, 0.5f, 0.6f, 0.75f, 1}); int f = m.choose(6);
    m.mine();
    Ix dim; if (KIND != 'O') dim.push_back(t.L); int nc = KIND == 'D' ? nd - 2 : nd - 1; for (int i = 0; i < nc; i++) dim.push_back(i == 1 ? 3 : 2); if (KIND != 'H') dim.push_back(n);
    Box b = shape(KIND, nd, t, dim); m.sample(b.name() + " p " + num(p));
    if (KIND == 'O') check<OPipe>(m, b, I, f, p); else if (KIND == 'H') check<HPipe>(m, b, I, f, p); else check<DPipe>(m, b, I, f, p);
}
// sizes beyond 128 and 256
static void run4(Mc &m, int nd) {
    Inst I; if (KIND == 'O') I = blank('O', oneLeaf(), m.pick(vector<int>{130, 257, 300, 520, 1030})); else if (KIND == 'H') I = blank('H', m.choose(2) ? m.pick(hugeTrees()) : m.pick(largeTrees()), 1); else if (m.choose(2)) hugeD(m, I); else largeD(m, I, true);
    int way = m.choose(4), f = m.choose(6); m.mine();
    I.alloc(); int h0 = I.t.kids[I.t.root].empty() ? I.t.root : I.t.kids[I.t.root].back();
    for (int h = 0; h < I.t.N; h++) for (int i = 0; i < I.n; i++) for (int j = i; j < I.n; j++) {
        int w = I.t.size(h) * (j - i + 1); if (w < 2) continue;
        bool good = way == 0 ? w == I.t.L * I.n : way == 1 ? (I.n > 1 ? j - i == I.n - 2 && h == I.t.root : h == h0) : way == 2 ? w % 2 == 0 && i % 2 == 0 && w < 6 : w * 2 >= I.t.L * I.n;
        I.tab[h][i][j] = good ? Q(w, 0) : Q(0, 2 * w);
    }
    Ix dim; if (KIND != 'O') dim.push_back(I.t.L); int nc = KIND == 'D' ? nd - 2 : nd - 1; for (int i = 0; i < nc; i++) dim.push_back(i == 0 ? 2 : 1); if (KIND != 'H') dim.push_back(I.n);
    Box b = shape(KIND, nd, I.t, dim); m.sample(b.name());
    if (KIND == 'O') check<OPipe>(m, b, I, f, 0.5f); else if (KIND == 'H') check<HPipe>(m, b, I, f, 0.5f); else check<DPipe>(m, b, I, f, 0.5f);
}
// skewed component dimensions, with a few covers
static void run3(Mc &m, int nd) {
    static vector<Tree> ts = KIND == 'O' ? vector<Tree>{oneLeaf()} : vector<Tree>{ref::label(ref::star(2), 1), ref::label("((()())())", 3), ref::label("((()())(()()()))", 5)};
    int nc = KIND == 'D' ? nd - 2 : nd - 1;
    Box b = drawWide(m, KIND, nd, ts, {5, 9, 17, 40, 260, 1030}, nc == 3 ? 2 : 3, false); int way = m.choose(4), f = m.choose(6);
    m.mine();
    Inst I = blank(KIND, b.t, b.n()); I.alloc();
    for (int h = 0; h < b.t.N; h++) for (int i = 0; i < b.n(); i++) for (int j = i; j < b.n(); j++) { int w = b.t.size(h) * (j - i + 1); if (w > 1) I.tab[h][i][j] = way == 0 ? Q(w, 0) : way == 1 ? Q(0, w) : way == 2 ? Q(w * w, (w * (h + i)) % 4 + w / 2) : Q(w * 3 - (h + j) % 3, w + i); }
    m.sample(b.name());
    if (KIND == 'O') check<OPipe>(m, b, I, f, 0.5f); else if (KIND == 'H') check<HPipe>(m, b, I, f, 0.5f); else check<DPipe>(m, b, I, f, 0.5f);
}
int main(int c, char **v) {
    vector<Space> s;
    static vector<Tree> h1 = [] { vector<Tree> r; if (KIND == 'H') { r = midTrees(); add(r, unaryTrees()); add(r, ref::labelled(5, false, 5, {0, 1, 3})); } else { r = dTrees(); } return r; }();
    static vector<Tree> h2 = [] { vector<Tree> r; if (KIND == 'H') { r = smallTrees(); add(r, ref::labelled(4, false, 4, {0, 3})); } else for (auto &t : dTrees()) if (t.L <= 2 || t.N == 5) r.push_back(t); return r; }();
    for (auto cl : classes()) if (cl.kind == KIND) {
        int nd = cl.nd; string n = string(1, KIND) + std::to_string(nd); int nc = KIND == 'D' ? nd - 2 : nd - 1;
        int C = nc == 0 ? 1 : nc == 1 ? 4 : 3, T = KIND == 'O' ? 6 : 3;
        bool small = nc >= 2;
        s.push_back({n + ".covers", "every cover of the enumerated hierarchies and lengths (ordered n<=6; hierarchies: all labelled trees up to 4 leaves; spatiotemporal: 3 leaves x 3), component dimensions up to " + std::to_string(C) + ", 6 value patterns (one of them of negative values)", false, [=](Mc &m) { run1(m, nd, small ? h2 : h1, C, T); }});
        s.push_back({n + ".large", "large hierarchies and lengths, partitions at 7 p of 12 formula tables, 6 value patterns (one of them of negative values)", false, [=](Mc &m) { run2(m, nd); }});
        s.push_back({n + ".sizes", "lengths and hierarchies of 130-1050 elements (parts of more than 255 cells), 4 tables, 6 value patterns", false, [=](Mc &m) { run4(m, nd); }});
        if (nc) s.push_back({n + ".wide", "one component dimension in {5,9,17,40,260,1030}, the others small, 4 tables, 6 value patterns (one of them of negative values)", false, [=](Mc &m) { run3(m, nd); }});
        if (KIND != 'O') s.push_back({n + ".covers+", "as .covers with more hierarchies", true, [=](Mc &m) { static vector<Tree> more = [] { vector<Tree> r; if (KIND == 'H') { r = shapeTrees(5); add(r, shapeTrees(6)); } else r = ref::labelled(4, false, 3, {0, 3, 4}); return r; }(); run1(m, nd, more, 2, KIND == 'H' ? 1 : 2); }});
        else s.push_back({n + ".covers+", "ordered n<=10", true, [=](Mc &m) { run1(m, nd, h1, 2, 10); }});
    }
    return mc::run(c, v, s);
}
