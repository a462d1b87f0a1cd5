// C27: partitions and parts compare equal exactly when they are the same.
#include "gens.h"
using namespace gen;
static bool identical(const Res &a, const Res &b) { return a.p == b.p && a.g == b.g && a.l == b.l && sameParts(a, b) && [&] { for (size_t i = 0; i < a.parts.size(); i++) if (a.parts[i].size != b.parts[i].size || a.parts[i].g != b.parts[i].g || a.parts[i].l != b.parts[i].l) return false; return true; }(); }
template <class PIPE> static void pairOf(Mc &m, const Inst &A, const Inst &B, const ref::Cover &ca, const ref::Cover &cb, float p, float q) {
    PIPE x(A), y(B); x.partitioner(); y.partitioner(); auto a = x.raw(p); auto b = y.raw(q); auto a2 = x.raw(q); m.op(5);
    Res ra = conv(a), rb = conv(b);
    auto want = [](const ref::Cover &c) { std::set<std::array<int, 3>> s; for (auto &k : c) s.insert({k.h, k.s, k.e}); return s; };
    auto got = [](const Res &r) { std::set<std::array<int, 3>> s; for (auto &k : r.parts) s.insert({k.h, k.s, k.e}); return s; };
    m.check(got(ra) == want(ca) && got(rb) == want(cb), [&] { return "the partition asked for was not returned: " + str(ra) + " / " + str(rb); });
    bool same = got(ra) == got(rb);
    bool e1 = *a == *b, e2 = *b == *a, n1 = *a != *b, n2 = *b != *a, s1 = *a == *a, s2 = *b != *b, t = *a == *a2; m.op(7);
    auto what = [&] { return str(ra) + "  and  " + str(rb); };
    m.check(s1 && !s2, [&] { return "a partition is not equal to itself: " + str(ra); });
    m.check(t, [&] { return "the same partition requested at p=" + num(p) + " and p=" + num(q) + " compares unequal: " + str(ra); });
    m.check(e1 == same, [&] { return string("two ") + (same ? "identical" : "different") + " partitions compare " + (e1 ? "equal" : "unequal") + ": " + what(); });
    m.check(e2 == e1, [&] { return "the comparison is not symmetric: " + what(); });
    m.check(n1 != e1 && n2 != e2, [&] { return "!= is not the opposite of ==: " + what(); });
    auto pa = a->getParts(); auto pb = b->getParts(); m.op(2);
    for (size_t i = 0; i < pa.size(); i++) for (size_t j = 0; j < pb.size(); j++) {
        bool s = ref::same(ra.parts[i], rb.parts[j]); bool e = pa[i] == pb[j], f = pb[j] == pa[i], n = pa[i] != pb[j]; m.op(3);
        auto w = [&] { return "parts [node " + std::to_string(ra.parts[i].h) + " " + std::to_string(ra.parts[i].s) + "-" + std::to_string(ra.parts[i].e) + "] and [node " + std::to_string(rb.parts[j].h) + " " + std::to_string(rb.parts[j].s) + "-" + std::to_string(rb.parts[j].e) + "]"; };
        m.check(e == s, [&] { return string(s ? "identical " : "different ") + w() + " compare " + (e ? "equal" : "unequal"); });
        m.check(f == e && n != e, [&] { return "inconsistent comparison of " + w(); });
    }
    m.check(identical(ra, conv(a)) && identical(rb, conv(b)), [&] { return "a comparison changed its operand: " + what(); });
    m.state(mc::mix(hashRes(ra), hashRes(rb))); m.outcome(mc::mix(hashRes(ra), hashRes(rb))); m.trace();
}
static Space pairs(const string &n, const string &b, bool th, char kind, std::function<void(Mc &, Tree &, int &)> shape, vector<std::pair<float, float>> ps) {
    return {n, b, th, [=](Mc &m) {
        Tree t; int N; shape(m, t, N);
        auto &c = ref::covers(t, N); int i = m.choose((int)c.size()), j = m.choose((int)c.size()); auto pq = m.pick(ps);
        m.mine();
        Inst A = blank(kind, t, N), B = A; coverTable(A, c[i]); coverTable(B, c[j]); m.sample(A.str() + " vs cover " + std::to_string(j));
        if (kind == 'O') pairOf<OPipe>(m, A, B, c[i], c[j], pq.first, pq.second); else if (kind == 'H') pairOf<HPipe>(m, A, B, c[i], c[j], pq.first, pq.second); else pairOf<DPipe>(m, A, B, c[i], c[j], pq.first, pq.second);
    }};
}
// partitions of many parts that differ in one place, or not at all
static ref::Cover farCover(char kind, const Tree &t, int n, int way, int at) {
    ref::Cover c;
    if (kind == 'O' || t.L == 1) {                 // parts of 2, 3 or 2-1-4 in turn; at part `at` a bound is moved, or the part cut
        vector<int> w; for (int i = 0, x = 0; i < n; x++) { int y = std::min(n - i, way == 0 ? 2 : way == 1 ? 3 : x % 3 == 0 ? 2 : x % 3 == 1 ? 1 : 4); w.push_back(y); i += y; }
        if (at >= 0) { int k = at == 0 ? 0 : at == 1 ? std::min(8, (int)w.size() - 2) : at == 2 ? (int)w.size() / 2 : at == 3 ? (int)w.size() - 2 : (int)w.size() - 1; if (at < 4 && way && w[k] > 1) { w[k]--; w[k + 1]++; } else if (w[k] > 1) { w[k]--; w.insert(w.begin() + k, 1); } else if (k) { w[k - 1] += w[k]; w.erase(w.begin() + k); } }
        int i = 0; for (int y : w) { c.push_back({kind == 'O' ? 0 : t.root, i, i + y - 1}); i += y; }
        return c;
    }
    // groups below the root: each an aggregate or not, in time slices of 2 or whole; group `at` the other way round
    auto &gs = t.kids[t.root]; int G = gs.size(), k = at == 0 ? 0 : at == 1 ? std::min(8, G - 1) : at == 2 ? G / 2 : at == 3 ? G - 2 : G - 1;
    for (int g = 0; g < G; g++) {
        bool whole = (way == 0) || (way == 1 && g % 2 == 0); if (at >= 0 && g == k) whole = !whole;
        if (t.kids[gs[g]].empty() || whole) c.push_back({gs[g], 0, n - 1});
        else for (int x : t.kids[gs[g]]) for (int i = 0; i < n; i += 2) c.push_back({x, i, std::min(n - 1, i + 1)});
    }
    return c;
}
static Space far(const string &n, const string &b, char kind, std::function<void(Mc &, Tree &, int &)> shape) {
    return {n, b + ", 3 base partitions, differing in the first, ninth, middle, last but one or last place or nowhere", false, [=](Mc &m) {
        Tree t; int N; shape(m, t, N); int way = m.choose(3), a = m.choose(6) - 1, b2 = m.choose(6) - 1;
        m.mine();
        auto ca = farCover(kind, t, N, way, a), cb = farCover(kind, t, N, way, b2); Inst A = blank(kind, t, N), B = A; coverTable(A, ca); coverTable(B, cb); m.sample(A.str().substr(0, 200));
        if (kind == 'O') pairOf<OPipe>(m, A, B, ca, cb, 0.25f, 0.5f); else if (kind == 'H') pairOf<HPipe>(m, A, B, ca, cb, 0.25f, 0.5f); else pairOf<DPipe>(m, A, B, ca, cb, 0.25f, 0.5f);
    }};
}
static Tree groups(int n, int md) { string g; for (int i = 0; i < n; i++) g += ref::star(2 + i / 2 % 3); return ref::label("(" + g + ")", md); }
int main(int c, char **v) {
    vector<std::pair<float, float>> p1 = {{0.5f, 0.5f}, {0.25f, 0.75f}}, p2 = {{0.25f, 0.5f}};
    vector<Space> s;
    s.push_back(pairs("o.pairs", "all pairs of partitions of n<=8 elements", false, 'O', [](Mc &m, Tree &t, int &n) { t = oneLeaf(); n = 1 + m.choose(8); }, p1));
    s.push_back(pairs("o.pairs+", "all pairs of partitions of n<=10 elements", true, 'O', [](Mc &m, Tree &t, int &n) { t = oneLeaf(); n = 9 + m.choose(2); }, p2));
    s.push_back(pairs("h.labelled", "all pairs of partitions of all labelled trees with <=4 leaves and <=3 inner nodes", false, 'H', [](Mc &m, Tree &t, int &n) { t = m.pick(midTrees()); n = 1; }, p1));
    s.push_back(pairs("h.shapes", "all pairs of partitions of all shapes with 5-6 leaves, 6 numberings", false, 'H', [](Mc &m, Tree &t, int &n) { t = m.pick(shapeTrees(5 + m.choose(2))); n = 1; }, p2));
    s.push_back(pairs("h.unary", "all pairs of partitions of trees with unary nodes", false, 'H', [](Mc &m, Tree &t, int &n) { t = m.pick(unaryTrees()); n = 1; }, p2));
    s.push_back(pairs("h.shapes+", "all pairs of partitions of all shapes with 7 leaves", true, 'H', [](Mc &m, Tree &t, int &n) { t = m.pick(shapeTrees(7)); n = 1; }, p2));
    s.push_back(pairs("d.pairs", "all pairs of partitions of (<=3 leaves) x (n<=2) and (<=2 leaves) x (n=3)", false, 'D', [](Mc &m, Tree &t, int &n) {
        n = 1 + m.choose(3); static vector<Tree> s2 = [] { vector<Tree> r; for (auto &t : dTrees()) if (t.L <= 2 && t.N <= 4) r.push_back(t); return r; }(); t = n == 3 ? m.pick(s2) : m.pick(dTrees()); }, p2));
    s.push_back(pairs("d.one", "all pairs of partitions of 1 leaf x (n<=6)", false, 'D', [](Mc &m, Tree &t, int &n) { t = oneLeaf(); n = 1 + m.choose(6); }, p1));
    s.push_back(pairs("d.pairs+", "all pairs of partitions of 4-leaf trees x 2", true, 'D', [](Mc &m, Tree &t, int &n) { static vector<Tree> ts = ref::labelled(4, false, 3, {0, 3}); n = 2; t = m.pick(ts); }, p2));
    s.push_back(far("o.far", "ordered partitions of n in {24,41,130,300} elements", 'O', [](Mc &m, Tree &t, int &n) { t = oneLeaf(); n = m.pick(vector<int>{24, 41, 130, 300}); }));
    s.push_back(far("h.far", "partitions of trees of 12, 30, 90 and 280 groups of 2-4 leaves", 'H', [](Mc &m, Tree &t, int &n) { static vector<Tree> ts = {groups(12, 0), groups(30, 3), groups(30, 5), groups(90, 0), groups(280, 0)}; t = m.pick(ts); n = 1; }));
    s.push_back(far("d.far", "spatiotemporal partitions of trees of 12 and 30 groups of 2-4 leaves, n in {1,4}, and of one leaf, n in {24,41}", 'D', [](Mc &m, Tree &t, int &n) { static vector<Tree> ts = {groups(12, 0), groups(12, 3), groups(30, 5)}; int k = m.choose(4); if (k == 3) { t = oneLeaf(); n = m.pick(vector<int>{24, 41}); } else { t = ts[k]; n = m.pick(vector<int>{1, 4}); } }));
    return mc::run(c, v, s);
}
