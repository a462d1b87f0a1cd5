// C30: a partition denotes exactly the decisions it is built from, and the decisions it reports rebuild it.
#include "gens.h"
using namespace gen;
typedef lpaggreg::UpperTriangularMatrix<int> IMat;
typedef vector<shared_ptr<IMat>> DCuts;
static shared_ptr<lpaggreg::OPartition> build(OPipe &P, const vector<int> &c, float p) { return shared_ptr<lpaggreg::OPartition>(new lpaggreg::OPartition(c, P.q->getQualities(), p)); }
static shared_ptr<lpaggreg::HPartition> build(HPipe &P, const vector<bool> &c, float p) { return shared_ptr<lpaggreg::HPartition>(new lpaggreg::HPartition(c, P.q->getQualities(), p, P.q->getMetaData())); }
static shared_ptr<lpaggreg::DPartition> build(DPipe &P, const DCuts &c, float p) { return shared_ptr<lpaggreg::DPartition>(new lpaggreg::DPartition(c, P.q->getQualities(), p, P.q->getMetaData())); }
// a partition rebuilt from what the partition reports, without the partitioner
static shared_ptr<lpaggreg::OPartition> again(lpaggreg::OPartition &x) { return shared_ptr<lpaggreg::OPartition>(new lpaggreg::OPartition(x.getCuts(), x.getQualities(), x.getParameter())); }
static shared_ptr<lpaggreg::HPartition> again(lpaggreg::HPartition &x) { return shared_ptr<lpaggreg::HPartition>(new lpaggreg::HPartition(x.getAggregated(), x.getQualities(), x.getParameter(), x.getMetaData())); }
static shared_ptr<lpaggreg::DPartition> again(lpaggreg::DPartition &x) { return shared_ptr<lpaggreg::DPartition>(new lpaggreg::DPartition(x.getCuts(), x.getQualities(), x.getParameter(), x.getMetaData())); }
static vector<int> says(lpaggreg::OPartition &x) { return x.getCuts(); }
static vector<int> says(lpaggreg::HPartition &x) { vector<int> r; for (bool b : x.getAggregated()) r.push_back(b); return r; }
static vector<int> says(lpaggreg::DPartition &x) { vector<int> r; for (auto &c : x.getCuts()) for (int i = 0; i < c->getSize(); i++) for (int j = i; j < c->getSize(); j++) r.push_back((*c)(i, j)); return r; }
static void checkMeta(Mc &m, const Inst &I, const lpaggreg::HValuesMetaData &d) { m.check(d.getRoot() == I.t.root && (int)d.getHsize() == I.t.N && d.getLeaveSize() == I.t.L && d.getParents() == I.t.par, [&] { return "a partition reports another hierarchy than " + I.str(); }); }
static void meta(Mc &, const Inst &, lpaggreg::OPartition &) {}
static void meta(Mc &m, const Inst &I, lpaggreg::HPartition &x) { checkMeta(m, I, x.getMetaData()); }
static void meta(Mc &m, const Inst &I, lpaggreg::DPartition &x) { checkMeta(m, I, x.getMetaData()); }
typedef lpaggreg::UpperTriangularMatrix<shared_ptr<lpaggreg::Quality>> QM;
static void flat(lpaggreg::Quality &q, vector<ld> &o) { o.push_back(q.getGain()); o.push_back(q.getLoss()); }
static void flat(QM &t, vector<ld> &o) { o.push_back(t.getSize()); for (int i = 0; i < t.getSize(); i++) for (int j = i; j < t.getSize(); j++) flat(*t(i, j), o); }
template <class T> static void flat(const vector<shared_ptr<T>> &t, vector<ld> &o) { for (auto &x : t) flat(*x, o); }
template <class T> static bool sameTable(const T &a, const T &b) { if (a == b) return true; vector<ld> x, y; flat(*a, x); flat(*b, y); return x == y; }
typedef std::set<std::array<int, 3>> Blocks;
static Blocks blocks(const Res &r) { Blocks s; for (auto &x : r.parts) s.insert({x.h, x.s, x.e}); return s; }
static string str(const Blocks &b) { string s; for (auto &x : b) s += " [node " + std::to_string(x[0]) + " " + std::to_string(x[1]) + "-" + std::to_string(x[2]) + "]"; return s; }
// a table in which every cell differs
static Inst distinct(char k, const Tree &t, int n) { Inst I = blank(k, t, n); I.alloc(); int c = 1; for (auto &a : I.tab) for (int i = 0; i < n; i++) for (int j = i; j < n; j++, c++) a[i][j] = Q(c * c + 3, 5 * c % 97 + c * 0.25L); return I; }
template <class PN> static void truth(Mc &m, const Inst &I, PN &x, const Blocks &want, float p, const string &what) {
    Res r = conv(x); m.op(2);
    m.check(r.parts.size() == want.size() && blocks(r) == want, [&] { return what + " denotes " + lp::str(r) + " instead of" + str(want) + " on " + I.str(); });
    ld g = 0, l = 0;
    for (auto &y : r.parts) { Q q = I.tab[y.h][y.s][y.e]; g += q.g; l += q.l; m.check(y.g == q.g && y.l == q.l && y.size == I.t.size(y.h) * (y.e - y.s + 1), [&] { return what + ": a part reports gain " + num(y.g) + ", loss " + num(y.l) + ", size " + std::to_string(y.size) + ", which are not those of its aggregate: " + lp::str(r) + " on " + I.str(); }); }
    m.check(r.p == p && r.g == g && r.l == l, [&] { return what + " reports p=" + num(r.p) + " gain " + num(r.g) + " loss " + num(r.l) + " instead of p=" + num(p) + " gain " + num(g) + " loss " + num(l) + " on " + I.str(); });
    if (I.kind == 'O') for (size_t i = 1; i < r.parts.size(); i++) m.check(r.parts[i - 1].e < r.parts[i].s, [&] { return what + " lists its intervals out of order: " + lp::str(r); });
}
template <class PIPE, class D> static void decided(Mc &m, const Inst &I, const D &d, const vector<int> &flat, const Blocks &want, float p) {
    m.mine();
    PIPE P(I); auto x = build(P, d, p); m.op(2); m.sample(I.str());
    truth(m, I, x, want, p, "a partition built from decisions");
    m.check(says(*x) == flat, [&] { return "a partition reports other decisions than it was built from, on " + I.str(); });
    m.check(sameTable(x->getQualities(), P.q->getQualities()), [&] { return "a partition reports another table than it was built from, on " + I.str(); });
    meta(m, I, *x);
    auto y = again(*x); truth(m, I, y, want, p, "a partition rebuilt from what another one reports"); truth(m, I, x, want, p, "a partition that another one was built from");
    m.check(*x == *y && !(*x != *y), [&] { return "a partition is not equal to the one built from what it reports, on " + I.str(); });
    m.state(hashRes(conv(x))); m.outcome(hashRes(conv(x))); m.trace();
}
static const vector<float> &ps() { static vector<float> p = {0, 0.3f, 1}; return p; }
static void oDecide(Mc &m, int n) {
    vector<int> c(n); for (int i = 0; i < n; i++) c[i] = i + m.choose(n - i);
    Blocks w; for (int i = 0; i < n; i = c[i] + 1) w.insert({0, i, c[i]});
    decided<OPipe>(m, distinct('O', oneLeaf(), n), c, c, w, m.pick(ps()));
}
static void hDecide(Mc &m, const Tree &t) {
    vector<bool> c(t.N, true); for (int h = t.L; h < t.N; h++) c[h] = m.choose(2);
    Blocks w; std::function<void(int)> go = [&](int h) { if (c[h]) w.insert({h, 0, 0}); else for (int k : t.kids[h]) go(k); }; go(t.root);
    vector<int> f; for (bool b : c) f.push_back(b);
    decided<HPipe>(m, distinct('H', t, 1), c, f, w, m.pick(ps()));
}
static void dDecide(Mc &m, const Tree &t, int n) {
    DCuts c; vector<int> f;
    for (int h = 0; h < t.N; h++) { c.push_back(shared_ptr<IMat>(new IMat(n))); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { int x = i + m.choose(j - i + (h < t.L ? 1 : 2)); if (x > j) x = -1; (*c[h])(i, j, x); f.push_back(x); } }
    Blocks w; std::function<void(int, int, int)> go = [&](int h, int i, int j) { int x = (*c[h])(i, j); if (x < 0) for (int k : t.kids[h]) go(k, i, j); else if (x < j) { go(h, i, x); go(h, x + 1, j); } else w.insert({h, i, j}); }; go(t.root, 0, n - 1);
    decided<DPipe>(m, distinct('D', t, n), c, f, w, 0.3f);
}
// what the partitioners return, rebuilt
template <class PIPE> static void round_(Mc &m, const Inst &I, bool norm) {
    PIPE P(I); if (!I.exact()) P.compute(); if (norm) P.normalize(); P.partitioner(); m.op(2);
    auto one = [&](decltype(P.raw(0.f)) x) {
        Res r = conv(x); auto y = again(*x); Res s = conv(y); m.op(2);
        auto same = [&] { return r.p == s.p && r.g == s.g && r.l == s.l && sameParts(r, s); };
        m.check(same() && *x == *y, [&] { return "rebuilt from what it reports, " + lp::str(r) + " becomes " + lp::str(s) + " on " + I.str(); });
        m.check(sameTable(x->getQualities(), P.q->getQualities()), [&] { return "a partition reports another table than the one in use, on " + I.str(); });
        meta(m, I, *x); m.state(hashRes(r)); m.outcome(hashRes(r));
    };
    for (float p : {0.f, 0.25f, 0.5f, 0.75f, 1.f}) one(P.raw(p));
    P.sweep(0.05f); m.op(); for (auto &x : P.part->getPartitions()) one(x.second);
    m.trace();
}
static int norm;
static void body(Mc &m, Inst &I) { if (I.kind == 'O') round_<OPipe>(m, I, norm); else if (I.kind == 'H') round_<HPipe>(m, I, norm); else round_<DPipe>(m, I, norm); }
int main(int c, char **v) {
    auto s = spaces(keep(all(), {"o.tab.micro", "o.tab6", "o.cover", "o.formula", "o.large", "h.tab.inner", "h.tab.unary", "h.cover", "h.formula", "h.large", "d.tab.2", "d.tab.1xn", "d.cover", "d.large", "o.tab4+", "h.tab.shapes+", "d.tab.2x3+"}), body, [](Mc &m) { norm = m.choose(2); });
    auto d = spaces(keep(allData(), {"o.data", "h.data", "d.data.2x2"}), body, [](Mc &m) { norm = m.choose(2); }); s.insert(s.end(), d.begin(), d.end());
    for (auto &x : spaces(hugeAll(), body, [](Mc &m) { norm = m.choose(2); })) s.push_back(x);
    s.push_back({"o.decide", "every array of cuts for n<=7 elements, 3 parameters", false, [](Mc &m) { oDecide(m, 1 + m.choose(7)); }});
    s.push_back({"o.decide+", "every array of cuts for 8 and 9 elements, 3 parameters", true, [](Mc &m) { oDecide(m, 8 + m.choose(2)); }});
    s.push_back({"h.decide", "every set of flags on all labelled trees with <=4 leaves and <=3 inner nodes, 3 parameters", false, [](Mc &m) { hDecide(m, m.pick(midTrees())); }});
    s.push_back({"h.decide.shapes", "every set of flags on all shapes with 5-6 leaves, 6 numberings, and on trees with unary nodes, 3 parameters", false, [](Mc &m) { int k = m.choose(3); hDecide(m, k == 2 ? m.pick(unaryTrees()) : m.pick(shapeTrees(5 + k))); }});
    s.push_back({"h.decide.shapes+", "every set of flags on all shapes with 7-8 leaves, 3 parameters", true, [](Mc &m) { hDecide(m, m.pick(shapeTrees(7 + m.choose(2)))); }});
    s.push_back({"d.decide.1xn", "every set of cuts of 1 leaf, n<=5", false, [](Mc &m) { dDecide(m, oneLeaf(), 1 + m.choose(5)); }});
    s.push_back({"d.decide.2", "every set of cuts on all labelled trees with <=3 leaves and <=2 inner nodes, n<=2", false, [](Mc &m) { dDecide(m, m.pick(smallTrees()), 1 + m.choose(2)); }});
    s.push_back({"d.decide.2x3", "every set of cuts of 2 leaves, n=3", false, [](Mc &m) { dDecide(m, ref::label(ref::star(2), 0), 3); }});
    s.push_back({"d.decide.3x3+", "every set of cuts of a star of 3 leaves, n=3", true, [](Mc &m) { dDecide(m, ref::label(ref::star(3), 0), 3); }});
    return mc::run(c, v, s);
}
