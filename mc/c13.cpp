// C13: the tabular results of a sweep agree with its partitions.
#include "sweep.h"
using namespace gen;
static vector<Range> seq; static bool norm;
static string row(const Row &r) { return "p=" + num(r.p) + " node " + std::to_string(r.h) + " size " + std::to_string(r.size) + " [" + std::to_string(r.s) + "-" + std::to_string(r.e) + "] gain " + num(r.g) + " loss " + num(r.l); }
static u64 tables(Mc &m, const Inst &I, Pipe &P, const string &when) {
    auto pl = P.plist(); auto pa = P.partitions(); auto rows = P.rows(); auto ql = P.qlist(); m.op(4);
    for (size_t i = 1; i < pl.size(); i++) m.check(pl[i] > pl[i - 1], [&] { return when + ": parameters out of order"; });
    m.check(pa.size() == pl.size(), [&] { return when + ": " + std::to_string(pl.size()) + " parameters but " + std::to_string(pa.size()) + " partitions"; });
    m.check(ql.size() == pl.size(), [&] { return when + ": " + std::to_string(pl.size()) + " parameters but " + std::to_string(ql.size()) + " qualities"; });
    size_t k = 0; u64 h = 3;
    for (float p : pl) {
        m.check(pa.count(p), [&] { return when + ": no partition for the listed parameter " + num(p); });
        m.check(ql.count(p), [&] { return when + ": no quality for the listed parameter " + num(p); });
        Res &r = pa[p]; Q q = ql[p]; ld g = 0, l = 0, ag = 0, al = 0;
        for (auto &x : r.parts) {
            m.check(k < rows.size(), [&] { return when + ": the table has only " + std::to_string(rows.size()) + " lines, a line is missing for part [node " + std::to_string(x.h) + " " + std::to_string(x.s) + "-" + std::to_string(x.e) + "] at p=" + num(p); });
            const Row &w = rows[k++];
            bool ok = w.p == p && w.h == x.h && w.s == x.s && w.e == x.e && near(w.g, x.g, 1e-12L) && near(w.l, x.l, 1e-12L) && w.size == x.size;
            m.check(ok, [&] { return when + ": line " + std::to_string(k - 1) + " of the table is " + row(w) + ", the part is p=" + num(p) + " node " + std::to_string(x.h) + " size " + std::to_string(x.size) + " [" + std::to_string(x.s) + "-" + std::to_string(x.e) + "] gain " + num(x.g) + " loss " + num(x.l); });
            g += x.g; l += x.l; ag += std::fabs(x.g); al += std::fabs(x.l);
        }
        m.check(near(q.g, r.g, 1e-12L) && near(q.l, r.l, 1e-12L) && near(q.g, g, 0, 1e-12L * ag) && near(q.l, l, 0, 1e-12L * al), [&] { return when + ": the quality listed at " + num(p) + " is " + num(q.g) + "/" + num(q.l) + ", the partition has " + num(r.g) + "/" + num(r.l) + ", its parts sum to " + num(g) + "/" + num(l); });
        h = mc::mix(h, hashRes(r)); m.state(h);
    }
    m.check(k == rows.size(), [&] { return when + ": the table has " + std::to_string(rows.size()) + " lines for " + std::to_string(k) + " parts; the first extra one is " + row(rows[k]); });
    return h;
}
static void body(Mc &m, Inst &I) {
    auto P = ready(I, norm); m.op(2); u64 h = tables(m, I, *P, "before any sweep");
    m.check(P->plist().empty(), [] { return string("parameters are listed before any sweep"); });
    string when = "after";
    for (size_t i = 0; i < seq.size(); i++) {
        P->sweep(seq[i].th, seq[i].a, seq[i].b); m.op(); when += " " + str(seq[i]);
        h = mc::mix(h, tables(m, I, *P, when));
        if (i + 1 == seq.size()) h = mc::mix(h, tables(m, I, *P, when + ", read again"));
        else { P->best(0.5f); m.op(); }
    }
    m.trace(); m.outcome(h);
}
int main(int c, char **v) {
    static const vector<vector<Range>> short_ = {{{0.001f, 0, 1}}, {{0.25f, 0, 0.5f}, {0.01f, 0.5f, 1}}};
    static const vector<Range> rs = {{0.001f, 0, 1}, {0.3f, 0, 1}, {0.01f, 0.25f, 0.75f}, {0.01f, 0.5f, 0.5f}};
    static vector<vector<Range>> long_; for (auto &a : rs) { long_.push_back({a}); for (auto &b : rs) { long_.push_back({a, b}); for (auto &d : rs) long_.push_back({a, b, d}); } }
    auto all_ = all();
    auto s = spaces(keep(all_, {"o.tab.micro", "o.tab4", "o.cover", "o.formula", "o.data", "o.data.multi", "o.data.comps", "o.data.near", "o.data.block", "h.tab.all", "h.tab.shapes", "h.tab.unary", "h.cover", "h.data.multi", "h.data.comps", "h.data.near", "h.data.shapes", "h.data.wave", "d.tab.micro", "d.tab.2x3", "d.cover", "d.data.2x2", "d.data.multi", "d.data.comps", "d.data.near"}), body, [](Mc &m) { seq = m.pick(short_); norm = false; });
    auto t = spaces(keep(all_, {"o.data", "h.data.unary", "h.data.shapes", "d.data.2x2"}), body, [](Mc &m) { seq = m.pick(short_); norm = true; });
    for (auto &x : t) x.name += ".norm";
    Gens k;
    k.push_back({"o.seq", "ordered tables, n=4, every interval of >=2 in 2 exact qualities, x every sequence of 1-3 of 4 sweeps", false, [](Mc &m, Inst &I) { table(m, I, 'O', oneLeaf(), 4, A2(), true); }});
    k.push_back({"h.seq", "hierarchical tables, shapes with 3-5 leaves, inner nodes in 2 exact qualities, x every sequence of 1-3 of 4 sweeps", false, [](Mc &m, Inst &I) { static vector<Tree> ts = [] { vector<Tree> r; for (int L = 3; L <= 5; L++) add(r, ref::labelled(L, false, L, {0, 3})); return r; }(); table(m, I, 'H', m.pick(ts), 1, A2(), true); }});
    k.push_back({"d.seq", "spatiotemporal formula tables, trees with <=3 leaves, n<=3, x every sequence of 1-3 of 4 sweeps", false, [](Mc &m, Inst &I) { I = blank('D', m.pick(dTrees()), 1 + m.choose(3)); formulaTable(m, I, 2, 2, 2); }});
    auto u = spaces(k, body, [](Mc &m) { seq = m.pick(long_); norm = false; });
    auto w = spaces(keep(all_, {"o.tab5+", "o.data+", "h.tab.shapes+", "d.tab.2x3+", "d.formula", "d.data.wave", "d.data.2x4+"}), body, [](Mc &m) { seq = m.pick(short_); norm = false; });
    for (auto &x : w) x.thoroughOnly = true;
    static const vector<vector<Range>> coarse = {{{0.03f, 0, 1}}, {{0.25f, 0, 0.5f}, {0.06f, 0.5f, 1}}};
    auto lg = spaces(keep(all_, {"o.large", "h.large", "d.large", "o.data.large", "h.data.large", "d.data.large"}), body, [](Mc &m) { seq = m.pick(coarse); norm = false; });
    static const vector<vector<Range>> fine = {{{0.0005f, 0, 1}}, {{0.0005f, 0.1f, 0.9f}, {0.01f, 0, 1}}};
    auto mn = spaces(manyParts(), body, [](Mc &m) { seq = m.pick(fine); norm = false; });
    static const vector<vector<Range>> once = {{{1, 0, 1}}}; auto gi = spaces(giants(), body, [](Mc &m) { seq = once[0]; norm = false; }); static const vector<vector<Range>> hard = {{{0.12f, 0, 1}}}; auto hg = spaces(hugeAll(), body, [](Mc &m) { seq = m.pick(hard); norm = false; });
    for (auto *y : {&gi, &hg, &mn, &lg, &t, &u, &w}) s.insert(s.end(), y->begin(), y->end());
    return mc::run(c, v, s);
}
