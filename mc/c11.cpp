// C11: a sweep lists the right best partitions in the right order.
#include "sweep.h"
using namespace gen;
static Range R;
static const vector<Range> few = {{0.001f, 0, 1}, {0.1f, 0, 1}, {0.01f, 0.25f, 0.75f}}, many = {{0.5f, 0, 1}, {0.25f, 0, 1}, {0.1f, 0, 1}, {0.01f, 0, 1}, {0.001f, 0, 1}, {0.0001f, 0, 1}, {0.01f, 0, 0.5f}, {0.01f, 0.5f, 1}, {0.001f, 0.25f, 0.75f}, {0.05f, 0.1f, 0.9f}, {0.001f, 0.3f, 0.4f}, {0.001f, 0.9f, 1}, {0.0005f, 0, 0.01f}, {0.001f, 0.5f, 0.5f}};
static void body(Mc &m, Inst &I) {
    auto P = ready(I); m.op(2);
    P->sweep(R.th, R.a, R.b); m.op();
    u64 h = checkSweep(m, I, *P, R); m.trace(); m.outcome(h);
}
// the default range is [0,1]; also after normalising (the table is then the normalised one)
static void normalised(Mc &m, Inst &I) {
    auto P = ready(I, true); m.op(3); I.normalize();
    // the library's own normalised table is the reference here (its values are C09's business)
    ld worst = 0; for (int v = 0; v < I.t.N; v++) for (int i = 0; i < I.n; i++) for (int j = i; j < I.n; j++) { Q q = P->quality(v, i, j); I.tab[v][i][j] = q; worst = std::max(worst, std::fabs(q.g) + std::fabs(q.l)); }
    I.mag = worst * (1 + I.t.N * I.n); if (I.vals.empty()) { I.vals.clear(); }
    P->sweep(R.th); m.op();
    u64 h = checkSweep(m, I, *P, Range{R.th, 0, 1}, 1e-12L * I.mag); m.trace(); m.outcome(h);
}
int main(int c, char **v) {
    auto all_ = all();
    auto s = spaces(keep(all_, {"o.tab.micro", "o.tab6", "o.cover", "o.formula", "h.tab.all", "h.tab.shapes", "h.tab.unary", "h.formula", "d.tab.micro", "d.tab.2x3", "d.tab.1xn", "o.tab5", "d.tab.3x2", "o.tab.neg", "h.tab.neg", "d.tab.neg", "o.tab.close", "h.tab.close"}), body, [](Mc &m) { R = m.pick(few); });
    auto t = spaces(keep(all_, {"o.data", "o.data.multi", "o.data.comps", "o.data.near", "o.data.wave", "h.data.multi", "h.data.comps", "h.data.near", "h.data.shapes", "h.data.wave", "d.data.2x2"}), body, [](Mc &m) { R = m.pick(few); });
    auto ts = spaces(dSlim(), body, [](Mc &m) { R = m.pick(few); });
    Gens k;
    k.push_back({"o.ranges", "ordered tables, n=4, every interval of >=2 in 3 exact qualities, x 14 thresholds and ranges", false, [](Mc &m, Inst &I) { table(m, I, 'O', oneLeaf(), 4, A3(), true); }});
    k.push_back({"o.ranges.formula", "ordered formula tables, n in 8..17, x 14 thresholds and ranges", false, [](Mc &m, Inst &I) { I = blank('O', oneLeaf(), m.pick(vector<int>{8, 12, 17})); formulaTable(m, I, 4, 4, 4); }});
    k.push_back({"h.ranges", "hierarchical tables, shapes with 4-6 leaves, inner nodes in 2 exact qualities, x 14 thresholds and ranges", false, [](Mc &m, Inst &I) { static vector<Tree> ts = [] { vector<Tree> r; for (int L = 4; L <= 6; L++) add(r, ref::labelled(L, false, L, {0, 3})); return r; }(); table(m, I, 'H', m.pick(ts), 1, A2(), true); }});
    k.push_back({"h.ranges.formula", "hierarchical formula tables on large trees, x 14 thresholds and ranges", false, [](Mc &m, Inst &I) { I = blank('H', m.pick(bigTrees()), 1); formulaTable(m, I, 2, 2, 6); }});
    k.push_back({"d.ranges", "spatiotemporal formula tables, trees with <=3 leaves, n<=4, x 14 thresholds and ranges", false, [](Mc &m, Inst &I) { I = blank('D', m.pick(dTrees()), 2 + m.choose(3)); formulaTable(m, I, 3, 3, 3); }});
    k.push_back({"o.ranges.data", "ordered data, n=5 over {0,1,5}, x 14 thresholds and ranges", false, [](Mc &m, Inst &I) { data(m, I, 'O', oneLeaf(), 5, 1, {0, 1, 5}); }});
    auto u = spaces(k, body, [](Mc &m) { R = m.pick(many); });
    Gens nk = keep(all_, {"o.data", "o.data.wave", "h.data.shapes", "h.data.wave", "d.data.2x2"}); nk.push_back(dSlim()[1]); for (auto &x : nk) x.name += ".norm", x.bound += ", normalised, default range";
    auto w = spaces(nk, normalised, [](Mc &m) { R = m.pick(vector<Range>{{0.001f, 0, 1}, {0.02f, 0, 1}}); });
    Gens th = keep(all_, {"o.tab5+", "h.tab.shapes+", "d.tab.2x3+", "d.tab.2x2+", "o.data+", "d.data.2x4+"}); for (auto &y : thorough(keep(all_, {"d.formula", "d.data.wave"}))) th.push_back(y); auto x = spaces(th, body, [](Mc &m) { R = m.pick(few); });
    auto lg = spaces(keep(all_, {"o.large", "h.large", "d.large", "o.data.large", "h.data.large", "d.data.large"}), body, [](Mc &m) { R = m.pick(vector<Range>{{0.03f, 0, 1}, {0.003f, 0.25f, 0.375f}}); });
    auto mn = spaces(manyParts(), body, [](Mc &m) { R = m.pick(vector<Range>{{0.0005f, 0, 1}}); });
    auto mr = spaces(manyParts(true), body, [](Mc &m) { R = m.pick(vector<Range>{{0.0001f, 0.2f, 0.9f}, {0.02f, 0, 1}, {0.00001f, 0, 0.7f}}); }); for (auto &x : mr) x.name += ".ranges", x.bound += ", 3 ranges";
    auto sk = spaces(keep(all_, {"o.tab.skew", "h.tab.skew", "d.tab.skew"}), body, [](Mc &m) { R = m.pick(vector<Range>{{0, 0, 1}, {1e-8f, 0, 1}, {1e-6f, 0, 1}, {1e-9f, 0, 0.001f}}); }); for (auto &x : sk) x.bound += ", 4 thresholds and ranges";
    auto hg = spaces(hugeAll(), body, [](Mc &m) { R = m.pick(vector<Range>{{0.12f, 0, 1}}); });
    for (auto *y : {&hg, &sk, &mn, &mr, &lg, &t, &ts, &u, &w, &x}) s.insert(s.end(), y->begin(), y->end());
    return mc::run(c, v, s);
}
