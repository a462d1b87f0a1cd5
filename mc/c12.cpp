// C12: a sweep terminates with usable results for every threshold and range.
#include "sweep.h"
#include <cfloat>
using namespace gen;
static Range R; static int twice;
static vector<float> ths() { return {0.f, FLT_TRUE_MIN, FLT_MIN, 1e-30f, 1e-12f, 1e-9f, 1e-7f, 1e-6f, 1e-3f, 0.1f, 1.f, 2.f}; }
static vector<std::pair<float, float>> rgs() {
    float e = FLT_TRUE_MIN; auto nx = [](float x) { return std::nextafter(x, 2.f); }; auto pv = [](float x) { return std::nextafter(x, -1.f); };
    return {{0, 1}, {0, 0}, {1, 1}, {0.5f, 0.5f}, {0.3f, 0.3f}, {0, e}, {0, 1e-38f}, {0, 1e-7f}, {0.5f, nx(0.5f)}, {pv(0.5f), 0.5f}, {pv(0.5f), nx(0.5f)}, {0.3f, nx(nx(0.3f))}, {pv(1), 1}, {pv(pv(pv(1))), 1}, {0.25f, 0.75f}, {0.999f, 1}, {e, e}, {1e-20f, 1}};
}
static void body(Mc &m, Inst &I) {
    auto P = ready(I, twice & 1); m.op(2);
    if (twice & 2) { P->sweep(0.01f); m.op(); }
    P->sweep(R.th, R.a, R.b); m.op();
    checkUsable(m, *P, R); u64 h = 1;
    for (auto &x : P->partitions()) { h = mc::mix(h, hashRes(x.second)); checkCover(m, I, x.second); }
    float lo = P->getP(P_MIN), hi = P->getP(P_MAX), op = P->getP(P_OPT); m.op(3);
    m.check(lo >= R.a && hi <= R.b && op >= R.a && op <= R.b, [&] { return str(R) + ": summary parameters " + num(lo) + " " + num(op) + " " + num(hi) + " outside the range"; });
    m.state(h); m.outcome(h); m.trace();
}
int main(int c, char **v) {
    static auto T = ths(); static auto G = rgs();
    auto pre = [](Mc &m) { R.th = m.pick(T); auto g = m.pick(G); R.a = g.first; R.b = g.second; twice = m.choose(4); };
    auto pre1 = [](Mc &m) { R.th = m.pick(vector<float>{0, FLT_TRUE_MIN, 1e-9f, 1e-6f}); R.a = 0; R.b = 1; twice = m.choose(2); };
    auto all_ = all();
    Gens k;
    k.push_back({"o.tiny", "ordered tables, n=3, every interval of >=2 in 3 exact qualities, x 12 thresholds x 18 ranges", false, [](Mc &m, Inst &I) { table(m, I, 'O', oneLeaf(), 1 + m.choose(3), A3(), true); }});
    k.push_back({"o.tiny.data", "ordered data, n=4 over {0,3}, x 12 thresholds x 18 ranges", false, [](Mc &m, Inst &I) { data(m, I, 'O', oneLeaf(), 4, 1, {0, 3}); }});
    k.push_back({"h.tiny", "hierarchical tables, labelled trees with <=3 leaves and 2 inner nodes, inner nodes in 3 exact qualities, x 12 thresholds x 18 ranges", false, [](Mc &m, Inst &I) { static vector<Tree> ts = [] { vector<Tree> r = ref::labelled(1, true, 1, {0}); add(r, ref::labelled(2, false, 2, {0})); add(r, ref::labelled(3, false, 3, {0, 3})); return r; }(); table(m, I, 'H', m.pick(ts), 1, A3(), true); }});
    k.push_back({"d.tiny", "spatiotemporal formula tables, trees with <=3 leaves, n<=3, x 12 thresholds x 18 ranges", false, [](Mc &m, Inst &I) { static vector<Tree> ts = ref::labelled(3, false, 3, {0}); I = blank('D', m.choose(2) ? m.pick(ts) : oneLeaf(), 1 + m.choose(3)); formulaTable(m, I, 2, 2, 2); }});
    auto s = spaces(k, body, pre);
    auto t = spaces(keep(all_, {"o.tab4", "o.tab6", "o.data", "o.data.extreme", "o.cover", "h.tab.all", "h.tab.shapes", "h.data.multi", "h.data.comps", "h.data.near", "h.data.extreme", "d.tab.micro", "o.tab.neg", "h.tab.neg", "o.tab.close", "d.data.2x2", "d.data.extreme"}), body, pre1);
    // large numbers of distinct partitions: the sweep enumerates them all at threshold 0, so sizes stay moderate
    Gens l;
    l.push_back({"o.fine", "ordered formula tables, n in {8,9,13}, 27 coefficient triples, thresholds 0 and 1e-7", false, [](Mc &m, Inst &I) { I = blank('O', oneLeaf(), m.pick(vector<int>{8, 9, 13})); formulaTable(m, I, 3, 3, 3); }});
    l.push_back({"o.fine.data", "ordered periodic data, n in {8,12}, 12 shapes, 1-2 components, thresholds 0 and 1e-7", false, [](Mc &m, Inst &I) { I = blank('O', oneLeaf(), m.pick(vector<int>{8, 12})); waveValues(m, I, 1 + m.choose(2), 3, 4); }});
    l.push_back({"h.fine", "hierarchical formula tables on large trees, thresholds 0 and 1e-7", false, [](Mc &m, Inst &I) { I = blank('H', m.pick(bigTrees()), 1); formulaTable(m, I, 2, 1, 3); }});
    l.push_back({"d.fine", "spatiotemporal formula tables, trees with <=3 leaves, n<=4, thresholds 0 and 1e-7", false, [](Mc &m, Inst &I) { I = blank('D', m.pick(dTrees()), 3 + m.choose(2)); formulaTable(m, I, 2, 2, 2); }});
    auto u = spaces(l, body, [](Mc &m) { R.th = m.pick(vector<float>{0, 1e-7f}); R.a = 0; R.b = 1; twice = 1; });
    auto u2 = spaces(keep(all_, {"o.formula", "o.data.wave", "h.formula", "h.data.wave"}), body, [](Mc &m) { R.th = m.pick(vector<float>{1e-3f, 0.3f}); auto g = m.pick(vector<std::pair<float, float>>{{0, 1}, {0.5f, 0.5f}}); R.a = g.first; R.b = g.second; twice = 1; });
    Gens y3 = dSlim(); for (auto &y : thorough(keep(all_, {"d.formula", "d.data.wave"}))) y3.push_back(y);
    auto u3 = spaces(y3, body, [](Mc &m) { R.th = m.pick(vector<float>{1e-3f, 0.3f}); auto g = m.pick(vector<std::pair<float, float>>{{0, 1}, {0.5f, 0.5f}}); R.a = g.first; R.b = g.second; twice = 1; });
    auto w = spaces(keep(all_, {"o.tab5+", "h.tab.shapes+", "d.tab.2x3+", "o.data+"}), body, pre1);
    auto mn = spaces(manyParts(), body, [](Mc &m) { R.th = m.pick(vector<float>{1e-5f, 5e-4f}); R.a = 0; R.b = 1; twice = 0; });
    for (auto *y : {&mn, &t, &u, &u2, &u3, &w}) s.insert(s.end(), y->begin(), y->end());
    return mc::run(c, v, s);
}
