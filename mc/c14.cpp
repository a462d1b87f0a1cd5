// C14: summary parameters and the area under the curve match the sweep.
#include "sweep.h"
using namespace gen;
static Range R; static int norm; static double scale;
static void body(Mc &m, Inst &I) {
    if (I.vals.empty()) { for (auto &a : I.tab) for (auto &b : a) for (auto &q : b) { q.g *= scale; q.l *= scale; } }
    else { for (auto &a : I.vals) for (auto &b : a) for (auto &x : b) x *= scale; I.fromValues(); }
    auto P = ready(I, norm); m.op(2);
    for (int s : {P_MIN, P_MAX, P_OPT}) { float p = P->getP(s); m.op(); m.check(p >= 0 && p <= 1, [&] { return "before any sweep, summary " + std::to_string(s) + " is " + num(p); }); }
    P->auc(); m.op();
    u64 h = 1;
    for (int pass = 0; pass < 2; pass++) {
        Range r = pass ? Range{0.01f, 0, 1} : R;
        P->sweep(r.th, r.a, r.b); m.op();
        auto pl = P->plist(); auto ql = P->qlist(); auto pa = P->partitions(); m.op(3);
        m.check(!pl.empty(), [&] { return str(r) + " lists nothing"; });
        // the qualities the summaries are defined on, from the partitions themselves
        ld bestD = 0, mine = -1; bool first = true; ld area = 0, mag = 0, pg = 0, pq = 0; float lo = pl[0], hi = pl[0];
        float op = P->getP(P_OPT), mn = P->getP(P_MIN), mx = P->getP(P_MAX), auc = P->auc(); m.op(4);
        float op2 = P->getP(P_OPT), auc2 = P->auc(); m.op(2);
        for (float p : pl) {
            m.check(pa.count(p), [&] { return str(r) + ": no partition at " + num(p); });
            ld g = 0, l = 0; for (auto &x : pa[p].parts) { g += x.g; l += x.l; }
            ld d = (1 - g) * (1 - g) + l * l; lo = std::min(lo, p); hi = std::max(hi, p);
            if (first || d < bestD) bestD = d;
            if (p == op) mine = d;
            if (!first) { area += (g - pg) * (l + pq) / 2; mag += std::fabs(g - pg) * (std::fabs(l) + std::fabs(pq)) + (std::fabs(g) + std::fabs(pg)) * std::fabs(l + pq) * 1e-9L; }
            pg = g; pq = l; first = false;
        }
        m.check(mn == lo, [&] { return str(r) + ": the minimum parameter is " + num(mn) + ", the smallest listed one is " + num(lo); });
        m.check(mx == hi, [&] { return str(r) + ": the maximum parameter is " + num(mx) + ", the largest listed one is " + num(hi); });
        m.check(mine >= 0, [&] { return str(r) + ": the optimum parameter " + num(op) + " is not listed"; });
        m.check(mine <= bestD * (1 + 2e-6L) + 1e-13L, [&] { return str(r) + ": the quality at the optimum parameter " + num(op) + " is at squared distance " + num(mine) + " of (1,0), another listed one is at " + num(bestD); });
        if (mag < 1e37L) m.check(std::fabs((ld)auc - (1 - area)) <= 1e-6L * (1 + mag), [&] { return str(r) + ": the area value is " + num(auc) + ", the listed qualities give " + num(1 - area); });
        m.check(op2 == op && auc2 == auc, [&] { return str(r) + ": asking again gives another optimum or area"; });
        h = mc::mix(h, std::find(pl.begin(), pl.end(), op) - pl.begin()); h = mc::mix(h, pl.size()); m.state(h);
        (void)ql;
    }
    m.trace(); m.outcome(h);
}
int main(int c, char **v) {
    static const vector<double> sc = {1, 1 / 64.0, 1e-6, 1e6, 1e18, 1e20}, one = {1}, two = {1, 1 / 32.0};
    static const vector<Range> rs = {{0.001f, 0, 1}, {0.25f, 0, 1}, {0.001f, 0.25f, 0.75f}, {0.01f, 0.5f, 0.5f}, {0.01f, 0.9f, 1}}, f2 = {{0.001f, 0, 1}, {0.01f, 0.25f, 0.75f}};
    auto all_ = all();
    auto pre = [](const vector<double> &a, const vector<Range> &b, bool withNorm) { return [&a, &b, withNorm](Mc &m) { scale = m.pick(a); R = m.pick(b); norm = withNorm ? 1 : 0; }; };
    auto s = spaces(keep(all_, {"o.tab.micro", "o.tab5", "o.cover", "o.formula", "h.tab.all", "h.tab.shapes", "h.tab.unary", "h.cover", "d.tab.micro", "d.cover", "d.tab.1xn", "o.tab.neg", "h.tab.neg", "d.tab.neg", "o.tab.close"}), body, pre(two, f2, false));
    auto t = spaces(keep(all_, {"o.data", "o.data.bin", "o.data.multi", "o.data.comps", "o.data.near", "o.data.wave", "o.data.block", "h.data", "h.data.multi", "h.data.comps", "h.data.near", "h.data.shapes", "h.data.wave", "d.data.2x2", "d.data.multi", "d.data.comps", "d.data.near"}), body, pre(one, f2, true));
    for (auto &x : t) x.name += ".norm";
    Gens k;
    k.push_back({"o.scale", "ordered tables, n<=4, every interval of >=2 in 3 exact qualities, x 6 magnitudes from 1e-6 to 1e20 x 5 sweeps", false, [](Mc &m, Inst &I) { table(m, I, 'O', oneLeaf(), 1 + m.choose(4), A3(), true); }});
    k.push_back({"h.scale", "hierarchical tables, labelled trees with <=3 leaves, inner nodes in 4 exact qualities, x 6 magnitudes x 5 sweeps", false, [](Mc &m, Inst &I) { table(m, I, 'H', m.pick(smallTrees()), 1, A4(), true); }});
    k.push_back({"d.scale", "spatiotemporal formula tables, trees with <=3 leaves, n<=3, x 6 magnitudes x 5 sweeps", false, [](Mc &m, Inst &I) { I = blank('D', m.pick(dTrees()), 1 + m.choose(3)); formulaTable(m, I, 2, 2, 2); }});
    k.push_back({"o.scale.data", "ordered data, n<=4 over {0,1,2,5}, x 6 magnitudes x 5 sweeps", false, [](Mc &m, Inst &I) { data(m, I, 'O', oneLeaf(), 1 + m.choose(4), 1, {0, 1, 2, 5}); }});
    for (auto &x : dSlim()) k.push_back(x);
    auto u = spaces(k, body, pre(sc, rs, false));
    Gens kn = dSlim(); kn.push_back({"d.data.norm", "spatiotemporal data, trees with <=3 leaves, n<=2, values in {1,3}, normalised", false, [](Mc &m, Inst &I) { data(m, I, 'D', m.pick(dTrees()), 1 + m.choose(2), 1, {1, 3}); }});
    for (auto &x : kn) x.name += "1"; auto w = spaces(kn, body, pre(one, rs, true));
    auto y = spaces(keep(all_, {"o.tab5+", "o.data+", "h.tab.shapes+", "d.tab.2x3+", "d.formula", "d.data.wave"}), body, pre(two, f2, false)); for (auto &x : y) x.thoroughOnly = true, x.name += "+";
    static const vector<Range> co = {{0.03f, 0, 1}};
    auto lg = spaces(keep(all_, {"o.large", "h.large", "d.large"}), body, pre(one, co, false)), ln = spaces(keep(all_, {"o.data.large", "h.data.large", "d.data.large"}), body, pre(one, co, true));
    static const vector<Range> fi = {{0.0005f, 0, 1}, {0.0005f, 0.25f, 0.75f}}; static const vector<double> small = {1 / 65536.0, 1e-9};
    auto mn = spaces(manyParts(), body, pre(small, fi, false));
    for (auto *z : {&mn, &lg, &ln, &t, &u, &w, &y}) s.insert(s.end(), z->begin(), z->end());
    return mc::run(c, v, s);
}
