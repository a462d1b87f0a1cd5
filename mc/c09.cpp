// C09: normalising divides by the complete aggregate's raw quality, stays finite, is idempotent.
#include "gens.h"
using namespace gen;
static void body(Mc &m, Inst &I) {
    auto P = pipe(I); m.op();
    if (!I.exact()) { P->compute(); m.op(); }
    auto snap = [&] { vector<Q> r; for (int v = 0; v < I.t.N; v++) for (int i = 0; i < I.n; i++) for (int j = i; j < I.n; j++) r.push_back(P->quality(v, i, j)); m.op(r.size()); return r; };
    vector<Q> raw = snap(); Q root = P->quality(I.t.root, 0, I.n - 1);
    u64 h = 0;
    ld dg = root.g == 0 ? 1 : root.g, dl = root.l == 0 ? 1 : root.l;
    auto compare = [&](const char *when) {
        vector<Q> now = snap();
        size_t x = 0;
        for (int v = 0; v < I.t.N; v++) for (int i = 0; i < I.n; i++) for (int j = i; j < I.n; j++, x++) {
            ld g = raw[x].g / dg, l = raw[x].l / dl;
            auto where = [&] { return string(when) + ": node " + std::to_string(v) + " interval " + std::to_string(i) + "-" + std::to_string(j) + " has gain " + num(now[x].g) + " loss " + num(now[x].l) + ", expected gain " + num(g) + " loss " + num(l) + " (raw " + num(raw[x].g) + "," + num(raw[x].l) + ", complete aggregate " + num(root.g) + "," + num(root.l) + ")"; };
            m.check(std::isfinite(now[x].g) && std::isfinite(now[x].l), [&] { return "not finite, " + where(); });
            m.check(near(now[x].g, g, 1e-12L) && near(now[x].l, l, 1e-12L), where);
            h = mc::mix(mc::mix(h, (u64)(long long)(now[x].g * 1e6L)), (u64)(long long)(now[x].l * 1e6L));
        }
        if (!I.exact()) {
            Q w = P->quality(I.t.root, 0, I.n - 1);
            bool equal = true; for (auto &k : I.vals) for (auto &a : k) for (double y : a) equal = equal && y == k[0][0];
            if (equal) { size_t z = 0; for (auto &q : now) { z++; m.check(q.l == 0, [&] { return string(when) + ": homogeneous data with a loss " + num(q.l); }); } }
            m.check((root.g == 0 ? w.g == 0 : near(w.g, 1, 1e-12L)) && (root.l == 0 ? w.l == 0 : near(w.l, 1, 1e-12L)), [&] { return string(when) + ": the complete aggregate has gain " + num(w.g) + " loss " + num(w.l); });
        }
    };
    P->normalize(); m.op(); compare("normalised");
    P->normalize(); m.op(); compare("normalised twice");
    if (!I.exact()) {   // recomputing forgets the normalisation
        P->compute(); m.op(); vector<Q> again = snap();
        for (size_t i = 0; i < raw.size(); i++) m.check(near(again[i].g, raw[i].g, 1e-12L) && near(again[i].l, raw[i].l, 1e-12L), [&] { return "recomputed after normalising: gain " + num(again[i].g) + " loss " + num(again[i].l) + " instead of " + num(raw[i].g) + "," + num(raw[i].l); });
        P->normalize(); m.op(); compare("recomputed and normalised");
    }
    m.state(h); m.outcome(h); m.trace();
}
int main(int c, char **v) {
    Gens g = all(), k;
    static const vector<Q> al = {Q(0, 0), Q(0, 3), Q(5, 0), Q(4, 7)};
    Gens x = keep(g, {"o.tab.micro", "o.formula", "h.tab.all", "h.tab.inner", "h.tab.unary", "h.formula", "d.tab.2", "d.tab.micro", "d.tab.1xn", "d.formula", "o.tab.neg", "h.tab.neg", "d.tab.neg", "o.large", "h.large", "d.large", "o.tab4+", "h.tab.all+"});
    k.push_back({"o.tab.zero", "ordered tables, n<=3, every cell with zero and non-zero gain and loss", false, [](Mc &m, Inst &I) { table(m, I, 'O', oneLeaf(), 1 + m.choose(3), al, false); }});
    k.push_back({"h.tab.zero", "hierarchical tables, all labelled trees with <=3 leaves and <=2 inner nodes, every node with zero and non-zero gain and loss", false, [](Mc &m, Inst &I) { table(m, I, 'H', m.pick(smallTrees()), 1, al, false); }});
    k.push_back({"d.tab.zero", "spatiotemporal tables, trees with <=2 leaves, n<=2, every block of >=2 cells with zero and non-zero gain and loss", false, [](Mc &m, Inst &I) { static vector<Tree> ts = [] { vector<Tree> r; for (auto &t : dTrees()) if (t.L <= 2) r.push_back(t); return r; }(); const Tree &t = m.pick(ts); table(m, I, 'D', t, t.N <= 2 ? 1 + m.choose(2) : t.N == 3 ? 1 + m.choose(2) : 1, al, true); }});
    Gens d = allData(); for (auto &y : hugeAll()) d.push_back(y); x.insert(x.end(), d.begin(), d.end()); x.insert(x.end(), k.begin(), k.end());
    Alpha ca = {0, 1e-9, 0.1, 1, 3, 7.3, 1e12};
    auto fill = [ca](Mc &m, Inst &I) { int K = 1 + m.choose(2); I.vals.clear(); for (int i = 0; i < K; i++) { double y = m.pick(ca); I.vals.push_back(vector<vector<double>>(I.t.L, vector<double>(I.n, y))); } };
    x.push_back({"o.const", "ordered constant data, n<=40", false, [=](Mc &m, Inst &I) { I = blank('O', oneLeaf(), 1 + m.choose(40)); fill(m, I); }});
    x.push_back({"h.const", "hierarchical constant data, all labelled trees with <=4 leaves and <=3 inner nodes and large trees", false, [=](Mc &m, Inst &I) { I = blank('H', m.choose(2) ? m.pick(midTrees()) : m.pick(bigTrees()), 1); fill(m, I); }});
    x.push_back({"d.const", "spatiotemporal constant data, trees with <=5 leaves, n<=6", false, [=](Mc &m, Inst &I) { I = blank('D', m.choose(2) ? m.pick(dTrees()) : m.pick(dTreesMore()), 1 + m.choose(6)); fill(m, I); }});
    return mc::run(c, v, spaces(x, body));
}
