// C05: among the partitions with the best trade-off the one returned has the largest gain, then the
// smallest loss; the complete aggregate wins a complete tie; the same request gets the same parts.
#include "gens.h"
using namespace gen;
static void tieBreak(Mc &m, Inst &I) {
    auto P = ready(I); m.op();
    u64 h = 0; bool small = I.t.L * I.n <= 8 && (I.kind != 'D' || I.t.N * I.n <= 14);
    vector<float> ps = {0.f, 0.125f, 0.25f, 0.375f, 0.5f, 0.625f, 0.75f, 0.875f, 1.f, 0x1p-20f, 0x1p-10f, 1 - 0x1p-20f, 1 - 0x1p-10f}; ps.insert(ps.end(), I.ps.begin(), I.ps.end());
    for (float p : ps) {
        Res r = P->best(p), again = P->best(p); m.op(2);
        ref::Best b = ref::optimum(I, p);
        if (small && (p == 0 || p == 0.5f || p == 1)) { ref::Best c = ref::brute(I, p); if (better(b, c) || better(c, b)) throw std::logic_error("reference disagrees with brute force"); }
        checkCover(m, I, r);
        Q q = totals(I, r); ref::Best x; x.v = ref::pic(q, p); x.g = q.g; x.l = q.l;
        m.check(!better(b, x), [&] { return "at p=" + num(p) + " the partition " + str(r) + " has trade-off " + num(x.v) + ", gain " + num(x.g) + ", loss " + num(x.l) + ", but trade-off " + num(b.v) + ", gain " + num(b.g) + ", loss " + num(b.l) + " is reachable"; });
        Q w = I.tab[I.t.root][0][I.n - 1];
        if (ref::pic(w, p) == b.v && w.g == b.g && w.l == b.l) m.check(r.parts.size() == 1, [&] { return "the complete aggregate ties with the best partition at p=" + num(p) + " but is not returned: " + str(r); });
        m.check(sameParts(r, again), [&] { return "the same request got different parts at p=" + num(p) + ": " + str(r) + " then " + str(again); });
        m.state(hashRes(r)); h = mc::mix(h, hashRes(r));
    }
    m.trace(); m.outcome(h);
}
// data whose values are all equal: the complete aggregate is the best at every p, without loss
static void constant(Mc &m, Inst &I) {
    for (int norm = 0; norm < 2; norm++) {
        auto P = ready(I, norm); m.op(2 + norm);
        bool pos = I.vals[0][0][0] > 0 || (I.vals.size() > 1 && I.vals[1][0][0] > 0);
        for (float p : {0.f, 0.001f, 0.1f, 0.5f, 0.9f, 1.f}) {
            Res r = P->best(p); m.op();
            checkCover(m, I, r); m.state(hashRes(r));
            m.check(r.parts.size() == 1, [&] { return string("equal values ") + (pos ? "" : "(all zero) ") + "are not aggregated completely at p=" + num(p) + ": " + str(r); });
        }
    }
    m.trace();
}
int main(int c, char **v) {
    auto s = spaces(allTables(), tieBreak);
    Gens k;
    Alpha al = {0, 1e-9, 0.1, 1, 3, 7.3, 1e12};
    auto fill = [al](Mc &m, Inst &I) { int K = 1 + m.choose(2); I.vals.clear(); for (int i = 0; i < K; i++) { double x = m.pick(al); I.vals.push_back(vector<vector<double>>(I.t.L, vector<double>(I.n, x))); } };
    k.push_back({"o.const", "ordered constant data, n<=40, 7 magnitudes, 1-2 components", false, [=](Mc &m, Inst &I) { I = blank('O', oneLeaf(), 1 + m.choose(40)); fill(m, I); }});
    k.push_back({"h.const", "hierarchical constant data, all labelled trees with <=4 leaves and <=3 inner nodes, 7 magnitudes, 1-2 components", false, [=](Mc &m, Inst &I) { I = blank('H', m.pick(midTrees()), 1); fill(m, I); }});
    k.push_back({"h.const.big", "hierarchical constant data, large trees", false, [=](Mc &m, Inst &I) { I = blank('H', m.pick(bigTrees()), 1); fill(m, I); }});
    k.push_back({"d.const", "spatiotemporal constant data, trees with <=5 leaves, n<=6", false, [=](Mc &m, Inst &I) { I = blank('D', m.choose(2) ? m.pick(dTrees()) : m.pick(dTreesMore()), 1 + m.choose(6)); fill(m, I); }});
    auto d = spaces(k, constant); s.insert(s.end(), d.begin(), d.end());
    for (auto &x : spaces(keep(hugeAll(), {"o.huge", "h.huge", "d.huge"}), tieBreak)) s.push_back(x);
    return mc::run(c, v, s);
}
