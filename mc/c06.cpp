// C06/C07/C08: gains and losses equal their information-theoretic definition. -DKIND selects the kind.
#include "gens.h"
using namespace gen;
#ifndef KIND
#define KIND 'O'
#endif
static void body(Mc &m, Inst &I) {
    auto P = pipe(I); P->compute(); m.op(2);
    unsigned sz = P->qsize(), want = I.kind == 'O' ? I.n : I.t.N;
    m.check(sz == want, [&] { return "size() is " + std::to_string(sz) + " instead of " + std::to_string(want); });
    u64 h = 0;
    for (int v = 0; v < I.t.N; v++) for (int i = 0; i < I.n; i++) for (int j = i; j < I.n; j++) {
        Q q = P->quality(v, i, j); m.op();
        const Q &r = I.tab[v][i][j];
        int cells = I.t.size(v) * (j - i + 1);
        ld mg = 0; bool equal = true;
        for (size_t k = 0; k < I.vals.size(); k++) { auto c = I.cells((int)k, v, i, j); mg += ref::magnitude(c); for (double x : c) equal = equal && x == c[0]; }
        auto where = [&] { return "node " + std::to_string(v) + " interval " + std::to_string(i) + "-" + std::to_string(j) + ": gain " + num(q.g) + " loss " + num(q.l) + ", expected gain " + num(r.g) + " loss " + num(r.l); };
        m.check(std::isfinite(q.g) && std::isfinite(q.l), [&] { return "not finite at " + where(); });
        m.check(near(q.g, r.g, 1e-11L, 1e-12L * mg) && near(q.l, r.l, 1e-11L, 1e-12L * mg), where);
        if (cells == 1) m.check(q.g == 0 && q.l == 0, [&] { return "single value with gain or loss: " + where(); });
        if (equal) m.check(q.l == 0, [&] { return "equal values with a loss: " + where(); });
        h = mc::mix(mc::mix(h, (u64)(long long)(q.g * 1e6L)), (u64)(long long)(q.l * 1e6L));
    }
    m.state(h); m.outcome(h); m.trace();
}
int main(int c, char **v) {
    Gens g = datas(KIND);
    if (KIND == 'O') {
        g.push_back({"o.long", "ordered periodic data, n in {66,100,128,129,130}, 2 components", false, [](Mc &m, Inst &I) { I = blank('O', oneLeaf(), m.pick(vector<int>{66, 100, 128, 129, 130})); waveValues(m, I, 1 + m.choose(2), 2, 2); }});
        g.push_back({"o.comps", "ordered data of 4-6 components, n<=3 over {0,3}", false, [](Mc &m, Inst &I) { int K = 4 + m.choose(3); data(m, I, 'O', oneLeaf(), 1 + m.choose(K == 4 ? 3 : 2), K, {0, 3}); }});
        g.push_back({"o.comps.many", "ordered periodic data of 7-40 components, n<=4", false, [](Mc &m, Inst &I) { I = blank('O', oneLeaf(), 2 + m.choose(3)); waveValues(m, I, m.pick(vector<int>{7, 8, 9, 16, 17, 33, 40}), 2, 3); }});
        g.push_back({"o.perm", "ordered data, all arrangements of length <=6 over {0.1,0.7,1,6} (non-integers)", false, [](Mc &m, Inst &I) { data(m, I, 'O', oneLeaf(), 2 + m.choose(5), 1, {0.1, 0.7, 1, 6}); }});
    } else if (KIND == 'H') {
        g.push_back({"h.giant", "hierarchical periodic data on stars of 33000 and 66000 leaves next to a leaf", false, [](Mc &m, Inst &I) { giant(m, I, 'H'); waveValues(m, I, 1, 1, 1); }});
        g.push_back({"h.comps", "hierarchical data of 4-5 components, trees with <=2 leaves, over {0,3}", false, [](Mc &m, Inst &I) { static vector<Tree> ts = treesUpTo(2, [](int) { return 2; }); data(m, I, 'H', m.pick(ts), 1, 4 + m.choose(2), {0, 3}); }});
        g.push_back({"h.comps.many", "hierarchical periodic data of 6-40 components, trees with <=3 leaves", false, [](Mc &m, Inst &I) { I = blank('H', m.pick(smallTrees()), 1); waveValues(m, I, m.pick(vector<int>{6, 7, 8, 9, 16, 17, 33, 40}), 2, 3); }});
        g.push_back({"h.distinct", "hierarchical data with distinct non-integer leaves in 4 orders, all labelled trees with <=4 leaves and <=3 inner nodes, unary and all shapes of <=7 leaves", false, [](Mc &m, Inst &I) { int f = m.choose(3); I = blank('H', f == 0 ? m.pick(midTrees()) : f == 1 ? m.pick(unaryTrees()) : m.pick(shapeTrees(5 + m.choose(3))), 1); int o = m.choose(4); I.vals.assign(1, vector<vector<double>>(I.t.L, vector<double>(1))); for (int a = 0; a < I.t.L; a++) I.vals[0][a][0] = o == 0 ? 0.3 + a : o == 1 ? 0.1 * std::pow(3.0, a) : o == 2 ? 5.0 * ((a * 2 + 1) % 5) : 10.0 - a; }});
    } else {
        g.push_back({"d.giant", "spatiotemporal periodic data on stars of 17000 and 33000 leaves next to a leaf, n=2", false, [](Mc &m, Inst &I) { giant(m, I, 'D'); waveValues(m, I, 1, 1, 1); }});
        g.push_back({"d.long", "spatiotemporal periodic data, (a pair, a group below the root, a chain) x n in {128,257,300}", false, [](Mc &m, Inst &I) { static vector<Tree> ts = {ref::label(ref::star(2), 0), ref::label("((()())())", 3), ref::label(ref::chain(2), 1)}; I = blank('D', m.pick(ts), m.pick(vector<int>{128, 257, 300})); waveValues(m, I, 1, 1, 2); }});
        g.push_back({"d.comps", "spatiotemporal data of 3 components, trees with <=2 leaves, n<=2, over {0,3}", false, [](Mc &m, Inst &I) { static vector<Tree> ts = [] { vector<Tree> r; for (auto &t : dTrees()) if (t.L <= 2 && t.N <= 3) r.push_back(t); return r; }(); data(m, I, 'D', m.pick(ts), 1 + m.choose(2), 3, {0, 3}); }});
        g.push_back({"d.comps.many", "spatiotemporal periodic data of 4-40 components, trees with <=3 leaves, n<=3", false, [](Mc &m, Inst &I) { I = blank('D', m.pick(dTrees()), 1 + m.choose(3)); waveValues(m, I, m.pick(vector<int>{4, 5, 8, 9, 17, 40}), 2, 2); }});
        g.push_back({"d.distinct", "spatiotemporal data with distinct values in 4 patterns, trees with <=5 leaves and large ones, n<=6", false, [](Mc &m, Inst &I) { int f = m.choose(3); I = blank('D', f == 0 ? m.pick(dTrees()) : f == 1 ? m.pick(dTreesMore()) : m.pick(dTreesBig()), 1 + m.choose(6)); int o = m.choose(4); I.vals.assign(1, vector<vector<double>>(I.t.L, vector<double>(I.n))); for (int a = 0; a < I.t.L; a++) for (int t = 0; t < I.n; t++) { int x = a * I.n + t; I.vals[0][a][t] = o == 0 ? 0.3 + x : o == 1 ? 0.1 * std::pow(1.7, x % 11) + x : o == 2 ? 5.0 * ((x * 2 + 1) % 7) : 100.0 / (1 + x); } }});
    }
    g.push_back(huge(KIND)[1]);
    return mc::run(c, v, spaces(g, body));
}
