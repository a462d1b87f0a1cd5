// Enumerated families of instances (datasets and quality tables), shared by the checks. Every family
// is drawn decision by decision, so that the explorer covers all its members.
#pragma once
#include "lp.h"

namespace gen {
using namespace lp;
struct Gen { string name, bound; bool thorough; std::function<void(Mc &, Inst &)> draw; };
typedef vector<Gen> Gens;

inline const vector<Q> &A2() { static vector<Q> a = {Q(0, 1), Q(2, 1)}; return a; }
inline const vector<Q> &A3() { static vector<Q> a = {Q(0, 0), Q(2, 1), Q(1, 2)}; return a; }
inline const vector<Q> &A4() { static vector<Q> a = {Q(0, 0), Q(1, 0), Q(1, 1), Q(3, 2)}; return a; }
inline const vector<Q> &A5() { static vector<Q> a = {Q(0, 0), Q(1, 1), Q(2, 1), Q(1, 2), Q(5, 3)}; return a; }
inline const vector<Q> &A6() { static vector<Q> a = {Q(0, 0), Q(0, 1), Q(1, 0), Q(1, 1), Q(2, 2), Q(4, 1)}; return a; }

// tree lists -------------------------------------------------------------------------------------
inline vector<Tree> treesUpTo(int Lmax, std::function<int(int)> Imax) {
    vector<Tree> r; for (int L = 1; L <= Lmax; L++) for (int I = 0; I <= Imax(L); I++) { auto &x = ref::allTrees(L, I); r.insert(r.end(), x.begin(), x.end()); }
    return r;
}
inline void add(vector<Tree> &r, const vector<Tree> &x) { for (auto &t : x) { bool dup = false; for (auto &u : r) dup = dup || u.par == t.par; if (!dup) r.push_back(t); } }
inline const vector<Tree> &smallTrees() { static vector<Tree> r = treesUpTo(3, [](int L) { return L == 1 ? 2 : L == 2 ? 2 : 2; }); return r; }         // all labelled
inline const vector<Tree> &midTrees() { static vector<Tree> r = treesUpTo(4, [](int L) { return L == 4 ? 3 : 3; }); return r; }
inline const vector<Tree> &shapeTrees(int L) { static map<int, vector<Tree>> memo; auto &r = memo[L]; if (r.empty()) r = ref::labelled(L, false, L, {0, 1, 2, 3, 4, 5}); return r; }
inline const vector<Tree> &unaryTrees() { static vector<Tree> r = [] { vector<Tree> r; for (int L = 1; L <= 4; L++) add(r, ref::labelled(L, true, L <= 2 ? 4 : 3, {0, 1, 3, 4})); return r; }(); return r; }
inline const vector<Tree> &bigTrees() {
    static vector<Tree> r = [] { vector<Tree> r;
        for (int md : {0, 1, 3}) { r.push_back(ref::label(ref::star(40), md)); r.push_back(ref::label(ref::binary(5), md)); }
        for (int md : {0, 1, 2, 3, 4, 5}) { r.push_back(ref::label(ref::caterpillar(13, true), md)); r.push_back(ref::label(ref::caterpillar(13, false), md)); }
        for (int md : {0, 1}) r.push_back(ref::label(ref::chain(12), md));
        // two levels with groups of different sizes, and groups of groups
        string g; for (int i = 1; i <= 8; i++) g += ref::star(i + 1); for (int md : {0, 1, 2, 3}) r.push_back(ref::label("(" + g + ")", md));
        string k; for (int i = 0; i < 3; i++) k += "(" + ref::star(2) + "()" + ref::caterpillar(4, i % 2) + ")"; for (int md : {0, 1, 2, 3, 4, 5}) r.push_back(ref::label("(" + k + "())", md));
        return r; }();
    return r;
}
// trees used for spatiotemporal families, small first
inline const vector<Tree> &dTrees() { static vector<Tree> r = [] { vector<Tree> r; for (int L = 1; L <= 3; L++) add(r, ref::labelled(L, false, 3, {0, 1, 2, 3, 4, 5})); add(r, ref::labelled(1, true, 2, {0, 1})); add(r, ref::labelled(2, true, 2, {0, 1})); return r; }(); return r; }
inline const vector<Tree> &dTreesMore() { static vector<Tree> r = [] { vector<Tree> r; for (int L = 4; L <= 5; L++) add(r, ref::labelled(L, false, 4, {0, 1, 3, 4})); add(r, ref::labelled(3, true, 3, {0, 1})); return r; }(); return r; }
inline const vector<Tree> &dTreesBig() { static vector<Tree> r = [] { vector<Tree> r; for (int md : {0, 1}) { r.push_back(ref::label(ref::star(17), md)); r.push_back(ref::label(ref::binary(3), md)); }
    for (int md : {0, 3, 4}) r.push_back(ref::label(ref::caterpillar(7, true), md)); r.push_back(ref::label(ref::chain(6), 1)); r.push_back(ref::label("((()())(()(()()()))())", 3)); return r; }(); return r; }

inline void table(Mc &m, Inst &I, char k, const Tree &t, int n, const vector<Q> &al, bool mz) { I = blank(k, t, n); drawTable(m, I, al, mz); }
inline void data(Mc &m, Inst &I, char k, const Tree &t, int n, int K, const Alpha &al) { I = blank(k, t, n); drawValues(m, I, K, al); }
// a table for which the chosen cover is the only best one at every p in ]0,1[
inline void coverTable(Inst &I, const ref::Cover &c) {
    I.alloc();
    for (int h = 0; h < I.t.N; h++) for (int i = 0; i < I.n; i++) for (int j = i; j < I.n; j++) I.tab[h][i][j] = Q(0, 2 * I.t.size(h) * (j - i + 1));
    for (auto &b : c) { int w = I.t.size(b.h) * (b.e - b.s + 1); I.tab[b.h][b.s][b.e] = Q(2 * w - 1, 1); }
}
// alternatives that differ by one part in 2^35: every block is worth its number of cells x 2^35, plus a unit of gain or loss or both
inline const vector<Q> &AN() { static vector<Q> a = {Q(-1, 0), Q(0, -2), Q(2, 1), Q(-2, 3)}; return a; }
inline void closeTable(Mc &m, Inst &I, int minCells) {
    static const vector<Q> d = {Q(0, 0), Q(1, 0), Q(0, 1), Q(1, 1)}; const double B = (double)(1ull << 35);
    I.alloc(); for (int h = 0; h < I.t.N; h++) for (int i = 0; i < I.n; i++) for (int j = i; j < I.n; j++) { int w = I.t.size(h) * (j - i + 1); Q q = w >= minCells ? m.pick(d) : Q(0, 0); I.tab[h][i][j] = Q(q.g + w * B, q.l + w * B); }
}
// losses (or gains) that are tiny next to the gains (losses): the best partition changes at parameters next to 0 (next to 1)
inline void skew(Mc &m, Inst &I) {
    bool loss = m.choose(2);
    for (auto &a : I.tab) for (auto &b : a) for (auto &q : b) { if (loss) q.l *= 0x1p-22L; else q.g *= 0x1p-22L; }
    for (int k : {1, 2, 3, 4, 6, 8, 12}) I.ps.push_back(loss ? k * 0x1p-24f : 1 - k * 0x1p-24f);
}
// sweeps with many distinct best partitions: M blocks that exclude one another (chains of nodes, intervals around the middle), the
// k-th one (in three orders) being the best one for p in [(2k-1)/2M, (2k+1)/2M]: tangents of a parabola
inline void manyTable(Mc &m, Inst &I, char k, int len, int depth) {
    int step = m.pick(vector<int>{1, 7, -1}), mid = len / 2; I = blank(k, ref::label(ref::chain(depth), m.choose(2)), len); I.alloc();
    auto one = [&](int h, int i, int j) { return i <= mid && mid <= j && (I.t.kids[h].size() || j > i); };
    int M = 0, x = 0; for (int pass = 0; pass < 2; pass++) for (int h = 0; h < I.t.N; h++) for (int i = 0; i < I.n; i++) for (int j = i; j < I.n; j++) {
        if (!one(h, i, j)) { I.tab[h][i][j] = i == j && I.t.kids[h].empty() ? Q(0, 0) : Q(0, 1e6); continue; }
        if (!pass) { M++; continue; }
        ld y = step == 7 ? (ld)x * 7 / std::__gcd(7, M) : step < 0 ? M - 1 - x : x; y = (long long)y % M; x++;
        I.tab[h][i][j] = Q(2 * M * y - y * y, y * y);
    }
}
inline Gens manyParts(bool small = false) {
    return {
        {small ? "o.many.s" : "o.many", small ? "ordered tables of n=13 with 48 best partitions, 3 orders" : "ordered tables of n=41 with 440 best partitions, 3 orders", false, [=](Mc &m, Inst &I) { manyTable(m, I, 'O', small ? 13 : 41, 0); }},
        {small ? "h.many.s" : "h.many", small ? "hierarchical tables of 40 nodes with as many best partitions, 3 orders, 2 numberings" : "hierarchical tables of 280 nodes with as many best partitions, 3 orders, 2 numberings", false, [=](Mc &m, Inst &I) { manyTable(m, I, 'H', 1, small ? 40 : 280); }},
        {small ? "d.many.s" : "d.many", small ? "spatiotemporal tables (5 nodes x 5) with 44 best partitions, 3 orders, 2 numberings" : "spatiotemporal tables (9 nodes x 13) with 440 best partitions, 3 orders, 2 numberings", false, [=](Mc &m, Inst &I) { manyTable(m, I, 'D', small ? 5 : 13, small ? 4 : 8); }},
    };
}
// sizes beyond the usual powers of two, a few instances each
inline const vector<Tree> &largeTrees() { static vector<Tree> r = [] { vector<Tree> r; r.push_back(ref::label(ref::star(130), 0)); r.push_back(ref::label(ref::star(260), 1)); r.push_back(ref::label(ref::binary(7), 0)); r.push_back(ref::label(ref::binary(7), 3)); r.push_back(ref::label(ref::caterpillar(70, true), 4)); r.push_back(ref::label(ref::caterpillar(70, false), 1)); r.push_back(ref::label(ref::chain(130), 0)); string g; for (int i = 0; i < 20; i++) g += ref::star(i + 1); r.push_back(ref::label("(" + g + ")", 0)); return r; }(); return r; }
inline void largeD(Mc &m, Inst &I, bool larger = false) { struct X { Tree t; int n; }; static vector<X> x = {{ref::label(ref::star(2), 0), 70}, {oneLeaf(), 66}, {ref::label(ref::star(70), 1), 3}, {ref::label(ref::binary(6), 0), 2}, {ref::label(ref::chain(40), 0), 3}, {ref::label(ref::caterpillar(34, true), 4), 2}, {ref::label("((()())())", 3), 33}}; static vector<X> y = [] { vector<X> r = x; r.push_back({oneLeaf(), 300}); r.push_back({ref::label(ref::star(260), 0), 2}); r.push_back({ref::label(ref::star(260), 1), 1}); r.push_back({ref::label(ref::star(18), 1), 18}); return r; }(); auto &c = larger ? m.pick(y) : m.pick(x); I = blank('D', c.t, c.n); }
// aggregates of more cells than 2^15 and 2^16: stars, so that hardly any aggregate is computed
inline void giant(Mc &m, Inst &I, char k) { struct X { Tree t; int n; }; static map<char, vector<X>> all; auto &x = all[k]; if (x.empty()) { if (k == 'H') x = {{ref::label("(" + ref::star(33000) + "())", 0), 1}, {ref::label("(" + ref::star(66000) + "())", 1), 1}}; else x = {{ref::label("(" + ref::star(17000) + "())", 0), 2}, {ref::label("(" + ref::star(33000) + "())", 1), 2}}; } auto &c = m.pick(x); I = blank(k, c.t, c.n); }
// equal values on such stars
inline Gens giants() {
    Gens k; for (char x : {'H', 'D'}) k.push_back({x == 'H' ? "h.giant" : "d.giant", x == 'H' ? "hierarchical constant data on stars of 33000 and 66000 leaves next to a leaf" : "spatiotemporal constant data on stars of 17000 and 33000 leaves next to a leaf, n=2", false, [x](Mc &m, Inst &I) { giant(m, I, x); I.vals.assign(1, vector<vector<double>>(I.t.L, vector<double>(I.n, 2))); }});
    return k;
}
inline const Alpha &extreme() { static Alpha a = {0, 1e-300, 1e-9, 1, 3e9, 1e200}; return a; }

inline Gens oTables() {
    Tree t = oneLeaf();
    return {
        {"o.tab.micro", "ordered tables, n<=3, every cell (single elements too) in 4 exact qualities", false, [t](Mc &m, Inst &I) { table(m, I, 'O', t, 1 + m.choose(3), A4(), false); }},
        {"o.tab4", "ordered tables, n=4, every interval of length>=2 in 6 exact qualities", false, [t](Mc &m, Inst &I) { table(m, I, 'O', t, 4, A6(), true); }},
        {"o.tab5", "ordered tables, n=5, every interval of length>=2 in 3 exact qualities", false, [t](Mc &m, Inst &I) { table(m, I, 'O', t, 5, A3(), true); }},
        {"o.tab6", "ordered tables, n=6, every interval of length>=2 in 2 exact qualities", false, [t](Mc &m, Inst &I) { table(m, I, 'O', t, 6, A2(), true); }},
        {"o.cover", "ordered tables that make each of the 2^(n-1) partitions of n<=10 elements the best one", false, [t](Mc &m, Inst &I) { I = blank('O', t, 1 + m.choose(10)); auto &c = ref::covers(t, I.n); coverTable(I, c[m.choose((int)c.size())]); }},
        {"o.formula", "ordered tables from formulas, n in 8..65, 27 coefficient triples", false, [t](Mc &m, Inst &I) { I = blank('O', t, m.pick(vector<int>{8, 9, 16, 17, 31, 33, 64, 65})); formulaTable(m, I, 3, 3, 3); }},
        {"o.large", "ordered formula tables, n in {127,128,129,200,255,256,257,300}", false, [t](Mc &m, Inst &I) { I = blank('O', t, m.pick(vector<int>{127, 128, 129, 200, 255, 256, 257, 300})); formulaTable(m, I, 1, 2, 1); }},
        {"o.tab.neg", "ordered tables, n<=3, every cell, and n=4, every interval of length>=2, in 4 exact qualities with negative gains and losses", false, [t](Mc &m, Inst &I) { int n = 1 + m.choose(4); table(m, I, 'O', t, n, AN(), n == 4); }},
        {"o.tab.close", "ordered tables, n<=3 (n=4: intervals of length>=2), alternatives that differ by one part in 2^35", false, [t](Mc &m, Inst &I) { int n = 1 + m.choose(4); I = blank('O', t, n); closeTable(m, I, n == 4 ? 2 : 1); }},
        {"o.tab.skew", "ordered tables, n<=4, every interval of length>=2 in 3 exact qualities, and of formulas, n in {9,17}, with losses or gains divided by 2^22", false, [t](Mc &m, Inst &I) { int f = m.choose(3); if (!f) table(m, I, 'O', t, 1 + m.choose(4), A3(), true); else { I = blank('O', t, f == 1 ? 9 : 17); formulaTable(m, I, 3, 3, 3); } skew(m, I); }},
        {"o.tab5+", "ordered tables, n=5, every interval of length>=2 in 4 exact qualities", true, [t](Mc &m, Inst &I) { table(m, I, 'O', t, 5, A4(), true); }},
        {"o.tab4+", "ordered tables, n=4, every cell in 4 exact qualities", true, [t](Mc &m, Inst &I) { table(m, I, 'O', t, 4, A4(), false); }},
    };
}
inline Gens oData() {
    Tree t = oneLeaf();
    return {
        {"o.data", "ordered data, n<=6 over {0,1,2,5}", false, [t](Mc &m, Inst &I) { data(m, I, 'O', t, 1 + m.choose(6), 1, {0, 1, 2, 5}); }},
        {"o.data.bin", "ordered data, 7<=n<=10 over {0,1} and {1,3}", false, [t](Mc &m, Inst &I) { Alpha a = m.choose(2) ? Alpha{0, 1} : Alpha{1, 3}; data(m, I, 'O', t, 7 + m.choose(4), 1, a); }},
        {"o.data.multi", "ordered data of 2-3 components, n<=3 over {0,1,4}; 2 components, n=4 over {0,3}", false, [t](Mc &m, Inst &I) { if (m.choose(2)) data(m, I, 'O', t, 4, 2, {0, 3}); else { int K = 2 + m.choose(2); data(m, I, 'O', t, 1 + m.choose(K == 2 ? 3 : 2), K, {0, 1, 4}); } }},
        {"o.data.extreme", "ordered data, n<=4 over 6 magnitudes from 0 and 1e-300 to 1e200", false, [t](Mc &m, Inst &I) { data(m, I, 'O', t, 1 + m.choose(4), 1, extreme()); }},
        {"o.data.block", "ordered data made of one block on a background, n in {9,16,33}", false, [t](Mc &m, Inst &I) { I = blank('O', t, m.pick(vector<int>{9, 16, 33})); blockValues(m, I, 1 + m.choose(2), {0, 1, 2.5}, false); }},
        {"o.data.wave", "ordered periodic data, n in 12..65, 12 shapes, 1-3 components", false, [t](Mc &m, Inst &I) { I = blank('O', t, m.pick(vector<int>{12, 24, 40, 65})); waveValues(m, I, 1 + m.choose(3), 3, 4); }},
        {"o.data.large", "ordered periodic data, n in {127,128,129,256,257}", false, [t](Mc &m, Inst &I) { I = blank('O', t, m.pick(vector<int>{127, 128, 129, 256, 257})); waveValues(m, I, 1, 1, 2); }},
        {"o.data.near", "ordered data, n<=5 over {1,1.00001,1.001} and {1e6,1e6+3}", false, [t](Mc &m, Inst &I) { Alpha a = m.choose(2) ? Alpha{1, 1.00001, 1.001} : Alpha{1e6, 1e6 + 3}; data(m, I, 'O', t, 1 + m.choose(5), 1, a); }},
        {"o.data.comps", "ordered periodic data of 5, 9, 17, 40, 260 and 1030 components, n in {2,4}", false, [t](Mc &m, Inst &I) { int K = m.pick(vector<int>{5, 9, 17, 40, 260, 1030}); I = blank('O', t, m.pick(vector<int>{2, 4})); waveValues(m, I, K, 2, 4); }},
        {"o.data+", "ordered data, n=7,8 over {0,1,3,4}", true, [t](Mc &m, Inst &I) { data(m, I, 'O', t, 7 + m.choose(2), 1, {0, 1, 3, 4}); }},
    };
}
inline Gens hTables() {
    return {
        {"h.tab.all", "hierarchical tables, all labelled trees with <=3 leaves and <=2 inner nodes, every node in 4 exact qualities", false, [](Mc &m, Inst &I) { table(m, I, 'H', m.pick(smallTrees()), 1, A4(), false); }},
        {"h.tab.inner", "hierarchical tables, all labelled trees with <=4 leaves and <=3 inner nodes, every inner node in 5 exact qualities", false, [](Mc &m, Inst &I) { table(m, I, 'H', m.pick(midTrees()), 1, A5(), true); }},
        {"h.tab.shapes", "hierarchical tables, all shapes with 5-6 leaves, 6 numberings, every inner node in 3 exact qualities", false, [](Mc &m, Inst &I) { table(m, I, 'H', m.pick(shapeTrees(5 + m.choose(2))), 1, A3(), true); }},
        {"h.tab.unary", "hierarchical tables, shapes with unary nodes (<=4 leaves), every inner node in 2 exact qualities", false, [](Mc &m, Inst &I) { table(m, I, 'H', m.pick(unaryTrees()), 1, A2(), true); }},
        {"h.cover", "hierarchical tables that make each cover of every shape with <=6 leaves the best one", false, [](Mc &m, Inst &I) { I = blank('H', m.pick(shapeTrees(1 + m.choose(6))), 1); auto &c = ref::covers(I.t, 1); coverTable(I, c[m.choose((int)c.size())]); }},
        {"h.formula", "hierarchical tables from formulas on large trees (stars of 40, depth 12, 32-leaf binary, mixed), several numberings", false, [](Mc &m, Inst &I) { I = blank('H', m.pick(bigTrees()), 1); formulaTable(m, I, 4, 3, 6); }},
        {"h.large", "hierarchical formula tables on trees of 130-300 nodes (stars, binary, depth 70 and 130, groups of 1-20)", false, [](Mc &m, Inst &I) { I = blank('H', m.pick(largeTrees()), 1); formulaTable(m, I, 2, 2, 2); }},
        {"h.tab.neg", "hierarchical tables, all labelled trees with <=3 leaves and <=2 inner nodes, every node in 4 exact qualities with negative gains and losses", false, [](Mc &m, Inst &I) { table(m, I, 'H', m.pick(smallTrees()), 1, AN(), false); }},
        {"h.tab.close", "hierarchical tables, labelled trees with <=4 leaves and <=3 inner nodes, alternatives that differ by one part in 2^35", false, [](Mc &m, Inst &I) { I = blank('H', m.pick(midTrees()), 1); closeTable(m, I, 2); }},
        {"h.tab.skew", "hierarchical tables, labelled trees with <=3 leaves and <=2 inner nodes, every inner node in 3 exact qualities, and of formulas on large trees, with losses or gains divided by 2^22", false, [](Mc &m, Inst &I) { if (m.choose(2)) table(m, I, 'H', m.pick(smallTrees()), 1, A3(), true); else { I = blank('H', m.pick(bigTrees()), 1); formulaTable(m, I, 2, 3, 3); } skew(m, I); }},
        {"h.tab.shapes+", "hierarchical tables, all shapes with 7 leaves, 6 numberings, every inner node in 2 exact qualities", true, [](Mc &m, Inst &I) { table(m, I, 'H', m.pick(shapeTrees(7)), 1, A2(), true); }},
        {"h.tab.all+", "hierarchical tables, all labelled trees with <=4 leaves and <=3 inner nodes, every node in 2 exact qualities", true, [](Mc &m, Inst &I) { table(m, I, 'H', m.pick(midTrees()), 1, A2(), false); }},
    };
}
inline Gens hData() {
    return {
        {"h.data", "hierarchical data, all labelled trees with <=4 leaves and <=3 inner nodes, values in {0,1,3}", false, [](Mc &m, Inst &I) { data(m, I, 'H', m.pick(midTrees()), 1, 1, {0, 1, 3}); }},
        {"h.data.multi", "hierarchical data of 2 components, all labelled trees with <=3 leaves and <=2 inner nodes, values in {0,1,4}", false, [](Mc &m, Inst &I) { data(m, I, 'H', m.pick(smallTrees()), 1, 2, {0, 1, 4}); }},
        {"h.data.shapes", "hierarchical data, all shapes with 5-6 leaves, 6 numberings, values in {0,2}", false, [](Mc &m, Inst &I) { data(m, I, 'H', m.pick(shapeTrees(5 + m.choose(2))), 1, 1, {0, 2}); }},
        {"h.data.unary", "hierarchical data, shapes with unary nodes, values in {1,2}", false, [](Mc &m, Inst &I) { data(m, I, 'H', m.pick(unaryTrees()), 1, 1, {1, 2}); }},
        {"h.data.extreme", "hierarchical data, labelled trees with <=3 leaves, 6 magnitudes from 0 and 1e-300 to 1e200", false, [](Mc &m, Inst &I) { data(m, I, 'H', m.pick(smallTrees()), 1, 1, extreme()); }},
        {"h.data.wave", "hierarchical periodic data on large trees, 12 shapes, 1-2 components", false, [](Mc &m, Inst &I) { I = blank('H', m.pick(bigTrees()), 1); waveValues(m, I, 1 + m.choose(2), 3, 4); }},
        {"h.data.near", "hierarchical data, labelled trees with <=3 leaves, values in {1,1.00001,1.001} and in {1e6,1e6+3}", false, [](Mc &m, Inst &I) { Alpha a = m.choose(2) ? Alpha{1, 1.00001, 1.001} : Alpha{1e6, 1e6 + 3}; data(m, I, 'H', m.pick(smallTrees()), 1, 1, a); }},
        {"h.data.comps", "hierarchical periodic data of 5, 9, 17, 40, 260 and 1030 components, labelled trees with <=3 leaves", false, [](Mc &m, Inst &I) { int K = m.pick(vector<int>{5, 9, 17, 40, 260, 1030}); I = blank('H', m.pick(smallTrees()), 1); waveValues(m, I, K, 1, 3); }},
        {"h.data.large", "hierarchical periodic data on trees of 130-300 nodes, 1-2 components", false, [](Mc &m, Inst &I) { I = blank('H', m.pick(largeTrees()), 1); waveValues(m, I, 1 + m.choose(2), 1, 3); }},
        {"h.data.block", "hierarchical data: one range of leaves on a background, large trees", false, [](Mc &m, Inst &I) { I = blank('H', m.pick(bigTrees()), 1); blockValues(m, I, 1, {0, 2.5}, false); }},
    };
}
inline Gens dTables() {
    return {
        {"d.tab.2", "spatiotemporal tables, trees with <=2 leaves (also unary), n<=2, every block of >=2 cells in 5 exact qualities", false, [](Mc &m, Inst &I) { static vector<Tree> ts = [] { vector<Tree> r; for (auto &t : dTrees()) if (t.L <= 2 && t.N <= 3) r.push_back(t); return r; }(); table(m, I, 'D', m.pick(ts), 1 + m.choose(2), A5(), true); }},
        {"d.tab.micro", "spatiotemporal tables, trees with <=2 leaves and n<=2, every cell in 3 exact qualities", false, [](Mc &m, Inst &I) { static vector<Tree> ts = [] { vector<Tree> r; for (auto &t : dTrees()) if (t.L <= 2 && t.N <= 3) r.push_back(t); return r; }(); table(m, I, 'D', m.pick(ts), 1 + m.choose(2), A3(), false); }},
        {"d.tab.3x2", "spatiotemporal tables, trees with 3 leaves, n=2, every block of >=2 cells in 3 exact qualities", false, [](Mc &m, Inst &I) { static vector<Tree> ts = [] { vector<Tree> r; for (auto &t : dTrees()) if (t.L == 3) r.push_back(t); return r; }(); table(m, I, 'D', m.pick(ts), 2, A3(), true); }},
        {"d.tab.2x3", "spatiotemporal tables, 2 leaves, n=3, every block of >=2 cells in 2 exact qualities", false, [](Mc &m, Inst &I) { static vector<Tree> ts = [] { vector<Tree> r; for (auto &t : dTrees()) if (t.L == 2 && t.N == 3) r.push_back(t); return r; }(); table(m, I, 'D', m.pick(ts), 3, A2(), true); }},
        {"d.tab.1xn", "spatiotemporal tables, one leaf, n<=4, every interval of >=2 cells in 4 exact qualities", false, [](Mc &m, Inst &I) { table(m, I, 'D', oneLeaf(), 1 + m.choose(4), A4(), true); }},
        {"d.cover", "spatiotemporal tables that make each exact cover of (trees with <=4 leaves) x (n<=3), (<=2 leaves) x (n=4) the best one", false, [](Mc &m, Inst &I) { int n = 1 + m.choose(4); static vector<Tree> s4 = [] { vector<Tree> r = dTrees(); add(r, ref::labelled(4, false, 3, {0, 3})); return r; }(); static vector<Tree> s2 = [] { vector<Tree> r; for (auto &t : dTrees()) if (t.L <= 2 || (t.L == 3 && t.N == 5)) r.push_back(t); return r; }(); I = blank('D', n == 4 ? m.pick(s2) : m.pick(s4), n); auto &c = ref::covers(I.t, n); coverTable(I, c[m.choose((int)c.size())]); }},
        {"d.formula", "spatiotemporal tables from formulas, trees with 4-5 leaves and large ones, n in {3,5,8,17}", false, [](Mc &m, Inst &I) { if (m.choose(2)) I = blank('D', m.pick(dTreesBig()), m.pick(vector<int>{3, 8, 12})); else I = blank('D', m.pick(dTreesMore()), m.pick(vector<int>{3, 5})); formulaTable(m, I, 3, 3, 3); }},
        {"d.large", "spatiotemporal formula tables, 2 leaves x 70, 1 x 66, 70 x 3, 64 x 2, chain of 40 x 3, depth 34 x 2, 3 x 33", false, [](Mc &m, Inst &I) { largeD(m, I); formulaTable(m, I, 1, 2, 1); }},
        {"d.tab.neg", "spatiotemporal tables, trees with <=2 leaves, n<=2, every block of >=2 cells in 4 exact qualities with negative gains and losses", false, [](Mc &m, Inst &I) { static vector<Tree> ts = [] { vector<Tree> r; for (auto &t : dTrees()) if (t.L <= 2 && t.N <= 3) r.push_back(t); return r; }(); table(m, I, 'D', m.pick(ts), 1 + m.choose(2), AN(), true); }},
        {"d.tab.close", "spatiotemporal tables, trees with <=2 leaves, n<=2, alternatives that differ by one part in 2^35", false, [](Mc &m, Inst &I) { static vector<Tree> ts = [] { vector<Tree> r; for (auto &t : dTrees()) if (t.L <= 2 && t.N <= 3) r.push_back(t); return r; }(); I = blank('D', m.pick(ts), 1 + m.choose(2)); closeTable(m, I, 2); }},
        {"d.tab.skew", "spatiotemporal tables, trees with <=2 leaves, n<=2, every block of >=2 cells in 3 exact qualities, and of formulas on trees with 4-5 leaves, n=3, with losses or gains divided by 2^22", false, [](Mc &m, Inst &I) { static vector<Tree> ts = [] { vector<Tree> r; for (auto &t : dTrees()) if (t.L <= 2 && t.N <= 3) r.push_back(t); return r; }(); if (m.choose(2)) table(m, I, 'D', m.pick(ts), 1 + m.choose(2), A3(), true); else { I = blank('D', m.pick(dTreesMore()), 3); formulaTable(m, I, 2, 2, 2); } skew(m, I); }},
        {"d.tab.2x3+", "spatiotemporal tables, 2 leaves, n=3, every block of >=2 cells in 3 exact qualities", true, [](Mc &m, Inst &I) { table(m, I, 'D', ref::label(ref::star(2), 0), 3, A3(), true); }},
        {"d.tab.2x2+", "spatiotemporal tables, 2 leaves, n=2, every cell in 4 exact qualities", true, [](Mc &m, Inst &I) { table(m, I, 'D', ref::label(ref::star(2), 0), 2, A4(), false); }},
        {"d.tab.3x2+", "spatiotemporal tables, star of 3 leaves, n=2, every block of >=2 cells in 6 exact qualities", true, [](Mc &m, Inst &I) { table(m, I, 'D', ref::label(ref::star(3), 0), 2, A6(), true); }},
    };
}
inline Gens dData() {
    return {
        {"d.data.3x3", "spatiotemporal data, trees with <=3 leaves, n<=3, values in {0,1} and in {1,3}", false, [](Mc &m, Inst &I) { const Tree &t = m.pick(dTrees()); int n = 1 + m.choose(3); Alpha a = m.choose(2) ? Alpha{0, 1} : Alpha{1, 3}; data(m, I, 'D', t, n, 1, a); }},
        {"d.data.2x2", "spatiotemporal data, trees with <=2 leaves, n<=2, values in {0,1,2,5}", false, [](Mc &m, Inst &I) { static vector<Tree> ts = [] { vector<Tree> r; for (auto &t : dTrees()) if (t.L <= 2) r.push_back(t); return r; }(); data(m, I, 'D', m.pick(ts), 1 + m.choose(2), 1, {0, 1, 2, 5}); }},
        {"d.data.multi", "spatiotemporal data of 2 components, trees with <=2 leaves, n<=2, values in {0,1,4}", false, [](Mc &m, Inst &I) { static vector<Tree> ts = [] { vector<Tree> r; for (auto &t : dTrees()) if (t.L <= 2 && t.N <= 3) r.push_back(t); return r; }(); data(m, I, 'D', m.pick(ts), 1 + m.choose(2), 2, {0, 1, 4}); }},
        {"d.data.extreme", "spatiotemporal data, 2 leaves, n=2, 6 magnitudes from 0 and 1e-300 to 1e200", false, [](Mc &m, Inst &I) { data(m, I, 'D', ref::label(ref::star(2), m.choose(2)), 2, 1, extreme()); }},
        {"d.data.block", "spatiotemporal data: one rectangle and one spike on a background, trees with 4-5 leaves, n=4", false, [](Mc &m, Inst &I) { static vector<Tree> few = {ref::label("((()())(()()))", 0), ref::label("((()())(()()))", 3), ref::label("(((()())())(()()))", 4)}; bool spike = m.choose(2); I = blank('D', m.pick(spike ? few : dTreesMore()), 4); blockValues(m, I, 1, {1, 2.5}, spike); }},
        {"d.data.wave", "spatiotemporal periodic data, trees with 4-5 leaves and large ones, n in {3,6,17}", false, [](Mc &m, Inst &I) { if (m.choose(2)) I = blank('D', m.pick(dTreesBig()), m.pick(vector<int>{3, 6, 17})); else I = blank('D', m.pick(dTreesMore()), m.pick(vector<int>{3, 6})); waveValues(m, I, 1 + m.choose(2), 3, 3); }},
        {"d.data.near", "spatiotemporal data, trees with <=2 leaves, n=2, values in {1,1.00001,1.001}", false, [](Mc &m, Inst &I) { static vector<Tree> ts = [] { vector<Tree> r; for (auto &t : dTrees()) if (t.L <= 2) r.push_back(t); return r; }(); data(m, I, 'D', m.pick(ts), 2, 1, Alpha{1, 1.00001, 1.001}); }},
        {"d.data.comps", "spatiotemporal periodic data of 5, 9, 17, 40, 260 and 1030 components, trees with <=3 leaves, n=2", false, [](Mc &m, Inst &I) { int K = m.pick(vector<int>{5, 9, 17, 40, 260, 1030}); I = blank('D', m.pick(dTrees()), 2); waveValues(m, I, K, 1, 3); }},
        {"d.data.large", "spatiotemporal periodic data, 2 leaves x 70, 1 x 66, 70 x 3, 64 x 2, chain of 40 x 3, depth 34 x 2, 3 x 33", false, [](Mc &m, Inst &I) { largeD(m, I); waveValues(m, I, 1, 1, 2); }},
        {"d.data.2x4+", "spatiotemporal data, 2-leaf trees, n=4 and 3-leaf trees, n=4, values in {0,1}", true, [](Mc &m, Inst &I) { data(m, I, 'D', m.pick(dTrees()), 4, 1, {0, 1}); }},
        {"d.data.4x3+", "spatiotemporal data, 4-leaf trees, n=3, values in {1,3}", true, [](Mc &m, Inst &I) { static vector<Tree> ts = ref::labelled(4, false, 3, {0, 3}); data(m, I, 'D', m.pick(ts), 3, 1, {1, 3}); }},
    };
}
// sizes well beyond the others, with few tables each
inline const vector<Tree> &hugeTrees() { static vector<Tree> r = [] { vector<Tree> r; r.push_back(ref::label(ref::star(1030), 0)); r.push_back(ref::label(ref::binary(9), 3)); r.push_back(ref::label(ref::caterpillar(300, true), 0)); r.push_back(ref::label(ref::chain(600), 1)); string g, q; for (int i = 0; i < 45; i++) g += ref::star(i % 13 + 1); r.push_back(ref::label("(" + g + ")", 4)); for (int i = 0; i < 40; i++) q += "(" + ref::star(i % 7 + 1) + ref::caterpillar(i % 5 + 1, i % 2) + ")"; r.push_back(ref::label("(" + q + "())", 5)); return r; }(); return r; }
inline void hugeD(Mc &m, Inst &I) { struct X { Tree t; int n; }; static vector<X> x = {{oneLeaf(), 260}, {ref::label(ref::star(2), 0), 130}, {ref::label(ref::star(260), 1), 2}, {ref::label(ref::star(18), 1), 18}, {ref::label(ref::star(520), 0), 1}, {ref::label(ref::chain(130), 0), 2}}; auto &c = m.pick(x); I = blank('D', c.t, c.n); }
inline void hugeOf(Mc &m, Inst &I, char k) { if (k == 'O') I = blank('O', oneLeaf(), m.pick(vector<int>{511, 512, 513})); else if (k == 'H') I = blank('H', m.pick(hugeTrees()), 1); else hugeD(m, I); }
inline Gens huge(char k) {
    string n(1, (char)tolower(k)), w = k == 'O' ? "n in {511,512,513}" : k == 'H' ? "trees of 500-1050 nodes (star of 1030, binary of 512 leaves, depth 300 and 600, groups)" : "1 leaf x 260, 2 x 130, 260 x 2, 18 x 18, 520 x 1, chain of 130 x 2";
    return {{n + ".huge", "formula tables, " + w, false, [k](Mc &m, Inst &I) { hugeOf(m, I, k); formulaTable(m, I, 1, 2, 1); }},
            {n + ".data.huge", "periodic data, " + w, false, [k](Mc &m, Inst &I) { hugeOf(m, I, k); waveValues(m, I, 1, 1, k == 'H' ? 2 : 1); }}};
}
// a long interval, or a wide node on it, between two others, as the best partition
inline Gens longBlocks(char k) {
    string n(1, (char)tolower(k)), w = k == 'O' ? "n in {260,520,1030}" : k == 'H' ? "trees of 500-1050 nodes, each node in turn of 12" : "1 leaf x 260, 3 x 70";
    return {{n + ".block", "tables that make a long block between two others the best one, " + w, false, [k](Mc &m, Inst &I) {
        if (k == 'H') {
            I = blank('H', m.pick(hugeTrees()), 1); I.alloc(); int N = I.t.N, c = m.choose(12), h = c < 6 ? N - 1 - c : (N - 1) * (c - 5) / 7;
            for (int x = 0; x < N; x++) { int y = h, z = x; while (y >= 0 && y != x) y = I.t.par[y]; while (z >= 0 && z != h) z = I.t.par[z]; int s = I.t.size(x); if (!I.t.kids[x].empty()) I.tab[x][0][0] = x == h ? Q(s, 0) : y >= 0 ? Q(0, 3 * s) : z >= 0 ? Q(0, s) : Q(s, 0); }
            return;
        }
        int len, s, e; if (k == 'O') { len = m.pick(vector<int>{260, 520, 1030}); I = blank('O', oneLeaf(), len); s = m.pick(vector<int>{0, 1, 2, 3, 128, 255}); e = len - m.pick(vector<int>{0, 1, 2, 5, 130}); }
        else { bool one = m.choose(2); I = blank('D', one ? oneLeaf() : ref::label(ref::star(3), 1), len = one ? 260 : 70); s = m.pick(vector<int>{0, 1, 3}); e = len - m.pick(vector<int>{0, 1, 3}); }
        I.alloc(); for (int h = 0; h < I.t.N; h++) for (int i = 0; i < len; i++) for (int j = i; j < len; j++) { int z = I.t.size(h) * (j - i + 1); if (z > 1) I.tab[h][i][j] = h == I.t.root && ((i == 0 && j == s - 1) || (i == s && j == e - 1) || (i == e && j == len - 1)) ? Q(z, 0) : Q(0, 2 * z); }
    }}};
}
inline Gens hugeAll(string part = "") { Gens r; for (char k : {'O', 'H', 'D'}) for (auto &x : huge(k)) if (part.empty() || x.name.find(part) != string::npos) r.push_back(x); return r; }
inline Gens tables(char k) { return k == 'O' ? oTables() : k == 'H' ? hTables() : dTables(); }
inline Gens datas(char k) { return k == 'O' ? oData() : k == 'H' ? hData() : dData(); }
inline Gens both(char k) { Gens a = tables(k), b = datas(k); a.insert(a.end(), b.begin(), b.end()); return a; }
inline Gens all() { Gens r; for (char k : {'O', 'H', 'D'}) { Gens a = both(k); r.insert(r.end(), a.begin(), a.end()); } return r; }
inline Gens allData() { Gens r; for (char k : {'O', 'H', 'D'}) { Gens a = datas(k); r.insert(r.end(), a.begin(), a.end()); } return r; }
inline Gens allTables() { Gens r; for (char k : {'O', 'H', 'D'}) { Gens a = tables(k); r.insert(r.end(), a.begin(), a.end()); } return r; }
// keep the families whose names start with one of the given prefixes (exact match with a trailing '=')
inline Gens keep(const Gens &g, vector<string> names) { Gens r; for (auto &n : names) for (auto &x : g) if (x.name == n) r.push_back(x); return r; }

typedef std::function<void(Mc &, Inst &)> Body;
// decide: drawn instance -> check; extra decisions before mine() may be drawn in `pre`
inline vector<Space> spaces(const Gens &g, Body body, std::function<void(Mc &)> pre = nullptr) {
    vector<Space> r;
    for (auto &x : g) r.push_back(Space{x.name, x.bound, x.thorough, [x, body, pre](Mc &m) {
        Inst I; x.draw(m, I); if (pre) pre(m);
        m.mine();
        if (!I.vals.empty()) I.fromValues();
        m.sample(I.str());
        try { body(m, I); } catch (mc::Violation &v) { throw mc::Violation(string(v.what()) + "\n    on " + I.str().substr(0, 1500)); }
    }});
    return r;
}

// ---- oracles ------------------------------------------------------------------------------------
inline bool exactP(float p) { return (ld)(float)(1 - p) == 1 - (ld)p; }
// tolerance on the trade-off of a partition at p (0: must agree exactly); loss: the losses summed of the partitions compared, as
// a 1-p that is rounded to a float changes p*gain-(1-p)*loss by at most 2^-25*loss
inline ld tolAt(const Inst &I, float p, ld loss) { return tol(I) + (exactP(p) ? 0 : std::fabs(loss) * 6e-8L); }
inline Q totals(const Inst &I, const Res &r) { Q q; for (auto &x : r.parts) { q.g += I.tab[x.h][x.s][x.e].g; q.l += I.tab[x.h][x.s][x.e].l; } return q; }
inline void checkCover(Mc &m, const Inst &I, const Res &r) { string e = ref::coverError(I, r.parts); m.check(e.empty(), [&] { return "not an exact cover: " + e + " in " + str(r); }); }
// value recomputed from the reference table for the returned parts
inline void checkOptimal(Mc &m, const Inst &I, const Res &r, float p, const ref::Best &b) {
    checkCover(m, I, r);
    Q q = totals(I, r); ld v = ref::pic(q, p), t = tolAt(I, p, std::fabs(q.l) + std::fabs(b.l));
    if (t) t += 1e-16L * (std::fabs(q.g) * p + std::fabs(b.g) * p + std::fabs(q.l) + std::fabs(b.l));     // rounding
    m.check(v >= b.v - t, [&] { return "not optimal at p=" + num(p) + ": trade-off " + num(v) + " of " + str(r) + ", but " + num(b.v) + " is reachable (gain " + num(b.g) + ", loss " + num(b.l) + ")"; });
}
} // namespace gen
namespace gen {
inline bool near(ld a, ld b, ld rel, ld abs = 0) { return a == b || std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b)); }
inline bool fin(ld a) { return std::isfinite((double)a) || (std::isfinite(a)); }
// parts tell the truth about themselves, relative to the library's own quality table
inline void checkTruth(Mc &m, const Inst &I, Pipe &P, const Res &r, float p) {
    checkCover(m, I, r);
    m.check(r.p == p, [&] { return "parameter " + num(r.p) + " reported for a partition computed at " + num(p); });
    ld g = 0, l = 0, ag = 0, al = 0;
    for (auto &x : r.parts) {
        int w = I.t.size(x.h), sz = I.kind == 'O' ? x.e - x.s + 1 : I.kind == 'H' ? w : w * (x.e - x.s + 1);
        m.check(x.size == sz && (I.kind == 'O' || x.hs == w) && (x.os < 0 || x.os == x.e - x.s + 1), [&] { return "part [node " + std::to_string(x.h) + " " + std::to_string(x.s) + "-" + std::to_string(x.e) + "] reports size " + std::to_string(x.size) + " (leaves " + std::to_string(x.hs) + "), true size " + std::to_string(sz) + " in " + str(r); });
        Q q = P.quality(x.h, x.s, x.e);
        m.check(near(q.g, x.g, 1e-12L) && near(q.l, x.l, 1e-12L), [&] { return "part [node " + std::to_string(x.h) + " " + std::to_string(x.s) + "-" + std::to_string(x.e) + "] reports gain " + num(x.g) + " loss " + num(x.l) + ", its aggregate has gain " + num(q.g) + " loss " + num(q.l); });
        g += q.g; l += q.l; ag += std::fabs(q.g); al += std::fabs(q.l);
    }
    m.check(near(g, r.g, 0, 1e-12L * ag) && near(l, r.l, 0, 1e-12L * al), [&] { return "partition reports gain " + num(r.g) + " loss " + num(r.l) + ", its parts sum to gain " + num(g) + " loss " + num(l); });
}
// smaller members of the expensive spatiotemporal families, for checks that do much per instance
inline Gens dSlim() {
    return {
        {"d.formula.s", "spatiotemporal formula tables, trees with 4-5 leaves and large ones, n in {3,4}", false, [](Mc &m, Inst &I) { bool big = m.choose(2); I = blank('D', m.pick(big ? dTreesBig() : dTreesMore()), big ? 4 : 3); formulaTable(m, I, 2, 2, big ? 2 : 1); }},
        {"d.wave.s", "spatiotemporal periodic data, trees with 4-5 leaves (n=3) and large ones (n=5), 1-2 components", false, [](Mc &m, Inst &I) { bool big = m.choose(2); I = blank('D', m.pick(big ? dTreesBig() : dTreesMore()), big ? 5 : 3); waveValues(m, I, 1 + m.choose(2), 1, big ? 3 : 1); }},
    };
}
inline Gens thorough(Gens g) { for (auto &x : g) x.thorough = true; return g; }
} // namespace gen
