// C22: spatiotemporal aggregation reduces to its one-dimensional cases.
#include "gens.h"
using namespace gen;
static void same(Mc &m, const Inst &D, const Inst &X, Pipe &d, Pipe &x, ld qt, const vector<float> &ps, const string &other, std::function<Q(int, int, int)> xq) {
    for (int h = 0; h < D.t.N; h++) for (int i = 0; i < D.n; i++) for (int j = i; j < D.n; j++) {
        Q a = d.quality(h, i, j), b = xq(h, i, j);
        m.check(near(a.g, b.g, 1e-12L, qt) && near(a.l, b.l, 1e-12L, qt), [&] { return "the block [node " + std::to_string(h) + " " + std::to_string(i) + "-" + std::to_string(j) + "] has gain " + num(a.g) + " loss " + num(a.l) + ", the " + other + " aggregate has " + num(b.g) + " / " + num(b.l); });
    }
    u64 hh = 1;
    for (float p : ps) {
        Res a = d.best(p), b = x.best(p); m.op(2); ld va = ref::pic(Q(a.g, a.l), p), vb = ref::pic(Q(b.g, b.l), p), t = std::max(tolAt(D, p, std::fabs(a.l) + std::fabs(b.l)), tolAt(X, p, std::fabs(a.l) + std::fabs(b.l))) + 1e-15L * (std::fabs(va) + std::fabs(vb));
        m.check(std::fabs(va - vb) <= t, [&] { return "best trade-off at p=" + num(p) + ": " + num(va) + " spatiotemporal (" + str(a) + "), " + num(vb) + " " + other + " (" + str(b) + ")"; });
        hh = mc::mix(hh, hashRes(a)); m.state(mc::mix(hh, 1 + (u64)(p * 1000)));
    }
    m.trace(); m.outcome(hh);
}
static const vector<float> &ps() { static vector<float> v = {0, 0.125f, 0.25f, 0.375f, 0.5f, 0.625f, 0.75f, 0.875f, 1, 0x1p-14f, 1 - 0x1p-14f}; return v; }
static void chain(Mc &m, Inst &O, const Tree &t) {           // O over a chain on a single leaf
    Inst D = blank('D', t, O.n);
    if (O.vals.empty()) { D.alloc(); for (auto &x : D.tab) x = O.tab[0]; } else { D.vals = O.vals; D.fromValues(); }
    auto d = ready(D), o = ready(O); m.op(4);
    same(m, D, O, *d, *o, O.exact() ? 0 : 1e-12L * O.mag, ps(), "ordered", [&](int, int i, int j) { return o->quality(0, i, j); });
}
static void slice(Mc &m, Inst &H) {
    Inst D = H; D.kind = 'D'; auto d = ready(D), x = ready(H); m.op(4);
    same(m, D, H, *d, *x, H.exact() ? 0 : 1e-12L * H.mag, ps(), "hierarchical", [&](int h, int, int) { return x->quality(h, 0, 0); });
}
static void star(Mc &m, Inst &O) {                            // the same values as a sequence and as leaves of any tree
    auto o = ready(O); Q a = o->quality(0, 0, O.n - 1); ld t = 1e-12L * O.mag; m.op(2);
    for (int md : {0, 1}) {
        Inst H = blank('H', ref::label(ref::star(O.n), md), 1); H.vals.assign(O.vals.size(), vector<vector<double>>(O.n, vector<double>(1)));
        for (size_t k = 0; k < O.vals.size(); k++) for (int i = 0; i < O.n; i++) H.vals[k][i][0] = O.vals[k][0][i];
        H.fromValues(); auto h = ready(H); m.op(2); Q b = h->quality(H.t.root, 0, 0);
        m.check(near(a.g, b.g, 1e-12L, t) && near(a.l, b.l, 1e-12L, t), [&] { return "complete aggregate: gain " + num(a.g) + " loss " + num(a.l) + " as a sequence, " + num(b.g) + " / " + num(b.l) + " as leaves of one node"; });
        // and as a one-slice spatiotemporal cube
        Inst D = H; D.kind = 'D'; auto d = ready(D); m.op(2); Q e = d->quality(D.t.root, 0, 0);
        m.check(near(a.g, e.g, 1e-12L, t) && near(a.l, e.l, 1e-12L, t), [&] { return "complete aggregate: gain " + num(a.g) + " loss " + num(a.l) + " as a sequence, " + num(e.g) + " / " + num(e.l) + " as a slice"; });
    }
    m.state(1 + O.n); m.trace();
}
int main(int c, char **v) {
    static const vector<Tree> ch = [] { vector<Tree> r; for (int i = 0; i <= 4; i++) for (int md : {0, 1}) add(r, {ref::label(ref::chain(i), md)}); return r; }();
    static Tree T; auto pre = [](Mc &m) { T = m.pick(ch); };
    auto all_ = all(); vector<Space> s;
    for (auto &x : spaces(keep(all_, {"o.tab.micro", "o.tab4", "o.cover", "o.data", "o.data.bin", "o.data.multi", "o.data.comps", "o.data.near", "o.data.extreme", "o.data+"}), [](Mc &m, Inst &I) { chain(m, I, T); }, pre)) { s.push_back(x); s.back().name = "chain." + x.name; s.back().bound += ", over chains of 0-4 nodes, 2 numberings"; }
    Gens f = keep(all_, {"o.tab5"}); f.push_back({"o.large.s", "ordered formula tables, n in {65,100,129}", false, [](Mc &m, Inst &I) { I = blank('O', oneLeaf(), m.pick(vector<int>{65, 100, 129})); formulaTable(m, I, 1, 2, 1); }}); f.push_back({"o.data.large.s", "ordered periodic data, n in {65,129}", false, [](Mc &m, Inst &I) { I = blank('O', oneLeaf(), m.pick(vector<int>{65, 129})); waveValues(m, I, 1, 1, 2); }}); f.push_back({"o.formula.s", "ordered formula tables, n in {8,17,24}", false, [](Mc &m, Inst &I) { I = blank('O', oneLeaf(), m.pick(vector<int>{8, 17, 24})); formulaTable(m, I, 3, 3, 3); }}); f.push_back({"o.wave.s", "ordered periodic data, n in {12,24}", false, [](Mc &m, Inst &I) { I = blank('O', oneLeaf(), m.pick(vector<int>{12, 24})); waveValues(m, I, 1 + m.choose(3), 3, 4); }});
    static const vector<Tree> c2 = {oneLeaf(), ref::label(ref::chain(2), 1)};
    for (auto &x : spaces(f, [](Mc &m, Inst &I) { chain(m, I, T); }, [](Mc &m) { T = m.pick(c2); })) { s.push_back(x); s.back().name = "chain." + x.name; s.back().bound += ", over chains of 0 and 2 nodes"; }
    for (auto &x : spaces(keep(all_, {"h.tab.all", "h.tab.inner", "h.tab.shapes", "h.tab.unary", "h.cover", "h.formula", "h.data", "h.data.multi", "h.data.comps", "h.data.near", "h.data.shapes", "h.data.unary", "h.data.extreme", "h.data.wave", "h.large", "h.data.large", "h.tab.shapes+"}), slice)) { s.push_back(x); s.back().name = "slice." + x.name; }
    for (auto &x : spaces(keep(all_, {"o.data", "o.data.bin", "o.data.multi", "o.data.comps", "o.data.near", "o.data.extreme", "o.data.wave", "o.data.block", "o.data+"}), star)) { s.push_back(x); s.back().name = "star." + x.name; }
    for (auto &x : spaces(huge('H'), slice)) { s.push_back(x); s.back().name = "slice." + x.name; }
    return mc::run(c, v, s);
}
