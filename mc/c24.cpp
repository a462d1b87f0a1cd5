// C24: raising p never loses gain, p=0 is lossless, p=1 gains all.
#include "gens.h"
using namespace gen;
static bool norm, fine;
static void body(Mc &m, Inst &I) {
    auto P = ready(I, norm); m.op(3); bool data = !I.exact(); ld mag = data ? I.mag : 0; Inst J = I;
    if (norm) { Q w = I.tab[I.t.root][0][I.n - 1]; if (w.l > 0 && w.l < 1e-9L * I.mag) return; J.normalize(); mag = J.mag; }
    int D = fine ? 64 : 16; vector<float> ps; for (int i = 0; i <= D; i++) ps.push_back((float)i / D); ps.insert(ps.begin() + 1, 0x1p-14f); ps.insert(ps.end() - 1, 1 - 0x1p-14f); ld noise = 1e-13L * mag * (1 + I.t.N * I.n);
    ld pg = 0, pl = 0; u64 h = 1; Res first, last;
    for (size_t i = 0; i < ps.size(); i++) {
        float p = ps[i]; Res r = P->best(p); m.op(); ld t = noise * 4 / (i ? p - ps[i - 1] : 1) + (data ? 0 : 1e-15L * (std::fabs(r.g) + std::fabs(r.l)));
        if (i) {
            m.check(r.g >= pg - t, [&] { return "raising p from " + num(ps[i - 1]) + " to " + num(p) + " lowers the gain from " + num(pg) + " to " + num(r.g); });
            m.check(r.l >= pl - t, [&] { return "raising p from " + num(ps[i - 1]) + " to " + num(p) + " lowers the loss from " + num(pl) + " to " + num(r.l); });
        }
        pg = r.g; pl = r.l; if (!i) first = r; last = r; h = mc::mix(h, hashRes(r)); m.state(h);
    }
    if (data) {
        // p=0: lossless, with the largest lossless gain; a block is lossless when it is homogeneous
        Inst Z = J; for (int x = 0; x < I.t.N; x++) for (int i = 0; i < I.n; i++) for (int j = i; j < I.n; j++) {
            bool same = true; for (size_t k = 0; k < I.vals.size(); k++) { auto c = I.cells((int)k, x, i, j); for (double y : c) same = same && y == c[0]; }
            if (same) Z.tab[x][i][j].l = 0; else if (!(Z.tab[x][i][j].l > 0)) throw std::logic_error("a block of different values without loss in the reference");
        }
        ref::Best b = ref::optimum(Z, 0);
        m.check(std::fabs(first.l) <= noise, [&] { return "at p=0 the best partition loses " + num(first.l) + ": " + str(first); });
        m.check(first.g >= b.g - noise * 10, [&] { return "at p=0 the best partition gains " + num(first.g) + ", but " + num(b.g) + " is possible without loss: " + str(first); });
        // p=1: the gain of the whole, with the least loss
        ld G = J.tab[I.t.root][0][I.n - 1].g;
        m.check(std::fabs(last.g - G) <= noise * 10, [&] { return "at p=1 the best partition gains " + num(last.g) + " instead of " + num(G) + " like the complete aggregate: " + str(last); });
        // reachable with the computed qualities themselves, where equal gains may differ by rounding
        Inst O = J; for (int x = 0; x < I.t.N; x++) for (int i = 0; i < I.n; i++) for (int j = i; j < I.n; j++) O.tab[x][i][j] = P->quality(x, i, j);
        ref::Best e = ref::optimum(O, 1);
        m.check(last.l <= e.l + noise * 10, [&] { return "at p=1 the best partition loses " + num(last.l) + ", but its gain is possible with loss " + num(e.l) + ": " + str(last); });
    } else {
        ref::Best b = ref::optimum(I, 0), e = ref::optimum(I, 1);
        m.check(first.l == b.l && first.g == b.g, [&] { return "at p=0 the best partition has gain " + num(first.g) + " loss " + num(first.l) + ", gain " + num(b.g) + " loss " + num(b.l) + " is reachable: " + str(first); });
        m.check(last.g == e.g && last.l == e.l, [&] { return "at p=1 the best partition has gain " + num(last.g) + " loss " + num(last.l) + ", gain " + num(e.g) + " loss " + num(e.l) + " is reachable: " + str(last); });
    }
    m.trace(); m.outcome(h);
}
int main(int c, char **v) {
    auto all_ = all();
    auto pre = [](Mc &m) { norm = false; fine = false; };
    auto preN = [](Mc &m) { norm = m.choose(2); fine = false; };
    auto s = spaces(keep(all_, {"o.data", "o.data.bin", "o.data.multi", "o.data.comps", "o.data.near", "o.data.wave", "h.data", "h.data.multi", "h.data.comps", "h.data.near", "h.data.shapes", "h.data.unary", "h.data.wave", "d.data.2x2", "d.data.multi", "d.data.comps", "d.data.near"}), body, preN);
    Gens k;
    k.push_back({"d.data.3x2", "spatiotemporal data, trees with <=3 leaves, n=2, values in {1,3} and {0,1}", false, [](Mc &m, Inst &I) { Alpha a = m.choose(2) ? Alpha{0, 1} : Alpha{1, 3}; data(m, I, 'D', m.pick(dTrees()), 2, 1, a); }});
    k.push_back({"d.data.3x3.s", "spatiotemporal data, star and unbalanced trees of 3 leaves, n=3, values in {0,1}", false, [](Mc &m, Inst &I) { static vector<Tree> ts = {ref::label(ref::star(3), 0), ref::label(ref::caterpillar(3, true), 0)}; data(m, I, 'D', m.pick(ts), 3, 1, {0, 1}); }});
    Gens kd = dSlim(); for (auto &x : kd) k.push_back(x);
    auto a = spaces(k, body, pre);
    auto b = spaces(keep(all_, {"o.tab.micro", "o.tab4", "o.tab5", "o.cover", "h.tab.all", "h.tab.inner", "h.tab.shapes", "h.tab.unary", "h.formula", "h.cover", "d.tab.2", "d.tab.2x3", "d.cover", "d.tab.1xn", "o.tab.close", "h.tab.close", "d.tab.close", "o.tab.neg", "h.tab.neg", "d.tab.neg", "o.large", "h.large", "d.large", "o.data.large", "h.data.large", "d.data.large"}), body, pre);
    Gens f; f.push_back({"o.formula.fine", "ordered formula tables, n in {8,16,33}, 65 parameters", false, [](Mc &m, Inst &I) { I = blank('O', oneLeaf(), m.pick(vector<int>{8, 16, 33})); formulaTable(m, I, 3, 3, 3); }});
    f.push_back({"h.data.block.fine", "hierarchical data, one range of leaves on a background, large trees, 65 parameters", false, [](Mc &m, Inst &I) { I = blank('H', m.pick(bigTrees()), 1); waveValues(m, I, 1, 2, 2); }});
    auto e = spaces(f, body, [](Mc &m) { norm = false; fine = true; });
    auto t = spaces(thorough(keep(all_, {"o.tab5+", "o.data+", "h.tab.shapes+", "h.tab.all+", "d.tab.2x3+", "d.formula", "d.data.wave", "d.data.3x3", "d.data.2x4+"})), body, pre);
    auto hg = spaces(hugeAll(), body, pre);
    for (auto *y : {&hg, &a, &b, &e, &t}) s.insert(s.end(), y->begin(), y->end());
    return mc::run(c, v, s);
}
