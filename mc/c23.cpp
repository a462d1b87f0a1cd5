// C23: results respect the symmetries of the data.
#include "gens.h"
using namespace gen;
static const vector<float> &ps() { static vector<float> v = {0, 0.25f, 0.5f, 0.75f, 1, 0x1p-14f, 1 - 0x1p-14f}; return v; }
static int op, arg; static bool norm;
static const vector<double> scales = {0.125, 3, 1e6, 1e-9, 1e15};
// node permutation number x: leaves and inner nodes permuted separately
static vector<int> perm(const Tree &t, int x) {
    vector<int> a(t.L), b(t.N - t.L); for (int i = 0; i < t.L; i++) a[i] = i; for (int i = 0; i < t.N - t.L; i++) b[i] = t.L + i;
    if (x & 1) std::reverse(a.begin(), a.end()); if (x & 2) std::reverse(b.begin(), b.end());
    if (x & 4 && t.L > 1) std::rotate(a.begin(), a.begin() + 1, a.end()); if (x & 8 && b.size() > 1) std::rotate(b.begin(), b.begin() + 1, b.end());
    a.insert(a.end(), b.begin(), b.end()); return a;
}
static Tree permuted(const Tree &t, const vector<int> &f) { vector<int> p(t.N); for (int v = 0; v < t.N; v++) p[f[v]] = t.par[v] < 0 ? -1 : f[t.par[v]]; Tree r; if (!r.build(p, t.L)) std::abort(); return r; }
static const char *opn[] = {"reversing the sequence", "permuting the components", "renumbering the nodes", "multiplying all values", "adding a component of zeros"};
static void body(Mc &m, Inst &I) {
    Inst J = I; vector<int> f(I.t.N); for (int v = 0; v < I.t.N; v++) f[v] = v; bool mirror = false; ld c = 1;
    bool table = I.vals.empty();
    if (op == 0) { mirror = true; for (auto &k : J.vals) for (auto &a : k) std::reverse(a.begin(), a.end()); if (table) for (int h = 0; h < I.t.N; h++) for (int i = 0; i < I.n; i++) for (int j = i; j < I.n; j++) J.tab[h][I.n - 1 - j][I.n - 1 - i] = I.tab[h][i][j]; }
    else if (op == 1) { if (arg == 0) std::reverse(J.vals.begin(), J.vals.end()); else std::rotate(J.vals.begin(), J.vals.begin() + 1, J.vals.end()); }
    else if (op == 2) { f = perm(I.t, arg); J.t = permuted(I.t, f); for (size_t k = 0; k < I.vals.size(); k++) for (int a = 0; a < I.t.L; a++) J.vals[k][f[a]] = I.vals[k][a]; if (table) for (int h = 0; h < I.t.N; h++) J.tab[f[h]] = I.tab[h]; }
    else if (op == 3) { c = scales[arg]; for (auto &k : J.vals) for (auto &a : k) for (auto &x : a) x *= scales[arg]; if (table) for (auto &a : J.tab) for (auto &b : a) for (auto &x : b) { x.g *= c; x.l *= c; } }
    else { J.vals.insert(arg ? J.vals.begin() : J.vals.end(), vector<vector<double>>(I.t.L, vector<double>(I.n, 0.0))); }
    if (!table) J.fromValues();
    auto A = ready(I, norm), B = ready(J, norm); m.op(4 + 2 * norm);
    // normalised qualities are scale free: no factor is expected
    ld k = norm ? 1 : c, mag = table ? 0 : std::max(I.mag * k, J.mag); bool deg = false;
    if (norm && !table) {
        Q w = I.tab[I.t.root][0][I.n - 1]; ld g = w.g > 1e-9L * I.mag ? w.g : 1, l = w.l > 1e-9L * I.mag ? w.l : 1;
        deg = (w.l > 0 && w.l <= 1e-9L * I.mag);     // nearly homogeneous: the ratio is dominated by rounding
        if (deg) return;
        mag = std::max(I.mag / g + I.mag / l, J.mag / c / g + J.mag / c / l) + 1;
    }
    ld t = 1e-12L * mag;
    for (int h = 0; h < I.t.N; h++) for (int i = 0; i < I.n; i++) for (int j = i; j < I.n; j++) {
        Q a = A->quality(h, i, j), b = mirror ? B->quality(f[h], I.n - 1 - j, I.n - 1 - i) : B->quality(f[h], i, j);
        m.check(near(a.g * k, b.g, 1e-12L, t) && near(a.l * k, b.l, 1e-12L, t), [&] { return string(opn[op]) + " (" + std::to_string(arg) + ") turns gain " + num(a.g) + " loss " + num(a.l) + " of [node " + std::to_string(h) + " " + std::to_string(i) + "-" + std::to_string(j) + "] into " + num(b.g) + " / " + num(b.l); });
    }
    u64 hh = 1;
    for (float p : ps()) {
        Res a = A->best(p), b = B->best(p); m.op(2); ld va = ref::pic(Q(a.g, a.l), p), vb = ref::pic(Q(b.g, b.l), p);
        ld tt = t * (1 + I.t.N * I.n) + 1e-12L * (std::fabs(va * k) + std::fabs(vb)) + (1e-15L) * (std::fabs(a.g) + std::fabs(a.l)) * k;
        m.check(std::fabs(va * k - vb) <= tt, [&] { return string(opn[op]) + " (" + std::to_string(arg) + ") turns the best trade-off at p=" + num(p) + " from " + num(va) + " into " + num(vb) + ": " + str(a) + " / " + str(b); });
        hh = mc::mix(hh, hashRes(a)); m.state(mc::mix(hh, hashRes(b)));
    }
    m.trace(); m.outcome(hh);
}
int main(int c, char **v) {
    auto all_ = all(); vector<Space> s;
    // reject (operation, instance) pairs that do not apply before they count as executions
    auto addAll = [&](const Gens &gs, vector<int> ops, bool withNorm, bool fewArgs) {
        for (auto &g : gs) {
            Gen x = g; x.bound += ", x symmetries"; string suffix = withNorm ? ", raw and normalised" : "";
            x.bound += suffix;
            s.push_back(spaces({x}, body, [=](Mc &m) {
                norm = withNorm ? m.choose(2) : 0; op = ops[m.choose((int)ops.size())];
                if (op == 2) arg = fewArgs ? (m.choose(2) ? 3 : 13) : 1 + m.choose(15); else if (op == 3) arg = m.choose((int)scales.size()); else arg = op == 0 ? 0 : m.choose(2);
            })[0]);
        }
    };
    addAll(keep(all_, {"o.data", "o.data.bin"}), {0, 3, 4}, true, false);
    addAll(keep(all_, {"o.data.multi", "o.data.comps", "o.data.near", "o.data.wave"}), {0, 1, 3, 4}, true, false);
    addAll(keep(all_, {"h.data", "h.data.shapes", "h.data.unary"}), {2, 3, 4}, true, true);
    addAll(keep(all_, {"h.data.multi", "h.data.comps", "h.data.near", "h.data.wave"}), {1, 2, 3, 4}, true, true);
    addAll(keep(all_, {"d.data.2x2", "d.data.multi", "d.data.comps", "d.data.near"}), {0, 1, 2, 3, 4}, true, false);
    Gens d = dSlim(); d.erase(d.begin()); addAll(d, {0, 1, 2, 3, 4}, true, true);
    Gens k;
    k.push_back({"d.data.3x2", "spatiotemporal data, trees with <=3 leaves, n=2, values in {1,3}", false, [](Mc &m, Inst &I) { data(m, I, 'D', m.pick(dTrees()), 2, 1, {1, 3}); }});
    k.push_back({"d.data.3x3.s", "spatiotemporal data, star and unbalanced trees of 3 leaves, n=3, values in {0,1}", false, [](Mc &m, Inst &I) { static vector<Tree> ts = {ref::label(ref::star(3), 0), ref::label(ref::caterpillar(3, true), 0)}; data(m, I, 'D', m.pick(ts), 3, 1, {0, 1}); }});
    addAll(k, {0, 2, 3}, true, true);
    addAll(keep(all_, {"o.tab4"}), {0}, false, true); addAll(keep(all_, {"o.tab.micro", "o.cover"}), {0, 3}, false, true);
    addAll(keep(all_, {"h.tab.inner", "h.tab.shapes", "h.cover"}), {2}, false, true);
    addAll(keep(all_, {"d.tab.2", "d.tab.2x3", "d.cover"}), {0, 2}, false, true);
    addAll(keep(all_, {"o.data.large"}), {0, 3}, true, true); addAll(keep(all_, {"h.data.large"}), {2}, true, true); addAll(keep(all_, {"d.data.large"}), {0, 2}, true, true);
    addAll(keep(all_, {"o.large"}), {0}, false, true); addAll(keep(all_, {"h.large"}), {2}, false, true); addAll(keep(all_, {"d.large"}), {0, 2}, false, true);
    addAll({huge('O')[1]}, {0}, true, true); addAll({huge('H')[1]}, {2}, true, true); addAll({huge('D')[1]}, {0, 2}, true, true);
    Gens th = thorough(keep(all_, {"o.data+", "d.data.3x3", "d.data.block", "d.data.2x4+", "d.formula"})); addAll(th, {0, 2, 3}, false, true);
    return mc::run(c, v, s);
}
