// C04: every partition is an exact cover and reports true part data, directly or from a sweep.
#include "gens.h"
using namespace gen;
static int norm;
static void body(Mc &m, Inst &I) {
    auto P = ready(I, norm); m.op(2 + norm);
    u64 h = 0;
    for (float p : {0.f, 0.25f, 0.3f, 0.5f, 0.75f, 1.f}) {
        Res r = P->best(p); m.op();
        checkTruth(m, I, *P, r, p);
        if (!norm) { Q q = totals(I, r); m.check(near(q.g, r.g, 1e-12L, tol(I)) && near(q.l, r.l, 1e-12L, tol(I)), [&] { return "quality of the partition " + str(r) + " is not that of the data: gain " + num(q.g) + " loss " + num(q.l); }); }
        m.state(hashRes(r)); h = mc::mix(h, hashRes(r));
    }
    for (int range = 0; range < 2; range++) {
        float a = range ? 0.2f : 0, b = range ? 0.8f : 1;
        P->sweep(0.05f, a, b); m.op();
        for (auto &x : P->partitions()) { checkTruth(m, I, *P, x.second, x.first); m.state(hashRes(x.second)); }
    }
    m.trace(); m.outcome(h);
}
// a single part of very many cells
static void giantBody(Mc &m, Inst &I) {
    auto P = ready(I); m.op(2); Res r = P->best(0.5f); m.op(); checkTruth(m, I, *P, r, 0.5f); m.state(hashRes(r)); m.trace();
    m.check(r.parts.size() == 1, [&] { return "equal values are not aggregated: " + std::to_string(r.parts.size()) + " parts"; });
}
int main(int c, char **v) {
    auto s = spaces(keep(all(), {"o.tab.micro", "o.tab4", "o.tab6", "o.cover", "o.formula", "o.large", "h.large", "d.large", "h.tab.all", "h.tab.inner", "h.tab.shapes", "h.tab.unary", "h.cover", "h.formula", "d.tab.2", "d.tab.3x2", "d.tab.2x3", "d.tab.1xn", "d.cover", "o.tab.neg", "h.tab.neg", "d.tab.neg", "o.tab.close", "h.tab.close", "o.tab5+", "h.tab.shapes+", "h.tab.all+", "d.tab.2x3+"}), body, [](Mc &m) { norm = 0; });
    auto d = spaces(allData(), body, [](Mc &m) { norm = m.choose(2); });
    s.insert(s.end(), d.begin(), d.end());
    for (auto &x : spaces(hugeAll(), body, [](Mc &m) { norm = 0; })) s.push_back(x);
    auto g = spaces(giants(), giantBody); s.insert(s.end(), g.begin(), g.end());
    return mc::run(c, v, s);
}
