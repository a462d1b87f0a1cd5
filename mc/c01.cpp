// C01/C02/C03: the partition returned as best is optimal. -DKIND selects the kind.
#include "gens.h"
using namespace gen;
#ifndef KIND
#define KIND 'O'
#endif
static void body(Mc &m, Inst &I) {
    auto P = ready(I); m.op(2);
    vector<float> ps = pgrid(8);
    if (!I.exact()) ps = {0, 0.0625f, 0.125f, 0.25f, 0.375f, 0.5f, 0.625f, 0.75f, 0.875f, 1};
    for (float p : {0.3333333f, 0.6666667f, 0.1f, 0.9f, 1e-6f, 0.001f, 0.999f, 0.9999999f, 1e-30f}) ps.push_back(p);
    for (float p : I.ps) ps.push_back(p);
    if (I.n > 300 || (I.kind == 'D' && I.n > 200)) ps = {0.125f, 0.3333333f, 0.5f, 0.75f};
    bool small = I.t.L * I.n <= 8 && (I.kind != 'D' || I.t.N * I.n <= 14);
    u64 h = 0;
    for (float p : ps) {
        Res r = P->best(p); m.op();
        ref::Best b = ref::optimum(I, p);
        if (small && (p == 0.5f || p == 0.25f || p == 1)) { ref::Best c = ref::brute(I, p); ld t = tol(I) + 1e-12L * (1 + std::fabs(c.v)); if (std::fabs(c.v - b.v) > t) throw std::logic_error("reference disagrees with brute force"); }
        checkOptimal(m, I, r, p, b);
        u64 x = hashRes(r); m.state(x); h = mc::mix(h, x);
    }
    P->partitionerRaw(); m.op();     // a partitioner handed the table itself
    for (float p : {0.25f, 0.5f}) { Res r = P->best(p); m.op(); checkOptimal(m, I, r, p, ref::optimum(I, p)); }
    m.trace(); m.outcome(h);
}
int main(int c, char **v) { Gens g = both(KIND); for (auto &x : huge(KIND)) g.push_back(x); for (auto &x : longBlocks(KIND)) g.push_back(x); return mc::run(c, v, spaces(g, body)); }
