#pragma once
#include "gens.h"
namespace gen {
struct Range { float th, a, b; };
inline string str(const Range &r) { return "sweep(threshold " + num(r.th) + ", " + num(r.a) + ", " + num(r.b) + ")"; }
// resolution of the parameter type around p
inline ld ulp(float p) { return (ld)std::nextafter(p, 2.f) - p; }
// C12: a usable result
inline void checkUsable(Mc &m, Pipe &P, const Range &r) {
    auto pl = P.plist(); auto pa = P.partitions(); auto ql = P.qlist(); m.op(3);
    m.check(!pl.empty(), [&] { return str(r) + " yields no parameter"; });
    for (float p : pl) {
        m.check(p >= r.a && p <= r.b, [&] { return str(r) + " lists parameter " + num(p) + " outside its range"; });
        m.check(pa.count(p), [&] { return str(r) + ": parameter " + num(p) + " has no partition"; });
        m.check(ql.count(p), [&] { return str(r) + ": parameter " + num(p) + " has no quality"; });
        m.check(!pa[p].parts.empty(), [&] { return str(r) + ": the partition at " + num(p) + " is empty"; });
    }
    // the threshold bounds the refinement
    for (size_t i = 1; i < pl.size(); i++) {
        if (pl[i - 1] == r.a && pl[i] == r.b) continue;
        m.check((ld)pl[i] - pl[i - 1] >= (ld)r.th / 2 * (1 - 1e-6L) - 2 * ulp(pl[i]), [&] { return str(r) + " refines beyond its threshold: it lists " + num(pl[i - 1]) + " and " + num(pl[i]); });
    }
}
// C11: the right best partitions in the right order
inline u64 checkSweep(Mc &m, const Inst &I, Pipe &P, const Range &r, ld slack = 0) {
    auto pl = P.plist(); auto pa = P.partitions(); m.op(2);
    auto list = [&] { string s; for (float p : pl) s += num(p) + " "; return s; };
    m.check(!pl.empty() && pl[0] == r.a, [&] { return str(r) + " does not start at its minimum: " + list(); });
    for (size_t i = 1; i < pl.size(); i++) m.check(pl[i] > pl[i - 1], [&] { return str(r) + " lists parameters out of order: " + list(); });
    m.check(pl.back() <= r.b, [&] { return str(r) + " lists parameters beyond its maximum: " + list(); });
    m.check(pa.size() == pl.size(), [&] { return str(r) + " lists " + std::to_string(pl.size()) + " parameters but " + std::to_string(pa.size()) + " partitions"; });
    u64 h = 11;
    for (size_t i = 0; i < pl.size(); i++) {
        float p = pl[i];
        m.check(pa.count(p), [&] { return str(r) + ": parameter " + num(p) + " has no partition"; });
        Res &x = pa[p];
        m.check(x.p == p, [&] { return str(r) + ": the partition listed at " + num(p) + " was computed for " + num(x.p); });
        checkCover(m, I, x);
        Q q = totals(I, x);
        // best at its parameter
        ref::Best b = ref::optimum(I, p); ld t = tolAt(I, p, std::fabs(q.l) + std::fabs(b.l)) + slack; if (t) t += 1e-16L * (p * (std::fabs(q.g) + std::fabs(b.g)) + std::fabs(q.l) + std::fabs(b.l));
        m.check(ref::pic(q, p) >= b.v - t, [&] { return str(r) + ": the partition listed at " + num(p) + " is not the best there: trade-off " + num(ref::pic(q, p)) + ", best " + num(b.v) + ", " + lp::str(x); });
        // and up to the next one, minus the threshold
        ld end = i + 1 < pl.size() ? (ld)pl[i + 1] - std::max((ld)r.th * (1 + 1e-6L), 2 * ulp(pl[i + 1])) : (ld)r.b;
        if (end > p) {
            ref::Best e = ref::optimum(I, end); ld L = std::fabs(q.l) + std::fabs(b.l) + std::fabs(e.l), te = tol(I) + L * 6e-8L + slack;
            te += 1e-15L * (std::max((ld)p, end) * (std::fabs(q.g) + std::fabs(e.g)) + L);   // rounding of the reference at an arbitrary parameter
            m.check(ref::pic(q, end) >= e.v - te, [&] { return str(r) + ": the partition listed at " + num(p) + " is no longer the best at " + num(end) + (i + 1 < pl.size() ? ", the next one is only listed at " + num(pl[i + 1]) : ", the maximum, but it is the last one listed") + ": trade-off " + num(ref::pic(q, end)) + ", best " + num(e.v); });
        }
        if (i) m.check(!sameSet(x, pa[pl[i - 1]]), [&] { return str(r) + " lists the same partition at " + num(pl[i - 1]) + " and at " + num(p); });
        h = mc::mix(h, hashRes(x)); m.state(mc::mix(h, i));
    }
    return h;
}
} // namespace gen
