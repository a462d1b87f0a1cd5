// C21: quality and trade-off arithmetic and comparisons are sound and usable.
#include "gens.h"
using namespace gen;
using lpaggreg::Quality; using lpaggreg::Tradeoff;
typedef lp_quality_type T;
static const vector<T> &vals() { static vector<T> v = {0, 1, 2, -3, 0.5L, 0.1L, 1e-9L, 7e18L}; return v; }
static ld E() { return std::ldexp((ld)1, -60); }     // one operation, correctly rounded or nearly so
static bool eq(ld a, ld b) { return a == b || std::fabs(a - b) <= E() * std::max(std::fabs(a), std::fabs(b)); }
static string s(const Q &q) { return "(" + num(q.g) + ", " + num(q.l) + ")"; }
static Q of(const Quality &q) { return Q(q.getGain(), q.getLoss()); }
static bool is(const Quality &q, const Q &r) { return eq(q.getGain(), r.g) && eq(q.getLoss(), r.l); }
static const char *names[4] = {"+", "-", "*", "/"};
static ld op1(int k, ld a, ld b) { return k == 0 ? a + b : k == 1 ? a - b : k == 2 ? a * b : a / b; }
static Q op2(int k, const Q &a, const Q &b) { return Q(op1(k, a.g, b.g), op1(k, a.l, b.l)); }
static bool close(ld a, ld b, ld exactA, ld exactB) { return eq(a, b) || std::fabs(a - b) <= E() * (std::fabs(exactA) + std::fabs(exactB)); }
static Quality apply(int k, Quality &a, Quality &b) { return k == 0 ? a + b : k == 1 ? a - b : k == 2 ? a * b : a / b; }
static void inplace(int k, Quality &a, Quality &b) { if (k == 0) a += b; else if (k == 1) a -= b; else if (k == 2) a *= b; else a /= b; }
static Tradeoff apply(int k, Tradeoff &a, Tradeoff &b) { return k == 0 ? a + b : k == 1 ? a - b : k == 2 ? a * b : a / b; }
static void inplace(int k, Tradeoff &a, Tradeoff &b) { if (k == 0) a += b; else if (k == 1) a -= b; else if (k == 2) a *= b; else a /= b; }

static void quality(Mc &m) {
    Q a(m.pick(vals()), m.pick(vals())), b(m.pick(vals()), m.pick(vals())); int k = m.choose(5); bool self = m.choose(2);
    if (self) b = a;
    m.mine(); m.sample(s(a) + " " + s(b) + " op " + std::to_string(k));
    if (k < 4) {
        if (k == 3 && (b.g == 0 || b.l == 0)) return;
        Quality x(a.g, a.l), y(b.g, b.l); Quality &z = self ? x : y; Q want = op2(k, a, b);
        Quality n = apply(k, x, z); m.op(2);
        m.check(is(n, want), [&] { return s(a) + " " + names[k] + " " + s(b) + " gives " + s(of(n)) + " instead of " + s(want); });
        m.check(is(x, a) && is(y, b), [&] { return string("computing ") + names[k] + " changed an operand: " + s(of(x)) + " " + s(of(y)); });
        inplace(k, x, z); m.op();
        m.check(is(x, want), [&] { return s(a) + " " + names[k] + "= " + s(b) + (self ? " (itself)" : "") + " gives " + s(of(x)) + " instead of " + s(want); });
        if (!self) m.check(is(y, b), [&] { return string(names[k]) + "= changed its right operand to " + s(of(y)); });
        m.state(mc::mix(k, self));
    } else {
        Quality x, y(b.g, b.l); m.check(is(x, Q()), [] { return string("a new quality is not zero"); });
        x.setGain(a.g); x.setLoss(a.l); m.op(3); m.check(is(x, a), [&] { return "set to " + s(a) + ", reads " + s(of(x)); });
        x.addToGain(b.g); m.check(eq(x.getGain(), a.g + b.g) && eq(x.getLoss(), a.l), [&] { return "adding " + num(b.g) + " to the gain of " + s(a) + " gives " + s(of(x)); });
        x.addToLoss(b.l); m.op(2); m.check(eq(x.getGain(), a.g + b.g) && eq(x.getLoss(), a.l + b.l), [&] { return "adding to the loss of " + s(a) + " gives " + s(of(x)); });
        std::ostringstream o; std::ostream &r = (o << y); m.op(); m.check(&r == &o && !o.str().empty() && is(y, b), [] { return string("printing a quality fails"); });
        // after a round trip of operations
        Quality u(a.g, a.l); u += y; u -= y; m.op(2); m.check(close(u.getGain(), a.g, a.g, b.g) && close(u.getLoss(), a.l, a.l, b.l), [&] { return "adding and subtracting " + s(b) + " turns " + s(a) + " into " + s(of(u)); });
        m.state(9);
    }
    m.trace();
}
static void equality(Mc &m) {
    // agreement within 1/20 of the precision of the smaller component: equal; beyond 20 times that of the larger one: different
    static const vector<ld> mg = {1, 1e-6L, 3, 1e9L, 1e20L, 0}, f = {0, 0.05L, -0.05L, 20, -20, 1e3L, 1e6L};
    ld P = LP_PRECISION; Q a(m.pick(mg), m.pick(mg)); int i = m.choose((int)f.size()), j = m.choose((int)f.size());
    m.mine();
    ld lo = std::min(a.g, a.l), hi = std::max(a.g, a.l);
    auto d = [&](int k) { return std::fabs(f[k]) < 1 ? f[k] * P * lo : f[k] * P * hi; };
    if (hi == 0 && (f[i] >= 1 || f[i] <= -1)) hi = 1;
    Q b(a.g + d(i), a.l + d(j)); if (b.g < 0 || b.l < 0) return;
    ld dg = std::fabs(b.g - a.g), dl = std::fabs(b.l - a.l); ld HI = std::max((a.g + b.g) / 2, (a.l + b.l) / 2), LO = std::min((a.g + b.g) / 2, (a.l + b.l) / 2);
    bool identical = dg == 0 && dl == 0, equal = identical || (dg < P * LO / 2 && dl < P * LO / 2), different = dg > 2 * P * HI || dl > 2 * P * HI;
    Quality x(a.g, a.l), y(b.g, b.l); bool e = x == y, r = y == x, n = x != y, n2 = y != x; m.op(4);
    m.check(e || !equal, [&] { return s(a) + " and " + s(b) + " compare different"; });
    m.check(!e || !different, [&] { return s(a) + " and " + s(b) + " compare equal"; });
    m.check(e == r && n == !e && n2 == !e, [&] { return "inconsistent comparisons of " + s(a) + " and " + s(b); });
    m.check(x == x && !(x != x), [&] { return s(a) + " is not equal to itself"; });
    m.check(of(x).g == (ld)(T)a.g && of(y).l == (ld)(T)b.l, [] { return string("a comparison changed an operand"); });
    m.state(mc::mix(e, i * 10 + j)); m.outcome(e); m.trace();
}
static void exactEq(Mc &m) { // exact alphabets, negative ones too: different values are never equal
    Q a(m.pick(vals()), m.pick(vals())), b(m.pick(vals()), m.pick(vals())); m.mine();
    ld P = LP_PRECISION; ld HI = std::max(std::fabs(a.g) + std::fabs(b.g), std::fabs(a.l) + std::fabs(b.l));
    bool id = a.g == b.g && a.l == b.l, far = std::fabs(a.g - b.g) > 2 * P * HI || std::fabs(a.l - b.l) > 2 * P * HI;
    Quality x(a.g, a.l), y(b.g, b.l); bool e = x == y; m.op(2);
    m.check(e || !id, [&] { return s(a) + " does not equal the same quality"; }); m.check(!e || !far, [&] { return s(a) + " equals " + s(b); });
    m.check((x != y) == !e && (y == x) == e, [&] { return "inconsistent comparisons of " + s(a) + " and " + s(b); });
    m.state(e); m.outcome(e); m.trace();
}
struct TM { ld v; Q q; };      // model of a trade-off
static bool is(const Tradeoff &t, const TM &r) { return eq(t.getValue(), r.v) && eq(t.getQuality()->getGain(), r.q.g) && eq(t.getQuality()->getLoss(), r.q.l); }
static string s(const TM &t) { return "{" + num(t.v) + " " + s(t.q) + "}"; }
static string s(const Tradeoff &t) { return s(TM{t.getValue(), of(*t.getQuality())}); }
static shared_ptr<Quality> q(const Q &x) { return shared_ptr<Quality>(new Quality(x.g, x.l)); }
static void tradeoff(Mc &m) {
    static const vector<T> al = {0, 1, -3, 0.5L, 7e18L};
    TM a{m.pick(al), Q(m.pick(al), m.pick(al))}, b{m.pick(al), Q(m.pick(al), m.pick(al))}; int k = m.choose(4); bool self = m.choose(2); if (self) b = a;
    m.mine(); m.sample(s(a) + names[k] + s(b));
    if (k == 3 && (b.v == 0 || b.q.g == 0 || b.q.l == 0)) return;
    auto qa = q(a.q), qb = q(b.q); Tradeoff x((T)a.v, qa), y((T)b.v, qb); Tradeoff &z = self ? x : y; TM want{op1(k, a.v, b.v), op2(k, a.q, b.q)};
    Tradeoff n = apply(k, x, z); m.op(3);
    m.check(is(n, want), [&] { return s(a) + " " + names[k] + " " + s(b) + " gives " + s(n) + " instead of " + s(want); });
    m.check(is(x, a) && is(y, b), [&] { return string("computing ") + names[k] + " changed an operand: " + s(x) + " " + s(y); });
    inplace(k, x, z); m.op();
    m.check(is(x, want), [&] { return s(a) + " " + names[k] + "= " + s(b) + " gives " + s(x) + " instead of " + s(want); });
    if (!self) m.check(is(y, b), [&] { return string(names[k]) + "= changed its right operand to " + s(y); });
    m.check(is(n, want), [&] { return string(names[k]) + "= changed an earlier result to " + s(n); });
    m.check(is(*qa, a.q) && is(*qb, b.q), [&] { return string(names[k]) + "= changed the quality a trade-off was made from"; });
    m.state(k); m.trace();
}
static void order(Mc &m) {
    static const vector<T> vl = {-2, 0, 1, 5}, al = {0, 1, 2, 4};
    TM a{m.pick(vl), Q(m.pick(al), m.pick(al))}, b{m.pick(vl), Q(m.pick(al), m.pick(al))}; m.mine();
    Tradeoff x((T)a.v, q(a.q)), y((T)b.v, q(b.q));
    auto gt = [](const TM &a, const TM &b) { return a.v > b.v || (a.v == b.v && (a.q.g > b.q.g || (a.q.g == b.q.g && a.q.l < b.q.l))); };
    bool g = gt(a, b), l = gt(b, a); m.op(12);
    m.check((x > y) == g, [&] { return s(a) + " > " + s(b) + " is " + (g ? "false" : "true"); });
    m.check((x < y) == l, [&] { return s(a) + " < " + s(b) + " is " + (l ? "false" : "true"); });
    m.check((x > y) == (y < x) && (x < y) == (y > x), [&] { return "'less than' does not mirror 'greater than' on " + s(a) + " and " + s(b); });
    if (!g && !l) m.check((x >= y) && (x <= y), [&] { return s(a) + " and " + s(b) + " are equal but not >= and <="; });
    if (g) m.check((x >= y) && !(y >= x) && (y <= x) && !(x <= y), [&] { return ">= or <= contradict > on " + s(a) + " and " + s(b); });
    if (l) m.check((y >= x) && !(x >= y) && (x <= y) && !(y <= x), [&] { return ">= or <= contradict < on " + s(a) + " and " + s(b); });
    bool e = x == y, ne = x != y; m.check(e != ne && (y == x) == e, [&] { return "== and != disagree on " + s(a) + " and " + s(b); });
    if (a.v != b.v) m.check(!e, [&] { return s(a) + " == " + s(b); });
    if (!g && !l) m.check(e, [&] { return s(a) + " != " + s(b); });
    m.check(is(x, a) && is(y, b), [] { return string("a comparison changed an operand"); });
    m.state(mc::mix(g, l)); m.outcome(mc::mix(g, l)); m.trace();
}
// values that hardly differ, or of very different magnitudes, are still ordered by value
static void fineOrder(Mc &m) {
    T big = std::ldexp((T)1, 60), up = 1; up = std::nextafter(up, (T)2); T e30 = std::ldexp((T)1, -30), e45 = std::ldexp((T)1, -45);
    const vector<T> vl = {1, up, 1 + e45, 1 + e30, 1 - e45, -1, -1 - e45, 0, e30 * e30, -e30 * e30, (T)1e-300, (T)1e300, big, big + (sizeof(T) > 8 ? 1 : 4096), -big};
    TM a{m.pick(vl), Q(m.choose(2), m.choose(2))}, b{m.pick(vl), Q(m.choose(2), m.choose(2))}; m.mine(); if (a.v == b.v) return;
    Tradeoff x((T)a.v, q(a.q)), y((T)b.v, q(b.q)); bool g = a.v > b.v; m.op(6);
    m.check((x > y) == g && (x < y) == !g && (x >= y) == g && (x <= y) == !g, [&] { return "values " + num(a.v) + " and " + num(b.v) + " (difference " + num(a.v - b.v) + ") are not ordered by value"; });
    m.check(!(x == y) && x != y, [&] { return "values " + num(a.v) + " and " + num(b.v) + " (difference " + num(a.v - b.v) + ") compare equal"; });
    m.state(mc::mix(g, 5)); m.outcome(g); m.trace();
}
static void value(Mc &m) {
    static const vector<float> ps = {0, 0.25f, 0.5f, 0.75f, 1, 0.1f, 0.3f, 0.999f, 1e-6f, 1e-7f, 0x1p-24f, 1e-10f, 1e-30f, 1 - 0x1p-24f, 1 - 3 * 0x1p-24f};
    Q a(m.pick(vals()), m.pick(vals())), b(m.pick(vals()), m.pick(vals())); float p = m.pick(ps), r = m.pick(ps); m.mine();
    auto near_ = [&](const Tradeoff &t, const Q &x, float p) { ld w = ref::pic(x, p); return std::fabs(t.getValue() - w) <= std::fabs(x.g) * p * E() + std::fabs(x.l) * (E() + (exactP(p) ? 0 : 6e-8L)) && is(*t.getQuality(), x); };
    auto qa = q(a), qb = q(b);
    Tradeoff t0; m.check(is(t0, TM{0, Q()}), [&] { return "a new trade-off is " + s(t0); });
    Tradeoff t1(qa); m.check(is(*t1.getQuality(), a) && t1.getValue() == 0, [&] { return "a trade-off made from " + s(a) + " is " + s(t1); });
    t1.computePIC(p); m.check(near_(t1, a, p), [&] { return "trade-off of " + s(a) + " at p=" + num(p) + " is " + num(t1.getValue()); });
    t1.computePIC(r); m.check(near_(t1, a, r), [&] { return "trade-off of " + s(a) + " recomputed at p=" + num(r) + " is " + num(t1.getValue()); });
    Tradeoff t2(qa, p); m.check(near_(t2, a, p), [&] { return "trade-off of " + s(a) + " made at p=" + num(p) + " is " + num(t2.getValue()); });
    t2.set(qb, r); m.check(near_(t2, b, r), [&] { return "trade-off set to " + s(b) + " at p=" + num(r) + " is " + s(t2); });
    m.check(is(*qa, a) && is(*qb, b), [] { return string("a trade-off changed the quality it was made from"); });
    // a trade-off keeps its own copy
    Tradeoff t3(qa, p); qa->setGain(77); qa->setLoss(78); m.check(near_(t3, a, p), [] { return string("changing a quality changes a trade-off made from it earlier"); });
    m.op(10); m.state(mc::mix(p * 1000, r * 1000)); m.trace();
}
// histories: all sequences of operations over three trade-offs
static void history(Mc &m, int depth) {
    TM w[3] = {{1, Q(2, 1)}, {0.5L, Q(1, 0.5L)}, {-2, Q(0.25L, 4)}}; Tradeoff x[3] = {Tradeoff((T)1, q(w[0].q)), Tradeoff((T)0.5L, q(w[1].q)), Tradeoff((T)-2, q(w[2].q))};
    vector<std::array<int, 4>> ops; for (int d = 0; d < depth; d++) { int k = m.choose(6), i = m.choose(3), j = m.choose(3), t = k < 4 && m.choose(2) ? 1 : 0; ops.push_back({k, i, j, t}); }
    m.mine(); string hist; u64 h = 5;
    for (auto &o : ops) {
        int k = o[0], i = o[1], j = o[2];
        if (k == 3 && (w[j].v == 0 || w[j].q.g == 0 || w[j].q.l == 0)) continue;
        if (k < 4) {
            TM r{op1(k, w[i].v, w[j].v), op2(k, w[i].q, w[j].q)};
            if (o[3]) { inplace(k, x[i], x[j]); w[i] = r; hist += " t" + std::to_string(i) + names[k] + "=t" + std::to_string(j); }
            else { Tradeoff n = apply(k, x[i], x[j]); hist += " t" + std::to_string(i) + names[k] + "t" + std::to_string(j); m.check(is(n, r), [&] { return "after" + hist + ": result " + s(n) + " instead of " + s(r); }); }
        } else if (k == 4) { x[i].set(x[j].getQuality(), 0.5f); w[i].q = w[j].q; w[i].v = ref::pic(w[i].q, 0.5f); hist += " t" + std::to_string(i) + ".set(t" + std::to_string(j) + ")"; }
        else { x[i].computePIC(0.25f * (j + 1)); w[i].v = ref::pic(w[i].q, 0.25f * (j + 1)); hist += " t" + std::to_string(i) + ".computePIC"; }
        m.op();
        for (int a = 0; a < 3; a++) { m.check(is(x[a], w[a]), [&] { return "after" + hist + ": t" + std::to_string(a) + " is " + s(x[a]) + " instead of " + s(w[a]); }); h = mc::mix(h, std::hash<double>()((double)w[a].v)); }
        m.state(h);
    }
    m.trace(); m.outcome(h);
}
int main(int c, char **v) {
    vector<Space> s;
    s.push_back({"quality", "all pairs of qualities over 8 values, all operations, also on itself", false, quality});
    s.push_back({"quality.equality", "qualities of 36 magnitudes, 49 relative differences", false, equality});
    s.push_back({"quality.exact", "all pairs of qualities over 8 values, comparisons", false, exactEq});
    s.push_back({"tradeoff", "all pairs of trade-offs over 5 values, all operations, also on itself", false, tradeoff});
    s.push_back({"tradeoff.order", "all pairs of trade-offs over 4 x 4 x 4 values, all comparisons", false, order});
    s.push_back({"tradeoff.order.fine", "all pairs of 15 values from one unit in the last place to 300 orders of magnitude apart x 4 x 4 qualities", false, fineOrder});
    s.push_back({"tradeoff.value", "all qualities over 8 values, all pairs of 15 parameters, constructors and setters", false, value});
    s.push_back({"history3", "all sequences of 3 operations over three trade-offs", false, [](Mc &m) { history(m, 3); }});
    s.push_back({"history4", "all sequences of 4 operations over three trade-offs", true, [](Mc &m) { history(m, 4); }});
    return mc::run(c, v, s);
}
