// C26: the C++ code of R/lpaggreg.R, compiled against a stand-in for Rcpp and linked with the library,
// returns what the library computes when it is used directly on the same cube.
#include "gens.h"
#include "c26.h"
using namespace lp; using namespace gen;
struct Want { vector<Row> rows; vector<std::pair<float, Q>> q; float popt, auc; };
template <class V, class QS, class PR> static Want direct(shared_ptr<V> v, float th, Mc &m) {
    QS q(v); q.computeQualities(); q.normalize(); PR p(q); p.computeBestPartitions(th); m.op(6);
    Want w; for (auto &x : p.getPartitions()) { Res r = conv(x.second); for (auto &y : r.parts) w.rows.push_back(Row{x.first, y.h, y.size, y.s, y.e, y.g, y.l}); }
    for (auto &x : p.getQualityList()) w.q.push_back({x.first, Q(x.second->getGain(), x.second->getLoss())});
    w.popt = p.getP(P_OPT); w.auc = p.computeAUC(); return w;
}
struct Case { char kind; Tree t; int d[3]; vector<double> x; float th; };   // x in row-major order
static double at(const Case &c, int i, int j, int k) { return c.x[(i * c.d[1] + j) * c.d[2] + k]; }
static string show(const Case &c) { string s = string(1, c.kind) + " cube " + std::to_string(c.d[0]) + "x" + std::to_string(c.d[1]) + "x" + std::to_string(c.d[2]) + ":"; for (double v : c.x) s += " " + num(v); if (c.kind != 'O') s += " " + c.t.str(); return s + " threshold " + num(c.th); }
static void verify(Mc &m, const Case &c) {
    m.mine(); m.sample(show(c));
    vector<vector<vector<double>>> a(c.d[0], vector<vector<double>>(c.d[1], vector<double>(c.d[2])));
    RCall r; r.kind = c.kind; r.th = c.th; r.data.resize(c.x.size());
    for (int i = 0; i < c.d[0]; i++) for (int j = 0; j < c.d[1]; j++) for (int k = 0; k < c.d[2]; k++) { a[i][j][k] = at(c, i, j, k); r.data[i + c.d[0] * (j + c.d[1] * k)] = a[i][j][k]; }
    for (int i = 0; i < 3; i++) r.dim[i] = c.d[i]; if (c.kind != 'O') for (int p : c.t.par) r.hier.push_back(p + 1);
    Want w; using namespace lpaggreg;
    if (c.kind == 'O') w = direct<OValuesN3, OQualities, OPartitioner>(shared_ptr<OValuesN3>(new OValuesN3(a)), c.th, m);
    else if (c.kind == 'H') w = direct<HValuesN3, HQualities, HPartitioner>(shared_ptr<HValuesN3>(new HValuesN3(a, c.t.par)), c.th, m);
    else w = direct<DValuesN3, DQualities, DPartitioner>(shared_ptr<DValuesN3>(new DValuesN3(a, c.t.par)), c.th, m);
    RResult g;
    try { g = callR(r); } catch (std::exception &e) { m.fail(string("the R function fails: ") + e.what() + "\n" + show(c)); }
    m.op();
    auto col = [&](map<string, vector<double>> &f, const char *n, size_t len) -> vector<double> & { auto it = f.find(n); m.check(it != f.end(), [&] { return string("column ") + n + " is missing: " + show(c); }); m.check(it->second.size() == len, [&] { return string("column ") + n + " has " + std::to_string(it->second.size()) + " rows, the library computes " + std::to_string(len) + ": " + show(c); }); return it->second; };
    auto close = [](double x, ld y) { return x == (double)y || std::fabs((ld)x - y) <= 1e-6L * (1 + std::fabs(y)); };
    auto same = [&](const char *what, size_t row, double x, ld y, bool exact) { m.check(exact ? (ld)x == y : close(x, y), [&] { return string(what) + " of row " + std::to_string(row + 1) + " is " + num(x) + ", the library computes " + num(y) + ": " + show(c); }); };
    size_t n = w.rows.size(); u64 h = 9;
    m.check(g.unchanged, [&] { return "the caller's array or hierarchy was modified: " + show(c); });
    auto &P = col(g.parts, "Parameter", n), &G = col(g.parts, "Gain", n), &L = col(g.parts, "Loss", n);
    for (size_t i = 0; i < n; i++) {
        const Row &x = w.rows[i]; same("Parameter", i, P[i], x.p, true); same("Gain", i, G[i], x.g, false); same("Loss", i, L[i], x.l, false);
        if (c.kind != 'H') { same("Start", i, col(g.parts, "Start", n)[i], x.s + 1, true); same("End", i, col(g.parts, "End", n)[i], x.e + 1, true); }
        if (c.kind != 'O') { same("Node", i, col(g.parts, "Node", n)[i], x.h + 1, true); same("Size", i, col(g.parts, "Size", n)[i], x.size, true); }
        h = mc::mix(mc::mix(mc::mix(h, x.h), x.s), x.e);
    }
    size_t k = w.q.size(); auto &QP = col(g.quals, "Parameter", k), &QG = col(g.quals, "Gain", k), &QL = col(g.quals, "Loss", k);
    for (size_t i = 0; i < k; i++) { same("quality Parameter", i, QP[i], w.q[i].first, true); same("total Gain", i, QG[i], w.q[i].second.g, false); same("total Loss", i, QL[i], w.q[i].second.l, false); }
    m.check(g.popt == (double)w.popt, [&] { return "POpt is " + num(g.popt) + ", the library computes " + num(w.popt) + ": " + show(c); });
    m.check(close(g.auc, w.auc), [&] { return "AUC is " + num(g.auc) + ", the library computes " + num(w.auc) + ": " + show(c); });
    m.state(h); m.outcome(h); m.trace();
}
static const vector<float> ths = {0.0005f, 0.05f, 0.5f, 1};
static void shapeOf(Mc &m, Case &c, const vector<Tree> &ts, int A, int B, int T) {
    if (c.kind == 'O') { c.d[0] = 1 + m.choose(A); c.d[1] = 1 + m.choose(B); c.d[2] = 1 + m.choose(T); }
    else { c.t = m.pick(ts); c.d[0] = c.t.L; c.d[1] = 1 + m.choose(B); c.d[2] = 1 + m.choose(c.kind == 'H' ? A : T); }
}
int main(int argc, char **v) {
    vector<Space> s;
    for (char kind : {'O', 'H', 'D'}) {
        string K(1, kind);
        for (int more = 0; more < 2; more++) s.push_back({K + (more ? ".all+" : ".all"), more ? "all cubes of at most 9 cells over {0,1,3}, labelled trees with <=3 leaves, 4 thresholds" : "all cubes of at most 6 cells over {0,1,3}, labelled trees with <=3 leaves, 4 thresholds", more == 1, [=](Mc &m) {
            Case c; c.kind = kind; shapeOf(m, c, kind == 'D' ? dTrees() : smallTrees(), 3, 3, 5); int n = c.d[0] * c.d[1] * c.d[2]; if (n > (more ? 9 : 6) || kind == 'D' && !more && n > 4 && c.t.N > 4) throw mc::Reject();
            for (int i = 0; i < n; i++) c.x.push_back(m.pick(Alpha{0, 1, 3})); c.th = m.pick(ths); verify(m, c); }});
        s.push_back({K + ".shapes", "all cube shapes up to 4x4x12, larger trees, periodic data (24 patterns), 4 thresholds", false, [=](Mc &m) {
            Case c; c.kind = kind; static const vector<Tree> ts = [] { vector<Tree> r; for (int L = 1; L <= 5; L++) gen::add(r, ref::labelled(L, L <= 3, L, {0, 3})); return r; }();
            static const vector<Tree> few = {oneLeaf(), ref::label(ref::caterpillar(3, true), 0), ref::label(ref::caterpillar(4, false), 3), ref::label(ref::star(4), 1), ref::label(ref::chain(3), 1)};
            shapeOf(m, c, kind == 'D' ? few : ts, 4, 4, kind == 'D' ? 6 : 12); int a = m.choose(2), b = m.choose(3), e = m.choose(4); c.th = kind == 'D' ? ths[1 + m.choose(2)] : m.pick(ths);
            for (int i = 0; i < c.d[0]; i++) for (int j = 0; j < c.d[1]; j++) for (int k = 0; k < c.d[2]; k++) c.x.push_back(((a * i + 3 * j * b + k * (e + 1) + (i + 1) * (k / 2)) % (e + 3)) * 0.75); verify(m, c); }});
        s.push_back({K + ".wide", "cubes with one dimension in {7,16,40}, the others 1-3, 7 data patterns (also of very large, very small and almost equal values), thresholds 0.02 and 1e-7", false, [=](Mc &m) {
            Case c; c.kind = kind; static const vector<Tree> ts = {ref::label(ref::star(2), 1), ref::label("((()())())", 3), ref::label(ref::caterpillar(9, false), 7), ref::label(ref::star(16), 1)};
            if (kind != 'O') { c.t = m.pick(ts); if (kind == 'D' && c.t.L > 9) throw mc::Reject(); }
            int axis = m.choose(kind == 'O' ? 3 : 2), W = m.pick(vector<int>{7, 16, 40}); bool time = kind == 'O' ? axis == 2 : kind == 'D' && axis == 1; if (time && W > (kind == 'D' ? 7 : 16)) throw mc::Reject();
            for (int i = 0; i < 3; i++) c.d[i] = kind != 'O' && i == 0 ? c.t.L : i == (kind == 'O' ? axis : axis + 1) ? W : 1 + m.choose(kind == 'D' ? 2 : 3);
            int f = m.choose(7); c.th = m.pick(vector<float>{0.02f, 1e-7f}); if (c.th < 1e-3f && f > 2 && f < 6) throw mc::Reject();
            for (int i = 0; i < c.d[0]; i++) for (int j = 0; j < c.d[1]; j++) for (int k = 0; k < c.d[2]; k++) { int x = (i * 5 + j * 3 + k * (1 + k % 2)) % 7; c.x.push_back(f == 0 ? x : f == 1 ? (i + j == k) * 4.0 : f == 2 ? 1 + 1e-6 * x : f == 3 ? x * 1e12 : f == 4 ? x * 1e-9 : f == 6 ? (x < 5 ? 1 + 1e-3 * x : 1000) : std::ldexp(1.0, 4 * x)); }
            verify(m, c); }});
        if (kind != 'O') s.push_back({K + ".giant", "a cube of 33001 equal elements and a hierarchy of 33003 nodes, one slice, threshold 1", false, [=](Mc &m) {
            Case c; c.kind = kind; c.t = ref::label("(" + ref::star(33000) + "())", 0); c.d[0] = c.t.L; c.d[1] = c.d[2] = 1; c.th = 1;
            for (int i = 0; i < c.d[0]; i++) c.x.push_back(2); verify(m, c); }});
    }
    return mc::run(argc, v, s);
}
