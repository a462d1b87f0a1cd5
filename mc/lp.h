// Uniform access to the real library: ordered (O), hierarchical (H) and spatiotemporal (D) pipelines
// behind one interface, so that one driver explores all three.
#pragma once
#include "explorer.h"
#include "ref.h"
#include <memory>
#include <list>
#include <tuple>
#include "oqualities.h"
#include "opartitioner.h"
#include "ovaluesn.h"
#include "oaggregationn.h"
#include "hqualities.h"
#include "hpartitioner.h"
#include "hvaluesn.h"
#include "haggregationn.h"
#include "dqualities.h"
#include "dpartitioner.h"
#include "dvaluesn.h"
#include "daggregationn.h"

namespace lp {
using ref::Inst; using ref::Part; using ref::Q; using ref::Tree; using ref::ld; using ref::Cube;
using mc::Mc; using mc::Space; using mc::u64;
using std::shared_ptr; using std::vector; using std::string; using std::map;

struct Res { float p = 0; ld g = 0, l = 0; vector<Part> parts; };
inline string str(const Res &r) { std::ostringstream o; o.precision(17); o << "p=" << r.p << " gain=" << (double)r.g << " loss=" << (double)r.l << " parts:"; for (auto &x : r.parts) o << " [node " << x.h << " " << x.s << "-" << x.e << "]"; return o.str(); }
inline bool sameParts(const Res &a, const Res &b) { if (a.parts.size() != b.parts.size()) return false; for (size_t i = 0; i < a.parts.size(); i++) if (!ref::same(a.parts[i], b.parts[i])) return false; return true; }
inline bool sameSet(const Res &a, const Res &b) {
    auto key = [](const Res &r) { std::set<std::array<int, 3>> s; for (auto &p : r.parts) s.insert({p.h, p.s, p.e}); return s; };
    return a.parts.size() == b.parts.size() && key(a) == key(b);
}
inline u64 hashRes(const Res &r) { u64 h = 7; for (auto &p : r.parts) { h = mc::mix(h, p.h + 1); h = mc::mix(h, p.s + 1); h = mc::mix(h, p.e + 1); } return h; }
struct Row { float p; int h, size, s, e; ld g, l; };

struct Pipe {
    virtual ~Pipe() {}
    virtual void compute() = 0;
    virtual void normalize() = 0;
    virtual Q quality(int h, int i, int j) = 0;
    virtual unsigned qsize() = 0;
    virtual void partitioner() = 0;            // a new partitioner on the current qualities
    virtual void partitionerRaw() = 0;         // the same, handed the table (and hierarchy) itself
    virtual Res best(float p) = 0;
    virtual void sweep(float th) = 0;
    virtual void sweep(float th, float a, float b) = 0;
    virtual vector<float> plist() = 0;
    virtual map<float, Res> partitions() = 0;
    virtual vector<Row> rows() = 0;
    virtual map<float, Q> qlist() = 0;
    virtual float getP(int s) = 0;
    virtual float auc() = 0;
    virtual bool hasQualities() = 0;
    virtual double value(int k, int a, int o) = 0;   // reads the dataset
    virtual void put(int k, int a, int o, double x) = 0;                // writes it
    virtual shared_ptr<lpaggreg::Quality> cell(int h, int i, int j) = 0;   // the quality in use
    void putQuality(int h, int i, int j, Q x) { auto c = cell(h, i, j); c->setGain((lp_quality_type)x.g); c->setLoss((lp_quality_type)x.l); }
};
template <class P> Res common(const P &p) { Res r; r.p = p->getParameter(); auto q = p->getQuality(); r.g = q->getGain(); r.l = q->getLoss(); return r; }

// ---- ordered
inline Res conv(shared_ptr<lpaggreg::OPartition> p) { Res r = common(p); for (auto x : p->getParts()) { Part y; y.h = 0; y.s = x.getStart(); y.e = x.getEnd(); y.size = x.getSize(); y.hs = 1; y.g = x.getQuality()->getGain(); y.l = x.getQuality()->getLoss(); r.parts.push_back(y); } return r; }
inline Res conv(shared_ptr<lpaggreg::HPartition> p) { Res r = common(p); for (auto x : p->getParts()) { Part y; y.h = x.getH(); y.size = x.getSize(); y.hs = y.size; y.g = x.getQuality()->getGain(); y.l = x.getQuality()->getLoss(); r.parts.push_back(y); } return r; }
inline Res conv(shared_ptr<lpaggreg::DPartition> p) { Res r = common(p); for (auto x : p->getParts()) { Part y; y.h = x.getH(); y.hs = x.getHSize(); y.os = x.getOSize(); y.s = x.getStart(); y.e = x.getEnd(); y.size = x.getSize(); y.g = x.getQuality()->getGain(); y.l = x.getQuality()->getLoss(); r.parts.push_back(y); } return r; }

typedef lpaggreg::UpperTriangularMatrix<shared_ptr<lpaggreg::Quality>> QMat;
inline shared_ptr<QMat> qmat(const vector<vector<Q>> &t, int n) {
    auto m = shared_ptr<QMat>(new QMat(n));
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) (*m)(i, j, shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality((lp_quality_type)t[i][j].g, (lp_quality_type)t[i][j].l)));
    return m;
}

template <class PART, class PARTN> struct Base : Pipe {
    shared_ptr<PART> part;
    Res best(float p) override { return conv(part->computeBestPartition(p)); }
    void sweep(float th) override { part->computeBestPartitions(th); }
    void sweep(float th, float a, float b) override { part->computeBestPartitions(th, a, b); }
    vector<float> plist() override { return part->getPList(); }
    map<float, Res> partitions() override { map<float, Res> r; for (auto &x : part->getPartitions()) { if (!x.second) throw mc::Violation("a listed parameter has no partition"); r[x.first] = conv(x.second); } return r; }
    map<float, Q> qlist() override { map<float, Q> r; for (auto &x : part->getQualityList()) { if (!x.second) throw mc::Violation("a listed parameter has no quality"); r[x.first] = Q(x.second->getGain(), x.second->getLoss()); } return r; }
    float getP(int s) override { return part->getP(s); }
    float auc() override { return part->computeAUC(); }
    shared_ptr<PARTN> raw(float p) { return part->computeBestPartition(p); }
};

struct OPipe : Base<lpaggreg::OPartitioner, lpaggreg::OPartition> {
    shared_ptr<lpaggreg::OQualities> q; shared_ptr<lpaggreg::OValues> v; shared_ptr<lpaggreg::OValuesN1> v1; shared_ptr<lpaggreg::OValuesN2> v2;
    OPipe(const Inst &I) {
        if (I.vals.empty()) q.reset(new lpaggreg::OQualities(qmat(I.tab[0], I.n)));
        else {
            if (I.vals.size() == 1) v = v1 = shared_ptr<lpaggreg::OValuesN1>(new lpaggreg::OValuesN1(I.vals[0][0]));
            else { vector<vector<double>> x; for (auto &c : I.vals) x.push_back(c[0]); v = v2 = shared_ptr<lpaggreg::OValuesN2>(new lpaggreg::OValuesN2(x)); }
            q.reset(new lpaggreg::OQualities(v));
        }
    }
    void compute() override { q->computeQualities(); }
    void normalize() override { q->normalize(); }
    Q quality(int, int i, int j) override { auto x = (*q->getQualities())(i, j); return Q(x->getGain(), x->getLoss()); }
    unsigned qsize() override { return q->size(); }
    void partitioner() override { part.reset(new lpaggreg::OPartitioner(*q)); }
    void partitionerRaw() override { part.reset(new lpaggreg::OPartitioner(q->getQualities())); }
    vector<Row> rows() override { vector<Row> r; for (auto &t : part->getPartitionsTuples()) r.push_back(Row{std::get<0>(t), 0, std::get<2>(t) - std::get<1>(t) + 1, std::get<1>(t), std::get<2>(t), std::get<3>(t), std::get<4>(t)}); return r; }
    bool hasQualities() override { return (bool)q->getQualities(); }
    double value(int k, int, int o) override { return v1 ? (*v1)(o) : (*v2)(k, o); }
    void put(int k, int, int o, double x) override { if (v1) (*v1)(o, x); else (*v2)(k, o, x); }
    shared_ptr<lpaggreg::Quality> cell(int, int i, int j) override { return (*q->getQualities())(i, j); }
};
struct HPipe : Base<lpaggreg::HPartitioner, lpaggreg::HPartition> {
    shared_ptr<lpaggreg::HQualities> q; shared_ptr<lpaggreg::HValues> v; shared_ptr<lpaggreg::HValuesN1> v1; shared_ptr<lpaggreg::HValuesN2> v2;
    HPipe(const Inst &I) {
        if (I.vals.empty()) {
            auto t = shared_ptr<vector<shared_ptr<lpaggreg::Quality>>>(new vector<shared_ptr<lpaggreg::Quality>>());
            for (int h = 0; h < I.t.N; h++) t->push_back(shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality((lp_quality_type)I.tab[h][0][0].g, (lp_quality_type)I.tab[h][0][0].l)));
            q.reset(new lpaggreg::HQualities(t, lpaggreg::HValuesMetaData(I.t.L, I.t.par)));
        } else {
            if (I.vals.size() == 1) { vector<double> x; for (int a = 0; a < I.t.L; a++) x.push_back(I.vals[0][a][0]); v = v1 = shared_ptr<lpaggreg::HValuesN1>(new lpaggreg::HValuesN1(x, I.t.par)); }
            else { vector<vector<double>> x(I.t.L); for (int a = 0; a < I.t.L; a++) for (auto &c : I.vals) x[a].push_back(c[a][0]); v = v2 = shared_ptr<lpaggreg::HValuesN2>(new lpaggreg::HValuesN2(x, I.t.par)); }
            q.reset(new lpaggreg::HQualities(v));
        }
    }
    void compute() override { q->computeQualities(); }
    void normalize() override { q->normalize(); }
    Q quality(int h, int, int) override { auto x = (*q->getQualities())[h]; return Q(x->getGain(), x->getLoss()); }
    unsigned qsize() override { return q->size(); }
    void partitioner() override { part.reset(new lpaggreg::HPartitioner(*q)); }
    void partitionerRaw() override { part.reset(new lpaggreg::HPartitioner(q->getQualities(), q->getMetaData())); }
    vector<Row> rows() override { vector<Row> r; for (auto &t : part->getPartitionsTuples()) r.push_back(Row{std::get<0>(t), std::get<1>(t), std::get<2>(t), 0, 0, std::get<3>(t), std::get<4>(t)}); return r; }
    bool hasQualities() override { return (bool)q->getQualities(); }
    double value(int k, int a, int) override { return v1 ? (*v1)(a) : (*v2)(a, k); }
    void put(int k, int a, int, double x) override { if (v1) (*v1)(a, x); else (*v2)(a, k, x); }
    shared_ptr<lpaggreg::Quality> cell(int h, int, int) override { return (*q->getQualities())[h]; }
};
struct DPipe : Base<lpaggreg::DPartitioner, lpaggreg::DPartition> {
    shared_ptr<lpaggreg::DQualities> q; shared_ptr<lpaggreg::DValues> v; shared_ptr<lpaggreg::DValuesN2> v2; shared_ptr<lpaggreg::DValuesN3> v3;
    DPipe(const Inst &I) {
        if (I.vals.empty()) {
            auto t = shared_ptr<vector<shared_ptr<QMat>>>(new vector<shared_ptr<QMat>>());
            for (int h = 0; h < I.t.N; h++) t->push_back(qmat(I.tab[h], I.n));
            q.reset(new lpaggreg::DQualities(t, lpaggreg::HValuesMetaData(I.t.L, I.t.par)));
        } else {
            if (I.vals.size() == 1) v = v2 = shared_ptr<lpaggreg::DValuesN2>(new lpaggreg::DValuesN2(I.vals[0], I.t.par));
            else { vector<vector<vector<double>>> x(I.t.L); for (int a = 0; a < I.t.L; a++) for (auto &c : I.vals) x[a].push_back(c[a]); v = v3 = shared_ptr<lpaggreg::DValuesN3>(new lpaggreg::DValuesN3(x, I.t.par)); }
            q.reset(new lpaggreg::DQualities(v));
        }
    }
    void compute() override { q->computeQualities(); }
    void normalize() override { q->normalize(); }
    Q quality(int h, int i, int j) override { auto x = (*(*q->getQualities())[h])(i, j); return Q(x->getGain(), x->getLoss()); }
    unsigned qsize() override { return q->size(); }
    void partitioner() override { part.reset(new lpaggreg::DPartitioner(*q)); }
    void partitionerRaw() override { part.reset(new lpaggreg::DPartitioner(q->getQualities(), q->getMetaData())); }
    vector<Row> rows() override { vector<Row> r; for (auto &t : part->getPartitionsTuples()) r.push_back(Row{std::get<0>(t), std::get<1>(t), std::get<2>(t), std::get<3>(t), std::get<4>(t), std::get<5>(t), std::get<6>(t)}); return r; }
    bool hasQualities() override { return (bool)q->getQualities(); }
    double value(int k, int a, int o) override { return v2 ? (*v2)(a, o) : (*v3)(a, k, o); }
    void put(int k, int a, int o, double x) override { if (v2) (*v2)(a, o, x); else (*v3)(a, k, o, x); }
    shared_ptr<lpaggreg::Quality> cell(int h, int i, int j) override { return (*(*q->getQualities())[h])(i, j); }
};
inline std::unique_ptr<Pipe> pipe(const Inst &I) {
    if (I.kind == 'O') return std::unique_ptr<Pipe>(new OPipe(I));
    if (I.kind == 'H') return std::unique_ptr<Pipe>(new HPipe(I));
    return std::unique_ptr<Pipe>(new DPipe(I));
}
// compute (if the instance has values), optionally normalise, build a partitioner
inline std::unique_ptr<Pipe> ready(const Inst &I, bool norm = false) { auto p = pipe(I); if (!I.exact()) p->compute(); if (norm) p->normalize(); p->partitioner(); return p; }

// ---- choice alphabets --------------------------------------------------------------------------
typedef vector<double> Alpha;
inline Inst blank(char kind, const Tree &t, int n) { Inst I; I.kind = kind; I.t = t; I.n = n; return I; }
inline void drawValues(Mc &m, Inst &I, int K, const Alpha &al) {
    I.vals.assign(K, vector<vector<double>>(I.t.L, vector<double>(I.n)));
    for (auto &c : I.vals) for (auto &a : c) for (auto &x : a) x = m.pick(al);
}
inline void drawTable(Mc &m, Inst &I, const vector<Q> &al, bool microZero) {
    I.alloc();
    for (int h = 0; h < I.t.N; h++) for (int i = 0; i < I.n; i++) for (int j = i; j < I.n; j++) {
        if (microZero && h < I.t.L && i == j) continue;
        I.tab[h][i][j] = m.pick(al);
    }
}
// tables given by a small formula whose coefficients are enumerated: reaches large sizes
inline void formulaTable(Mc &m, Inst &I, int ca, int cb, int cc) {
    int a = m.choose(ca) + 1, b = m.choose(cb) + 1, c = m.choose(cc) + 2;
    I.alloc();
    for (int h = 0; h < I.t.N; h++) for (int i = 0; i < I.n; i++) for (int j = i; j < I.n; j++) {
        int x = (a * i + b * j + 3 * h + i * j) % (c + 3), y = (b * i + a * j * j + h + c) % (c + 2);
        int w = (j - i + 1) * I.t.size(h);
        I.tab[h][i][j] = w == 1 ? Q(0, 0) : Q(x + w, y + (w * (1 + (i + j) % 2)) / 2);
    }
}
// data: base value with one rectangle (leaf range x time range) of another value, and a lone spike
inline void blockValues(Mc &m, Inst &I, int K, const Alpha &al, bool spike) {
    double base = m.pick(al), alt = m.pick(al);
    int a0 = m.choose(I.t.L), a1 = a0 + m.choose(I.t.L - a0), o0 = m.choose(I.n), o1 = o0 + m.choose(I.n - o0);
    int sp = spike ? m.choose(I.t.L * I.n) : 0;
    I.vals.assign(K, vector<vector<double>>(I.t.L, vector<double>(I.n, base)));
    for (int k = 0; k < K; k++) {
        for (int a = a0; a <= a1; a++) for (int o = o0; o <= o1; o++) I.vals[k][a][o] = alt + k;
        if (spike) I.vals[k][sp % I.t.L][sp / I.t.L] += 7 + k;
    }
}
// exact values with zero loss etc. are not needed: generic deterministic non-constant data for large sizes
inline void waveValues(Mc &m, Inst &I, int K, int ca, int cb) {
    int a = m.choose(ca) + 1, b = m.choose(cb) + 2;
    I.vals.assign(K, vector<vector<double>>(I.t.L, vector<double>(I.n)));
    for (int k = 0; k < K; k++) for (int x = 0; x < I.t.L; x++) for (int o = 0; o < I.n; o++) I.vals[k][x][o] = ((a * o + b * x + k * 5 + (o / 3) * (x / 2)) % (b + 3)) * 0.5;
}
inline vector<float> pgrid(int d) { vector<float> r; for (int i = 0; i <= d; i++) r.push_back((float)i / d); return r; }
inline Tree oneLeaf() { return ref::single(); }
inline ld tol(const Inst &I) { return I.exact() ? 0 : 1e-10L * I.mag; }
inline string num(ld x) { std::ostringstream o; o.precision(18); o << x; return o.str(); }
} // namespace lp
