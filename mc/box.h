// The eleven dataset classes behind one interface, for every shape.
#pragma once
#include "gens.h"
namespace box {
using namespace lp;
typedef vector<int> Ix;
typedef vector<double> V1; typedef vector<V1> V2; typedef vector<V2> V3; typedef vector<V3> V4;
struct Box {
    char kind; int nd;                    // O/H/D and number of dimensions of the class
    Tree t; Ix dim;                       // all dimensions in argument order
    shared_ptr<lpaggreg::OValues> o; shared_ptr<lpaggreg::HValues> h; shared_ptr<lpaggreg::DValues> d;
    shared_ptr<lpaggreg::OValuesN1> o1; shared_ptr<lpaggreg::OValuesN2> o2; shared_ptr<lpaggreg::OValuesN3> o3; shared_ptr<lpaggreg::OValuesN4> o4;
    shared_ptr<lpaggreg::HValuesN1> h1; shared_ptr<lpaggreg::HValuesN2> h2; shared_ptr<lpaggreg::HValuesN3> h3; shared_ptr<lpaggreg::HValuesN4> h4;
    shared_ptr<lpaggreg::DValuesN2> d2; shared_ptr<lpaggreg::DValuesN3> d3; shared_ptr<lpaggreg::DValuesN4> d4;
    bool leafDim() const { return kind != 'O'; }
    bool timeDim() const { return kind != 'H'; }
    Ix comps() const { return Ix(dim.begin() + leafDim(), dim.end() - timeDim()); }
    int K() const { int k = 1; for (int x : comps()) k *= x; return k; }
    int L() const { return leafDim() ? dim[0] : 1; }
    int n() const { return timeDim() ? dim.back() : 1; }
    string name() const { string s = string(1, kind) + "ValuesN" + std::to_string(nd) + "["; for (int x : dim) s += std::to_string(x) + " "; return s + "]" + (leafDim() ? " " + t.str() : ""); }
    template <class F> void each(F f) const { Ix i(dim.size(), 0); while (true) { f((const Ix &)i); int k = (int)dim.size() - 1; while (k >= 0 && ++i[k] == dim[k]) i[k--] = 0; if (k < 0) return; } }
    // leaf, flattened component (row major), time of a cell
    void coords(const Ix &i, int &a, int &k, int &o) const { a = leafDim() ? i[0] : 0; o = timeDim() ? i.back() : 0; k = 0; Ix c = comps(); for (size_t x = 0; x < c.size(); x++) k = k * c[x] + i[x + leafDim()]; }
    double get(const Ix &i) {
        if (o1) return (*o1)(i[0]); if (o2) return (*o2)(i[0], i[1]); if (o3) return (*o3)(i[0], i[1], i[2]); if (o4) return (*o4)(i[0], i[1], i[2], i[3]);
        if (h1) return (*h1)(i[0]); if (h2) return (*h2)(i[0], i[1]); if (h3) return (*h3)(i[0], i[1], i[2]); if (h4) return (*h4)(i[0], i[1], i[2], i[3]);
        if (d2) return (*d2)(i[0], i[1]); if (d3) return (*d3)(i[0], i[1], i[2]); return (*d4)(i[0], i[1], i[2], i[3]);
    }
    void set(const Ix &i, double v) {
        if (o1) (*o1)(i[0], v); else if (o2) (*o2)(i[0], i[1], v); else if (o3) (*o3)(i[0], i[1], i[2], v); else if (o4) (*o4)(i[0], i[1], i[2], i[3], v);
        else if (h1) (*h1)(i[0], v); else if (h2) (*h2)(i[0], i[1], v); else if (h3) (*h3)(i[0], i[1], i[2], v); else if (h4) (*h4)(i[0], i[1], i[2], i[3], v);
        else if (d2) (*d2)(i[0], i[1], v); else if (d3) (*d3)(i[0], i[1], i[2], v); else (*d4)(i[0], i[1], i[2], i[3], v);
    }
    double flat(int a, int k, int t) { if (o) return (*o)[k][t]; if (h) return (*h)[a][k]; return (*d)[a][k][t]; }
    // what the flattened view returns for one component must be a complete row
    int rowLength(int a, int k) { if (o) return (int)(*o)[k].size(); if (d) return (int)(*d)[a][k].size(); return 1; }
    int vsize() { return o ? o->getVsize() : h ? h->getVsize() : d->getVsize(); }
    int osize() { return o ? o->getOsize() : h ? 1 : d->getOsize(); }
    string innerSizes() {       // getI/getJ/getK
        Ix c = comps(); Ix g;
        if (o3) g = {(int)o3->getI(), (int)o3->getJ()}; else if (o4) g = {(int)o4->getI(), (int)o4->getJ(), (int)o4->getK()};
        else if (h3) g = {(int)h3->getI(), (int)h3->getJ()}; else if (h4) g = {(int)h4->getI(), (int)h4->getJ(), (int)h4->getK()};
        else if (d4) g = {(int)d4->getI(), (int)d4->getJ()}; else return "";
        return g == c ? "" : "component dimensions are reported wrongly";
    }
    template <class P> void bind(P p) { bindTo(p); }
    void bindTo(shared_ptr<lpaggreg::OValuesN1> p) { o = o1 = p; } void bindTo(shared_ptr<lpaggreg::OValuesN2> p) { o = o2 = p; } void bindTo(shared_ptr<lpaggreg::OValuesN3> p) { o = o3 = p; } void bindTo(shared_ptr<lpaggreg::OValuesN4> p) { o = o4 = p; }
    void bindTo(shared_ptr<lpaggreg::HValuesN1> p) { h = h1 = p; } void bindTo(shared_ptr<lpaggreg::HValuesN2> p) { h = h2 = p; } void bindTo(shared_ptr<lpaggreg::HValuesN3> p) { h = h3 = p; } void bindTo(shared_ptr<lpaggreg::HValuesN4> p) { h = h4 = p; }
    void bindTo(shared_ptr<lpaggreg::DValuesN2> p) { d = d2 = p; } void bindTo(shared_ptr<lpaggreg::DValuesN3> p) { d = d3 = p; } void bindTo(shared_ptr<lpaggreg::DValuesN4> p) { d = d4 = p; }
};
template <class T, class... A> shared_ptr<T> mk(A... a) { return shared_ptr<T>(new T(a...)); }
// the shape without any dataset
inline Box shape(char kind, int nd, const Tree &t, const Ix &dim) { Box b; b.kind = kind; b.nd = nd; b.t = t; b.dim = dim; return b; }
// constructed by sizes
inline void bySize(Box &b) {
    auto &d = b.dim; auto &p = b.t.par; typedef unsigned int u;
    if (b.kind == 'O') { if (b.nd == 1) b.bind(mk<lpaggreg::OValuesN1>((u)d[0])); else if (b.nd == 2) b.bind(mk<lpaggreg::OValuesN2>((u)d[0], (u)d[1])); else if (b.nd == 3) b.bind(mk<lpaggreg::OValuesN3>((u)d[0], (u)d[1], (u)d[2])); else b.bind(mk<lpaggreg::OValuesN4>((u)d[0], (u)d[1], (u)d[2], (u)d[3])); }
    else if (b.kind == 'H') { if (b.nd == 1) b.bind(mk<lpaggreg::HValuesN1>((u)d[0], p)); else if (b.nd == 2) b.bind(mk<lpaggreg::HValuesN2>((u)d[0], (u)d[1], p)); else if (b.nd == 3) b.bind(mk<lpaggreg::HValuesN3>((u)d[0], (u)d[1], (u)d[2], p)); else b.bind(mk<lpaggreg::HValuesN4>((u)d[0], (u)d[1], (u)d[2], (u)d[3], p)); }
    else { if (b.nd == 2) b.bind(mk<lpaggreg::DValuesN2>((u)d[0], (u)d[1], p)); else if (b.nd == 3) b.bind(mk<lpaggreg::DValuesN3>((u)d[0], (u)d[1], (u)d[2], p)); else b.bind(mk<lpaggreg::DValuesN4>((u)d[0], (u)d[1], (u)d[2], (u)d[3], p)); }
}
// constructed from given values
inline void byValues(Box &b, std::function<double(const Ix &)> f) {
    auto &d = b.dim; auto &p = b.t.par; int D = (int)d.size();
    auto e = [&](int x) { return x < D ? d[x] : 1; };
    V4 v(e(0), V3(e(1), V2(e(2), V1(e(3)))));
    b.each([&](const Ix &i) { v[i[0]][D > 1 ? i[1] : 0][D > 2 ? i[2] : 0][D > 3 ? i[3] : 0] = f(i); });
    V3 w3; V2 w2; V1 w1;
    for (auto &x : v) { V2 r; for (auto &y : x) { V1 s; for (auto &z : y) s.push_back(z[0]); r.push_back(s); } w3.push_back(r); }
    for (auto &x : w3) { V1 r; for (auto &y : x) r.push_back(y[0]); w2.push_back(r); }
    for (auto &x : w2) w1.push_back(x[0]);
    if (b.kind == 'O') { if (b.nd == 1) b.bind(mk<lpaggreg::OValuesN1>(w1)); else if (b.nd == 2) b.bind(mk<lpaggreg::OValuesN2>(w2)); else if (b.nd == 3) b.bind(mk<lpaggreg::OValuesN3>(w3)); else b.bind(mk<lpaggreg::OValuesN4>(v)); }
    else if (b.kind == 'H') { if (b.nd == 1) b.bind(mk<lpaggreg::HValuesN1>(w1, p)); else if (b.nd == 2) b.bind(mk<lpaggreg::HValuesN2>(w2, p)); else if (b.nd == 3) b.bind(mk<lpaggreg::HValuesN3>(w3, p)); else b.bind(mk<lpaggreg::HValuesN4>(v, p)); }
    else { if (b.nd == 2) b.bind(mk<lpaggreg::DValuesN2>(w2, p)); else if (b.nd == 3) b.bind(mk<lpaggreg::DValuesN3>(w3, p)); else b.bind(mk<lpaggreg::DValuesN4>(v, p)); }
}
// all shapes of a class: component dimensions up to C, time up to T, trees of the list
inline Box drawShape(Mc &m, char kind, int nd, const vector<Tree> &trees, int C, int T) {
    Ix dim; Tree t = ref::single();
    if (kind != 'O') { t = m.pick(trees); dim.push_back(t.L); }
    int nc = kind == 'D' ? nd - 2 : nd - 1;
    for (int i = 0; i < nc; i++) dim.push_back(1 + m.choose(C));
    if (kind != 'H') dim.push_back(1 + m.choose(T));
    return shape(kind, nd, t, dim);
}
// skewed shapes: one component dimension or the length much larger than the others
inline Box drawWide(Mc &m, char kind, int nd, const vector<Tree> &trees, const vector<int> &wide, int small, bool timeToo) {
    Ix dim; Tree t = ref::single();
    if (kind != 'O') { t = m.pick(trees); dim.push_back(t.L); }
    int nc = kind == 'D' ? nd - 2 : nd - 1, axes = nc + (kind != 'H' && timeToo), at = axes > 1 ? m.choose(axes) : 0, W = m.pick(wide);
    for (int i = 0; i < nc + (kind != 'H'); i++) dim.push_back(i == at && axes ? W : 1 + m.choose(small));
    return shape(kind, nd, t, dim);
}
struct Cls { char kind; int nd; };
inline const vector<Cls> &classes() { static vector<Cls> c = {{'O', 1}, {'O', 2}, {'O', 3}, {'O', 4}, {'H', 1}, {'H', 2}, {'H', 3}, {'H', 4}, {'D', 2}, {'D', 3}, {'D', 4}}; return c; }
// the same data as an instance of the reference model
inline Inst inst(Box &b, std::function<double(const Ix &)> f) {
    Inst I; I.kind = b.kind; I.t = b.t; I.n = b.n(); I.vals.assign(b.K(), V2(b.L(), V1(b.n())));
    b.each([&](const Ix &i) { int a, k, o; b.coords(i, a, k, o); I.vals[k][a][o] = f(i); });
    return I;
}
} // namespace box
