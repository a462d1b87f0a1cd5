// Stand-in for the part of Rcpp and Armadillo an R wrapper needs: vectors share their storage, as R's do.
#pragma once
#include <cstring>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <list>
#include <tuple>
#include <algorithm>
#include <iostream>
#include <cmath>
namespace Rcpp {
struct Val;
template <class T> struct Vec {
    std::shared_ptr<std::vector<T>> d; std::shared_ptr<std::map<std::string, std::vector<int>>> at_;
    Vec() : d(new std::vector<T>()), at_(new std::map<std::string, std::vector<int>>()) {}
    explicit Vec(long n, T x = T()) : Vec() { d->assign(n, x); }
    explicit Vec(int n, T x = T()) : Vec() { d->assign(n, x); }
    explicit Vec(unsigned n, T x = T()) : Vec() { d->assign(n, x); }
    explicit Vec(unsigned long n, T x = T()) : Vec() { d->assign(n, x); }
    template <class I> Vec(I a, I b) : Vec() { d->assign(a, b); }
    Vec(const std::vector<T> &v) : Vec() { *d = v; }
    Vec(const std::vector<int> &v, int) : Vec() { d->assign(v.begin(), v.end()); }
    static Vec create() { return Vec(); }
    T &operator[](long i) { return d->at(i); } const T &operator[](long i) const { return d->at(i); }
    T &operator()(long i) { return d->at(i); } const T &operator()(long i) const { return d->at(i); }
    T &at(long i) { return d->at(i); }
    long size() const { return (long)d->size(); } long length() const { return size(); }
    T *begin() { return d->data(); } T *end() { return d->data() + d->size(); } const T *begin() const { return d->data(); } const T *end() const { return d->data() + d->size(); }
    void push_back(T x) { d->push_back(x); }
    Vec &operator=(const std::vector<T> &v) { *this = Vec(v); return *this; }
    struct Attr { const Vec &v; std::string k; template <class U> operator Vec<U>() const { Vec<U> r; for (int x : v.at_->at(k)) r.push_back((U)x); return r; } operator std::vector<int>() const { return v.at_->at(k); } void operator=(const std::vector<int> &x) { (*v.at_)[k] = x; } };
    Attr attr(const std::string &k) const { return Attr{*this, k}; }
};
typedef Vec<double> NumericVector; typedef Vec<int> IntegerVector; typedef Vec<std::string> CharacterVector;
template <class T> Vec<T> clone(const Vec<T> &v) { Vec<T> r(*v.d); *r.at_ = *v.at_; return r; }
// any R object: scalar, vector or named list
struct Val {
    std::vector<double> num; std::vector<std::pair<std::string, Val>> list; bool isList = false;
    Val() {}
    Val(double x) : num(1, x) {}
    template <class T> Val(const Vec<T> &v) : num(v.begin(), v.end()) {}
    template <class T> Val(const std::vector<T> &v) : num(v.begin(), v.end()) {}
    const Val &operator[](const std::string &k) const { const Val *r = nullptr; for (auto &x : list) if (x.first == k) { if (r) throw std::out_of_range("two columns " + k); r = &x.second; } if (!r) throw std::out_of_range("no column " + k); return *r; }
    operator double() const { return num.at(0); }
};
}
struct SEXP { double x; SEXP(double y = 0) : x(y) {} operator double() const { return x; } };
namespace Rcpp {
template <class T> T as(const SEXP &s) { return (T)s.x; }
template <class T> std::vector<T> as(const Vec<T> &v) { return *v.d; }
template <class C, class T> C as(const Vec<T> &v) { return C(v.begin(), v.end()); }
struct Bound { std::string n; Val v; };
struct Named { std::string n; Named(const std::string &s) : n(s) {} template <class T> Named(const std::string &, const T &); template <class T> Bound operator=(const T &x) const { return Bound{n, Val(x)}; } };
struct Holder { Named operator[](const std::string &s) const { return Named(s); } };
static const Holder _ __attribute__((unused)) = Holder();
template <class V> Val wrap(const V &v) { return Val(v); }
struct Made : Val {
    Made() { isList = true; }
    static void put(Val &) {}
    template <class... A> static void put(Val &r, const Bound &b, const A &...a) { r.list.push_back(std::make_pair(b.n, b.v)); put(r, a...); }
    template <class... A> static void put(Val &r, const Val &v, const A &...a) { r.list.push_back(std::make_pair(std::string(), v)); put(r, a...); }
};
struct List : Made { List() {} List(const Val &v) { static_cast<Val &>(*this) = v; } template <class... A> static List create(const A &...a) { List r; put(r, a...); return r; }
    struct Slot { List &l; std::string k; template <class T> void operator=(const T &x) { for (auto &e : l.list) if (e.first == k) { e.second = Val(x); return; } l.list.push_back(std::make_pair(k, Val(x))); } }; Slot operator[](const std::string &k) { return Slot{*this, k}; } };
struct DataFrame : Made { DataFrame() {} DataFrame(const Val &v) { static_cast<Val &>(*this) = v; }
    template <class... A> static DataFrame create(const A &...a) { DataFrame r; put(r, a...); size_t n = 0; bool f = true; for (auto &c : r.list) { if (!f && c.second.num.size() != n) throw std::runtime_error("columns of different lengths"); n = c.second.num.size(); f = false; } return r; } };
static std::ostream &Rcout __attribute__((unused)) = std::cout;
}
namespace arma {
typedef unsigned long long uword;
struct cube {
    std::vector<double> own; double *p; uword n_rows, n_cols, n_slices;
    cube(double *q, uword r, uword c, uword s, bool copy = true, bool = false) : p(q), n_rows(r), n_cols(c), n_slices(s) { if (copy) { own.assign(q, q + r * c * s); p = own.data(); } }
    cube(const cube &) = delete;
    double &operator()(uword i, uword j, uword k) { if (i >= n_rows || j >= n_cols || k >= n_slices) throw std::out_of_range("Cube::operator(): index out of bounds"); return p[i + n_rows * (j + n_cols * k)]; }
    double &at(uword i, uword j, uword k) { return (*this)(i, j, k); }
};
}
