// The C++ code of R/lpaggreg.R (extracted into r_src.inc), called the way R calls it.
#include "r_src.inc"
#include "c26.h"
static Rcpp::NumericVector arr(const RCall &c) { Rcpp::NumericVector v(c.data); v.attr("dim") = std::vector<int>(c.dim, c.dim + 3); return v; }
static void copy(const Rcpp::Val &f, std::map<std::string, std::vector<double>> &to) { for (auto &c : f.list) { if (to.count(c.first)) throw std::runtime_error("two columns " + c.first); to[c.first] = c.second.num; } }
RResult callR(const RCall &c) {
    Rcpp::NumericVector a = arr(c), h(c.hier); Rcpp::List l;
    if (c.kind == 'O') l = oaggregate(a, SEXP(c.th)); else if (c.kind == 'H') l = haggregate(a, h, SEXP(c.th)); else l = daggregate(a, h, SEXP(c.th));
    const Rcpp::Val &v = l; RResult r;
    copy(v["Partitions"], r.parts); copy(v["Qualities"], r.quals); r.popt = v["POpt"]; r.auc = v["AUC"]; r.unchanged = *a.d == c.data && *h.d == c.hier && a.at_->at("dim") == std::vector<int>(c.dim, c.dim + 3);
    return r;
}
