// C20: triangular tables keep every cell apart at every size.
#include "gens.h"
using namespace gen;
using lpaggreg::UpperTriangularMatrix; using lpaggreg::Quality; using lpaggreg::Tradeoff;
template <class T> struct El;
template <> struct El<int> { static int mk(int x) { return x + 1; } static bool eq(int a, int b) { return a == b; } static bool zero(int a) { return a == 0; } };
template <> struct El<double> { static double mk(int x) { return x + 0.5; } static bool eq(double a, double b) { return a == b; } static bool zero(double a) { return a == 0; } };
template <> struct El<lp_quality_type> { static lp_quality_type mk(int x) { return x + 0.25L; } static bool eq(lp_quality_type a, lp_quality_type b) { return a == b; } static bool zero(lp_quality_type a) { return a == 0; } };
template <> struct El<shared_ptr<Quality>> { typedef shared_ptr<Quality> T; static T mk(int x) { return T(new Quality(x + 1, x + 2)); } static bool eq(const T &a, const T &b) { return a == b; } static bool zero(const T &a) { return a && a->getGain() == 0 && a->getLoss() == 0; } };
template <> struct El<shared_ptr<Tradeoff>> { typedef shared_ptr<Tradeoff> T; static T mk(int x) { return T(new Tradeoff(x + 1, shared_ptr<Quality>(new Quality(x, x)))); } static bool eq(const T &a, const T &b) { return a == b; } static bool zero(const T &a) { return a && a->getValue() == 0 && a->getQuality() && a->getQuality()->getGain() == 0 && a->getQuality()->getLoss() == 0; } };
template <class T> static int id(const T &) { return 0; }
template <class T> struct IsPtr { static const bool v = false; }; template <class U> struct IsPtr<shared_ptr<U>> { static const bool v = true; };

template <class T> static void dims(Mc &m, UpperTriangularMatrix<T> &M, int n) {
    m.op(2); m.check(M.getSize() == n, [&] { return "getSize() is " + std::to_string(M.getSize()) + " for size " + std::to_string(n); });
    m.check(M.getElements() == (long long)n * (n + 1) / 2, [&] { return "getElements() is " + std::to_string(M.getElements()) + " for size " + std::to_string(n); });
}
// one write order: 0 rows, 1 columns backwards, 2 diagonals
template <class T> static void whole(Mc &m, int n, bool init, int order) {
    UpperTriangularMatrix<T> M = init ? UpperTriangularMatrix<T>(n, El<T>::mk(77)) : UpperTriangularMatrix<T>(n); m.op(); dims(m, M, n);
    T first = n && init ? M(0, 0) : T();
    std::set<const void *> ptrs;
    auto P = [](int i, int j) { return "(" + std::to_string(i) + "," + std::to_string(j) + ")"; };
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) {
        T x = M(i, j); m.op();
        if (!init) m.check(El<T>::zero(x), [&] { return "cell " + P(i, j) + " of a new table of size " + std::to_string(n) + " is not zero"; });
        else if (!IsPtr<T>::v) m.check(El<T>::eq(x, El<T>::mk(77)), [&] { return "cell " + P(i, j) + " of a table of size " + std::to_string(n) + " does not have the initial value"; });
        else m.check(El<T>::eq(x, first), [&] { return "cell " + P(i, j) + " of a table of size " + std::to_string(n) + " does not have the initial value"; });
        if constexpr (IsPtr<T>::v) if (!init) m.check(ptrs.insert(x.get()).second, [&] { return "cell " + P(i, j) + " of a new table of size " + std::to_string(n) + " shares its object with another cell"; });
    }
    vector<T> w(n * (n + 1) / 2); int c = 0; vector<std::pair<int, int>> seq;
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) seq.push_back({i, j});
    if (order == 1) std::reverse(seq.begin(), seq.end());
    if (order == 2) std::stable_sort(seq.begin(), seq.end(), [](auto &a, auto &b) { return a.second - a.first < b.second - b.first; });
    vector<vector<int>> at(n, vector<int>(n, -1));
    for (auto &x : seq) { w[c] = El<T>::mk(c); at[x.first][x.second] = c; M(x.first, x.second, w[c]); m.op(); c++; }
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { T x = M(i, j); m.op(); m.check(El<T>::eq(x, w[at[i][j]]), [&] { return "cell " + P(i, j) + " of a table of size " + std::to_string(n) + " does not read back what was written to it"; }); }
    vector<char> hit(w.size(), 0); map<T, int> back; for (size_t i = 0; i < w.size(); i++) back[w[i]] = (int)i;
    for (int r = 0; r < M.getElements(); r++) { T x = M[r]; m.op(); auto it = back.find(x); m.check(it != back.end() && !hit[it->second]++, [&] { return "rank " + std::to_string(r) + " of a table of size " + std::to_string(n) + " meets no cell or one already met"; }); }
    dims(m, M, n); m.state(mc::mix(n, order)); m.trace(); m.outcome(n);
}
// after one write, every other cell is unchanged
template <class T> static void isolate(Mc &m, int n, int a, int b) {
    UpperTriangularMatrix<T> M(n); m.op(); vector<T> before; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) before.push_back(M(i, j));
    T x = El<T>::mk(5); M(a, b, x); m.op(1 + before.size() * 2); int c = 0, diff = 0;
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++, c++) { T y = M(i, j); m.check(i == a && j == b ? El<T>::eq(y, x) : El<T>::eq(y, before[c]), [&] { return "writing cell (" + std::to_string(a) + "," + std::to_string(b) + ") of a table of size " + std::to_string(n) + " changed cell (" + std::to_string(i) + "," + std::to_string(j) + ")"; }); }
    for (int r = 0; r < M.getElements(); r++) diff += El<T>::eq(M[r], x); m.check(diff == 1, [&] { return "a written cell appears " + std::to_string(diff) + " times by rank"; });
    m.state(mc::mix(n, a * 1000 + b)); m.trace();
}
// tables whose number of cells is close to the largest an int can hold: every cell of some rows, columns and diagonals
static void huge(Mc &m, int n) {
    UpperTriangularMatrix<int> M(n); m.op(); dims(m, M, n);
    vector<std::pair<int, int>> seq; vector<int> at = {0, 1, n / 2, n - 2, n - 1};
    for (int a : at) for (int x = 0; x < n; x += 7) { if (x >= a) seq.push_back({a, x}); if (x <= a) seq.push_back({x, a}); if (x + a < n) seq.push_back({x, x + a}); }
    for (int a : at) for (int b : at) if (a <= b) seq.push_back({a, b});
    std::sort(seq.begin(), seq.end()); seq.erase(std::unique(seq.begin(), seq.end()), seq.end());
    auto P = [](std::pair<int, int> x) { return "(" + std::to_string(x.first) + "," + std::to_string(x.second) + ")"; };
    for (auto &x : seq) m.check(M(x.first, x.second) == 0, [&] { return "cell " + P(x) + " of a new table of size " + std::to_string(n) + " is not zero"; });
    int c = 0; for (auto &x : seq) M(x.first, x.second, ++c);
    c = 0; for (auto &x : seq) m.check(M(x.first, x.second) == ++c, [&] { return "cell " + P(x) + " of a table of size " + std::to_string(n) + " does not read back what was written to it"; });
    m.op(seq.size() * 3); m.state(n); m.trace(); m.outcome(n);
}
template <class T> static void kind(vector<Space> &s, const string &n) {
    auto sizes = [](int hi) { vector<int> r; for (int i = 0; i <= 72; i++) r.push_back(i); for (int x : {96, 100, 127, 128, 129, 180, 200, 255, 256, 257, 363}) if (x <= hi) r.push_back(x); if (hi > 400) for (int x : {400, 511, 512, 513, 1000, 1024, 1500}) r.push_back(x); return r; };
    s.push_back({n + ".whole", "sizes 0..72 and up to 363, every cell, 3 write orders, with and without initial value", false, [=](Mc &m) { static vector<int> z = sizes(400); int k = m.pick(z); bool i = m.choose(2); int o = m.choose(3); m.mine(); m.sample(n + " size " + std::to_string(k)); whole<T>(m, k, i, o); }});
    s.push_back({n + ".isolate", "sizes 1..16, every single write", false, [=](Mc &m) { int k = 1 + m.choose(16); int a = m.choose(k), b = a + m.choose(k - a); m.mine(); isolate<T>(m, k, a, b); }});
    s.push_back({n + ".whole+", "sizes up to 1500", true, [=](Mc &m) { static vector<int> z = sizes(1500); int k = m.pick(z); int o = m.choose(3); m.mine(); whole<T>(m, k, false, o); }});
    s.push_back({n + ".isolate+", "sizes 17..40, every single write", true, [=](Mc &m) { int k = 17 + m.choose(24); int a = m.choose(k), b = a + m.choose(k - a); m.mine(); isolate<T>(m, k, a, b); }});
}
int main(int c, char **v) {
    vector<Space> s;
    kind<int>(s, "int"); kind<double>(s, "double"); kind<lp_quality_type>(s, "quality_type"); kind<shared_ptr<Quality>>(s, "quality"); kind<shared_ptr<Tradeoff>>(s, "tradeoff");
    s.push_back({"int.huge", "tables of integers of sizes 8191, 16384, 32768 and 46341, every seventh cell of 5 rows, 5 columns and 5 diagonals", false, [=](Mc &m) { static vector<int> z = {8191, 16384, 32768, 46341}; int k = m.pick(z); m.mine(); m.sample("int size " + std::to_string(k)); huge(m, k); }});
    s.push_back({"int.huge+", "the same for sizes 46342 and 50000", true, [=](Mc &m) { static vector<int> z = {46342, 50000}; int k = m.pick(z); m.mine(); huge(m, k); }});
    return mc::run(c, v, s);
}
