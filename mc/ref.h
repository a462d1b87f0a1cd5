// Reference model. Deliberately naive and independent of the library: trees, covers, information
// theory straight from the definitions, brute force over all covers, and a plain recursive optimum.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace ref {
typedef long double ld;
struct Q { ld g, l; Q(ld g = 0, ld l = 0) : g(g), l(l) {} };

struct Tree {
    std::vector<int> par; int L = 0, N = 0, root = -1;
    std::vector<std::vector<int>> kids, leaves;
    std::vector<int> post;       // children before parents
    bool build(const std::vector<int> &p, int l) {   // false: not a tree with exactly the first l nodes as leaves
        par = p; L = l; N = (int)p.size(); root = -1; kids.assign(N, {}); leaves.assign(N, {}); post.clear();
        for (int v = 0; v < N; v++) { if (p[v] < 0) { if (root >= 0) return false; root = v; } else { if (p[v] == v) return false; kids[p[v]].push_back(v); } }
        if (root < 0) return false;
        for (int v = 0; v < N; v++) if ((v < L) != kids[v].empty()) return false;
        walk(root);
        return (int)post.size() == N;
    }
    void walk(int v) {
        if ((int)post.size() > N) return;
        if (kids[v].empty()) leaves[v] = {v};
        for (int c : kids[v]) { walk(c); leaves[v].insert(leaves[v].end(), leaves[c].begin(), leaves[c].end()); }
        std::sort(leaves[v].begin(), leaves[v].end());
        post.push_back(v);
    }
    int size(int v) const { return (int)leaves[v].size(); }
    std::string str() const { std::string s = "L=" + std::to_string(L) + " parents="; for (int x : par) s += std::to_string(x) + " "; return s; }
};
inline Tree single() { Tree t; t.build({-1}, 1); return t; }

// every labelled tree with L leaves (numbered first) and I inner nodes
inline const std::vector<Tree> &allTrees(int L, int I) {
    static std::map<std::pair<int, int>, std::vector<Tree>> memo;
    auto it = memo.find({L, I}); if (it != memo.end()) return it->second;
    std::vector<Tree> r; Tree t;
    if (I == 0) { if (L == 1) r.push_back(single()); return memo[{L, I}] = r; }
    std::vector<int> p(L + I, L);
    for (int root = L; root < L + I; root++) {
        std::vector<int> q(L + I, L); q[root] = -1;
        while (true) {
            if (t.build(q, L)) r.push_back(t);
            int k = 0;
            while (k < L + I && (k == root || ++q[k] == L + I)) { if (k != root) q[k] = L; k++; }
            if (k == L + I) break;
        }
    }
    return memo[{L, I}] = r;
}

// unlabelled shapes: nested parenthesis strings; "()" is a leaf
typedef std::string Shape;
inline void shapeRec(int L, bool unary, int depth, std::set<Shape> &out);
inline const std::set<Shape> &shapes(int L, bool unary, int depth) {
    static std::map<std::array<int, 3>, std::set<Shape>> memo;
    std::array<int, 3> key{L, unary, depth};
    auto it = memo.find(key); if (it != memo.end()) return it->second;
    std::set<Shape> s; shapeRec(L, unary, depth, s);
    return memo[key] = s;
}
// trees with L leaves and at most `depth` levels below the root; unary: inner nodes may have one child
inline void shapeRec(int L, bool unary, int depth, std::set<Shape> &out) {
    if (L == 1) out.insert("()");
    if (depth == 0) return;
    std::function<void(int, int, std::vector<Shape> &)> rec = [&](int left, int maxp, std::vector<Shape> &acc) {
        if (left == 0) {
            if (acc.size() == 1 && !unary) return;
            if (acc.empty()) return;
            std::vector<Shape> a = acc; std::sort(a.begin(), a.end());
            Shape s = "("; for (auto &x : a) s += x; out.insert(s + ")"); return;
        }
        for (int k = std::min(left, maxp); k >= 1; k--) {
            if (k == L && !unary) continue;
            for (auto &x : shapes(k, unary, depth - 1)) { acc.push_back(x); rec(left - k, k, acc); acc.pop_back(); }
        }
    };
    std::vector<Shape> acc; rec(L, L, acc);
}
// numbering: 0 natural (leaves left to right, inner nodes after their children, root last)
//            1 inner nodes before their children (root first), 2 leaves right to left, inner as 0
//            3 leaves odd then even, inner nodes before their children, 4 leaves by decreasing, 5 by increasing depth, inner as 0
inline Tree label(const Shape &s, int mode) {
    struct Nd { std::vector<int> k; int par, depth; }; std::vector<Nd> nd; std::vector<int> st, pre, leafs, postI, preI;
    for (char c : s) {
        if (c == '(') { int id = (int)nd.size(); nd.push_back({{}, st.empty() ? -1 : st.back(), (int)st.size()}); if (!st.empty()) nd[st.back()].k.push_back(id); st.push_back(id); pre.push_back(id); }
        else { int id = st.back(); st.pop_back(); if (nd[id].k.empty()) leafs.push_back(id); else postI.push_back(id); }
    }
    for (int v : pre) if (!nd[v].k.empty()) preI.push_back(v);
    if (mode == 2) std::reverse(leafs.begin(), leafs.end());
    if (mode == 3) { std::vector<int> a; for (size_t i = 1; i < leafs.size(); i += 2) a.push_back(leafs[i]); for (size_t i = 0; i < leafs.size(); i += 2) a.push_back(leafs[i]); leafs = a; }
    if (mode == 4) std::stable_sort(leafs.begin(), leafs.end(), [&](int a, int b) { return nd[a].depth > nd[b].depth; });
    if (mode == 5) std::stable_sort(leafs.begin(), leafs.end(), [&](int a, int b) { return nd[a].depth < nd[b].depth; });
    std::vector<int> &in = (mode == 1 || mode == 3) ? preI : postI;
    std::vector<int> num(nd.size()); int c = 0; for (int v : leafs) num[v] = c++; for (int v : in) num[v] = c++;
    std::vector<int> p(nd.size()); for (size_t v = 0; v < nd.size(); v++) p[num[v]] = nd[v].par < 0 ? -1 : num[nd[v].par];
    Tree t; if (!t.build(p, (int)leafs.size())) std::abort();
    return t;
}
inline std::vector<Tree> labelled(int L, bool unary, int depth, std::vector<int> modes) {
    std::vector<Tree> r; std::set<std::vector<int>> seen;
    for (auto &s : shapes(L, unary, depth)) for (int m : modes) { Tree t = label(s, m); if (seen.insert(t.par).second) r.push_back(t); }
    return r;
}
inline Shape star(int L) { Shape s = "("; for (int i = 0; i < L; i++) s += "()"; return s + ")"; }
inline Shape caterpillar(int L, bool left) { Shape s = "()"; for (int i = 1; i < L; i++) s = left ? "(" + s + "())" : "(()" + s + ")"; return s; }
inline Shape chain(int inner) { Shape s = "()"; for (int i = 0; i < inner; i++) s = "(" + s + ")"; return s; }
inline Shape binary(int levels) { Shape s = "()"; for (int i = 0; i < levels; i++) s = "(" + s + s + ")"; return s; }

// ---- information theory, from the definitions --------------------------------------------------
inline ld log2s(ld x) { return std::log2(x); }
inline Q info(const std::vector<double> &v) {       // one component of the micro values of one aggregate
    ld S = 0; for (double x : v) S += x;
    Q q;
    if (S <= 0) return q;
    ld n = (ld)v.size(), e = 0, d = 0;
    for (double x : v) if (x > 0) { e += (ld)x * log2s(x); d += (ld)x * log2s((ld)x * n / S); }
    q.g = S * log2s(S) - e; q.l = d;
    if (v.size() == 1) q = Q();
    return q;
}
inline ld magnitude(const std::vector<double> &v) { ld S = 0, m = 0; for (double x : v) S += x; for (double x : v) if (x > 0) m += x * (std::fabs(log2s(x)) + 1); if (S > 0) m += S * (std::fabs(log2s(S)) + log2s((ld)v.size()) + 1); return m; }

typedef std::vector<std::vector<std::vector<double>>> Cube;   // [component][leaf][time]

struct Part { int h = 0, hs = 1, s = 0, e = 0, size = 1, os = -1; ld g = 0, l = 0; };
inline bool same(const Part &a, const Part &b) { return a.h == b.h && a.s == b.s && a.e == b.e; }
struct Inst {
    char kind = 'O'; Tree t; int n = 1;
    Cube vals;                                              // empty: the instance is a table
    std::vector<std::vector<std::vector<Q>>> tab;           // [node][i][j]
    ld mag = 1;                                             // scale for tolerances of computed qualities
    std::vector<float> ps;                                  // parameters at which the best partition of this instance changes, if they are peculiar
    bool exact() const { return vals.empty(); }
    std::vector<double> cells(int k, int h, int i, int j) const { std::vector<double> c; for (int a : t.leaves[h]) for (int o = i; o <= j; o++) c.push_back(vals[k][a][o]); return c; }
    void alloc() { tab.assign(t.N, std::vector<std::vector<Q>>(n, std::vector<Q>(n))); }
    void fromValues() {
        alloc(); mag = 1e-300L;
        for (int h = 0; h < t.N; h++) for (int i = 0; i < n; i++) for (int j = i; j < n; j++) {
            Q q; for (size_t k = 0; k < vals.size(); k++) { auto c = cells((int)k, h, i, j); Q x = info(c); q.g += x.g; q.l += x.l; mag = std::max(mag, magnitude(c)); }
            tab[h][i][j] = q;
        }
    }
    void normalize() { Q r = tab[t.root][0][n - 1]; if (!(r.g > 1e-12L * mag)) r.g = 1; if (!(r.l > 1e-12L * mag)) r.l = 1; for (auto &a : tab) for (auto &b : a) for (auto &q : b) { q.g /= r.g; q.l /= r.l; } mag = std::max((ld)1, mag / r.g + mag / r.l); }
    std::string str() const {
        std::ostringstream o; o << kind << " n=" << n << " " << t.str();
        if (!vals.empty()) { o << "values[comp][leaf][time]="; for (auto &a : vals) { o << "{"; for (auto &b : a) { o << "("; for (double x : b) o << x << " "; o << ")"; } o << "}"; } }
        else { o << "table node:(i,j)=g/l "; for (int h = 0; h < t.N; h++) for (int i = 0; i < n; i++) for (int j = i; j < n; j++) o << h << ":(" << i << "," << j << ")=" << (double)tab[h][i][j].g << "/" << (double)tab[h][i][j].l << " "; }
        return o.str();
    }
};

struct Best { ld v = 0, g = 0, l = 0; };
inline ld pic(const Q &q, ld p) { return p * q.g - (1 - p) * q.l; }
inline bool better(const Best &a, const Best &b) { return a.v > b.v || (a.v == b.v && (a.g > b.g || (a.g == b.g && a.l < b.l))); }

// optimum over all covers, plain recursion over (node, interval); lexicographic (value, gain, -loss)
inline Best optimum(const Inst &I, ld p) {
    int n = I.n; std::vector<std::vector<Best>> b(I.t.N, std::vector<Best>(n * n));
    for (int h : I.t.post) for (int len = 1; len <= n; len++) for (int i = 0; i + len <= n; i++) {
        int j = i + len - 1; const Q &q = I.tab[h][i][j];
        Best x; x.v = pic(q, p); x.g = q.g; x.l = q.l;
        if (!I.t.kids[h].empty()) { Best y; for (int c : I.t.kids[h]) { Best &z = b[c][i * n + j]; y.v += z.v; y.g += z.g; y.l += z.l; } if (better(y, x)) x = y; }
        for (int c = i; c < j; c++) { Best &u = b[h][i * n + c], &w = b[h][(c + 1) * n + j]; Best y; y.v = u.v + w.v; y.g = u.g + w.g; y.l = u.l + w.l; if (better(y, x)) x = y; }
        b[h][i * n + j] = x;
    }
    return b[I.t.root][n - 1];
}

// all exact covers of leaves x time by (node x interval) blocks
struct Block { int h, s, e; };
typedef std::vector<Block> Cover;
inline const std::vector<Cover> &covers(const Tree &t, int n) {
    static std::map<std::pair<std::vector<int>, int>, std::vector<Cover>> memo;
    auto key = std::make_pair(t.par, n); auto it = memo.find(key); if (it != memo.end()) return it->second;
    std::vector<Cover> out; std::vector<char> used(t.L * n, 0); Cover cur;
    std::function<void()> rec = [&]() {
        int c = 0; while (c < t.L * n && used[c]) c++;
        if (c == t.L * n) { out.push_back(cur); return; }
        int time = c / t.L, leaf = c % t.L;
        for (int h = leaf; h >= 0; h = t.par[h]) for (int e = time; e < n; e++) {
            bool ok = true; for (int a : t.leaves[h]) for (int o = time; o <= e; o++) ok = ok && !used[o * t.L + a];
            if (!ok) break;
            for (int a : t.leaves[h]) for (int o = time; o <= e; o++) used[o * t.L + a] = 1;
            cur.push_back({h, time, e}); rec(); cur.pop_back();
            for (int a : t.leaves[h]) for (int o = time; o <= e; o++) used[o * t.L + a] = 0;
        }
    };
    rec();
    return memo[key] = out;
}
inline Best brute(const Inst &I, ld p) {
    Best b; bool first = true;
    for (auto &c : covers(I.t, I.n)) { Best x; for (auto &k : c) { const Q &q = I.tab[k.h][k.s][k.e]; x.g += q.g; x.l += q.l; x.v += pic(q, p); } if (first || better(x, b)) b = x; first = false; }
    return b;
}
// "" or what is wrong with the parts as a cover
inline std::string coverError(const Inst &I, const std::vector<Part> &ps) {
    std::vector<int> seen(I.t.L * I.n, 0);
    for (auto &p : ps) {
        if (p.h < 0 || p.h >= I.t.N) return "part with unknown node " + std::to_string(p.h);
        if (p.s < 0 || p.e >= I.n || p.s > p.e) return "part with bad interval " + std::to_string(p.s) + "-" + std::to_string(p.e);
        for (int a : I.t.leaves[p.h]) for (int o = p.s; o <= p.e; o++) if (seen[o * I.t.L + a]++) return "element (" + std::to_string(a) + "," + std::to_string(o) + ") covered twice";
    }
    for (size_t i = 0; i < seen.size(); i++) if (!seen[i]) return "element (" + std::to_string(i % I.t.L) + "," + std::to_string(i / I.t.L) + ") not covered";
    return "";
}
} // namespace ref
