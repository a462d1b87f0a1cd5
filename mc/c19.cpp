// C19: the description of the hierarchy is right for every tree and numbering.
#include "gens.h"
using namespace gen;
static void body(Mc &m, const Tree &t, bool onlyDescription = false) {
    lpaggreg::HValuesMetaData md(t.L, t.par); m.op();
    for (int pass = 0; pass < 2; pass++) {
        auto fail = [&](const string &s) { m.fail(s + " for " + t.str().substr(0, 2000)); };
        if (md.getRoot() != t.root) fail("root is " + std::to_string(md.getRoot()) + " instead of " + std::to_string(t.root));
        if (md.getLeaveSize() != t.L) fail("wrong leaf count"); if ((int)md.getHsize() != t.N) fail("wrong node count"); if (md.getParents() != t.par) fail("wrong parents");
        auto ch = md.getChildren(); auto sz = md.getSize(); auto path = md.getPath(); m.op(7);
        if ((int)ch.size() != t.N) fail("children lists for " + std::to_string(ch.size()) + " nodes");
        for (int v = 0; v < t.N; v++) {
            auto c = ch[v]; std::sort(c.begin(), c.end()); auto k = t.kids[v]; std::sort(k.begin(), k.end());
            if (c != k) fail("wrong children of node " + std::to_string(v));
            if (!sz.count(v) || sz[v] != t.size(v)) fail("node " + std::to_string(v) + " is said to have " + std::to_string(sz.count(v) ? sz[v] : -1) + " leaves instead of " + std::to_string(t.size(v)));
        }
        if ((int)sz.size() != t.N) fail("sizes of unknown nodes");
        if ((int)path.size() != t.N) fail("the traversal has " + std::to_string(path.size()) + " nodes");
        vector<int> rank(t.N, -1);
        for (int i = 0; i < t.N; i++) { int v = path[i]; if (v < 0 || v >= t.N || rank[v] >= 0) fail("node " + std::to_string(v) + " is repeated or unknown in the traversal"); rank[v] = i; if ((i < t.L) != (v < t.L)) fail("the traversal does not start with the leaves"); }
        for (int v = 0; v < t.N; v++) if (t.par[v] >= 0 && rank[t.par[v]] < rank[v]) fail("node " + std::to_string(v) + " comes after its parent in the traversal");
        u64 h = 5; for (int x : path) h = mc::mix(h, x); m.state(h); m.outcome(h);
        if (pass == 0 && onlyDescription) md = lpaggreg::HValuesMetaData(md); else if (pass == 0) { // the same description through the dataset classes
            lpaggreg::HValuesN1 hv(t.L, t.par); lpaggreg::DValuesN2 dv(t.L, 2u, t.par); m.op(2);
            auto a = hv.getMetaData(), b = dv.getMetaData();
            if (a.getPath() != path || b.getPath() != path || a.getSize() != sz || b.getSize() != sz || a.getChildren() != ch || b.getChildren() != ch || a.getRoot() != t.root || b.getRoot() != t.root) fail("a dataset describes the hierarchy differently");
            auto hvp = shared_ptr<lpaggreg::HValues>(new lpaggreg::HValuesN1(hv)); auto dvp = shared_ptr<lpaggreg::DValues>(new lpaggreg::DValuesN2(dv));
            lpaggreg::HQualities hq(hvp); lpaggreg::DQualities dq(dvp); hq.computeQualities(); dq.computeQualities(); lpaggreg::HPartitioner hp(hq); lpaggreg::DPartitioner dp(dq);
            auto pa = hp.computeBestPartition(0.5f); auto pb = dp.computeBestPartition(0.5f); m.op(6);
            lpaggreg::HValuesMetaData all[] = {hq.getMetaData(), dq.getMetaData(), pa->getMetaData(), pb->getMetaData()}; m.op(4);
            for (auto &x : all) if (x.getPath() != path || x.getSize() != sz || x.getChildren() != ch || x.getParents() != t.par || x.getRoot() != t.root || x.getLeaveSize() != t.L || (int)x.getHsize() != t.N) fail("qualities or partitions describe the hierarchy differently");
            md = lpaggreg::HValuesMetaData(a);
        }
    }
    m.trace();
}
int main(int c, char **v) {
    vector<Space> s;
    auto labelled = [&](int L, int I, bool th) {
        s.push_back({"labelled." + std::to_string(L) + "." + std::to_string(I), "every labelled tree with " + std::to_string(L) + " leaves and " + std::to_string(I) + " inner nodes", th, [=](Mc &m) { auto &ts = ref::allTrees(L, I); if (ts.empty()) throw mc::Reject(); const Tree &t = m.pick(ts); m.mine(); m.sample(t.str()); body(m, t); }});
    };
    for (int L = 1; L <= 5; L++) for (int I = 0; I <= (L == 1 ? 5 : L <= 3 ? 4 : L == 4 ? 3 : 2); I++) labelled(L, I, false);
    labelled(4, 4, true); labelled(5, 3, true); labelled(6, 2, true); labelled(2, 5, true);
    auto list = [&](const string &n, const string &b, bool th, std::function<vector<Tree>()> f) { s.push_back({n, b, th, [=](Mc &m) { static map<string, vector<Tree>> memo; auto &ts = memo[n]; if (ts.empty()) ts = f(); const Tree &t = m.pick(ts); m.mine(); m.sample(t.str()); body(m, t); }}); };
    for (int L = 5; L <= 9; L++) list("shapes." + std::to_string(L), "every shape with " + std::to_string(L) + " leaves, 6 numberings", L > 8, [=] { return ref::labelled(L, false, L, {0, 1, 2, 3, 4, 5}); });
    for (int L = 1; L <= 6; L++) list("unary." + std::to_string(L), "every shape with unary nodes, " + std::to_string(L) + " leaves, depth <= 4 (3 for >4 leaves), 6 numberings", L > 5, [=] { return ref::labelled(L, true, L > 4 ? 3 : 4, {0, 1, 2, 3, 4, 5}); });
    list("big", "large trees: stars of 40, caterpillars of depth 12, binary 32, chains of 12, mixed", false, [] { return bigTrees(); });
    list("large", "trees of 130-300 nodes: stars, binary, caterpillars of depth 70, chain of 130, groups", false, [] { return largeTrees(); });
    list("huge", "trees of 500-1050 nodes: stars, binary, depth 300 and 600, groups", false, [] { return hugeTrees(); });
    s.push_back({"giant", "trees of 33000-70000 nodes: a star next to a leaf, groups, binary, chain of 2000 (description only)", false, [](Mc &m) {
        int k = m.choose(6); m.mine(); string g;
        for (int i = 0; i < 6000; i++) g += ref::star(i % 9 + 1);
        Tree t = ref::label(k == 0 ? "(" + ref::star(33000) + "())" : k == 1 ? "(" + ref::star(66000) + "())" : k == 2 ? "(" + g + ")" : k == 3 ? ref::binary(15) : k == 4 ? ref::chain(2000) : "(()" + ref::star(40000) + ref::star(300) + ")", k % 2);
        m.sample("giant " + std::to_string(k)); body(m, t, true);
    }});
    return mc::run(c, v, s);
}
