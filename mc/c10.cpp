// C10: datasets read back what was given or written, report their sizes, and flatten row-major.
#include "box.h"
using namespace box; using namespace gen;
static double pattern(int f, const Ix &i, const Box &b) {
    int a, k, o; b.coords(i, a, k, o); int x = (k * b.L() + a) * b.n() + o;
    return f == 0 ? 1 + x : f == 1 ? (x * 7 % 11) * 0.5 + (k % 3) : f == 2 ? (a == k % b.L() ? 3.0 + o : 0) : f == 3 ? 1.0 / (1 + x) : x % 5 == 4 ? 1e300 : x % 5 == 3 ? -1e-300 : -0.75 - x;
}
static void readAll(Mc &m, Box &b, std::function<double(const Ix &)> want, const char *when) {
    u64 h = 1;
    b.each([&](const Ix &i) {
        int a, k, o; b.coords(i, a, k, o); double x = b.get(i), y = b.flat(a, k, o), w = want(i); m.op(2);
        auto at = [&] { string s = b.name() + " " + when + " cell ("; for (int z : i) s += std::to_string(z) + " "; return s + ")"; };
        m.check(x == w, [&] { return at() + " reads " + num(x) + " instead of " + num(w); });
        m.check(y == w, [&] { return at() + " is " + num(y) + " in the flattened view (leaf " + std::to_string(a) + " component " + std::to_string(k) + " time " + std::to_string(o) + ") instead of " + num(w); });
        h = mc::mixs(h, num(x));
    });
    for (int a = 0; a < b.L(); a++) for (int k = 0; k < b.K(); k++) m.check(b.rowLength(a, k) == b.n(), [&] { return b.name() + " " + when + ": a component of the flattened view has " + std::to_string(b.rowLength(a, k)) + " elements"; });
    m.state(h);
}
static void sizes(Mc &m, Box &b) {
    m.op(2);
    m.check(b.vsize() == b.K(), [&] { return b.name() + ": getVsize() is " + std::to_string(b.vsize()) + " instead of " + std::to_string(b.K()); });
    m.check(b.osize() == b.n(), [&] { return b.name() + ": getOsize() is " + std::to_string(b.osize()) + " instead of " + std::to_string(b.n()); });
    string e = b.innerSizes(); m.check(e.empty(), [&] { return b.name() + ": " + e; });
    if (b.leafDim()) {
        auto md = b.h ? b.h->getMetaData() : b.d->getMetaData(); m.op();
        m.check(md.getLeaveSize() == b.L() && (int)md.getHsize() == b.t.N && md.getParents() == b.t.par && md.getRoot() == b.t.root, [&] { return b.name() + ": the hierarchy description is wrong"; });
    }
}
static vector<int> fewCells(int n) { return {0, 1, n / 2, n - 2, n - 1, std::min(n - 1, 128)}; }
int main(int c, char **v) {
    static vector<Tree> trees = {ref::single(), ref::label(ref::chain(2), 1), ref::label(ref::star(2), 0), ref::label("((()())())", 3), ref::label(ref::star(3), 0)};
    static vector<Tree> wideTrees = {ref::label(ref::star(2), 1), ref::label("((()())())", 3)};
    vector<Space> s;
    for (auto cl : classes()) for (int big = 0; big < 4; big++) {
        string n = string(1, cl.kind) + std::to_string(cl.nd) + (big == 1 ? "+" : big == 2 ? ".wide" : big ? ".wider" : ""); int C = big == 1 ? 5 : 3, T = big == 1 ? 5 : 3; if (big >= 2 && cl.kind == 'H' && cl.nd == 1) continue;
        auto draw = [=](Mc &m) { return big == 3 ? drawWide(m, cl.kind, cl.nd, {wideTrees[0]}, {130, 260}, 2, true) : big == 2 ? drawWide(m, cl.kind, cl.nd, wideTrees, {7, 9, 17, 33}, cl.nd == 4 ? 2 : 3, true) : drawShape(m, cl.kind, cl.nd, trees, C, T); };
        string bd = string(1, cl.kind) + "ValuesN" + std::to_string(cl.nd) + (big == 3 ? ", one dimension in {130,260} and the others at most 2, a few cells overwritten" : big == 2 ? ", one dimension in {7,9,17,33} and the others small, 2 hierarchies" : ", every component dimension up to " + std::to_string(C) + ", length up to " + std::to_string(T) + ", 5 hierarchies of 1-3 leaves");
        s.push_back({n + ".given", bd + ", built from values, 5 patterns (also negative and huge values), one cell then overwritten (every cell)", big == 1, [=](Mc &m) {
            Box b = draw(m); int f = m.choose(5); int cells = 1; for (int x : b.dim) cells *= x; int w = big == 3 ? fewCells(cells)[m.choose(6)] : m.choose(cells + 1);
            m.mine(); m.sample(b.name() + " pattern " + std::to_string(f));
            auto want = [&](const Ix &i) { return pattern(f, i, b); };
            byValues(b, want); m.op();
            sizes(m, b); readAll(m, b, want, "after construction");
            int x = 0; Ix target; b.each([&](const Ix &i) { if (x++ == w) target = i; });
            if (!target.empty()) { b.set(target, 999.25); m.op(); readAll(m, b, [&](const Ix &i) { return i == target ? 999.25 : want(i); }, "after one write"); sizes(m, b); }
            m.trace(); m.outcome(w * 7 + f);
        }});
        s.push_back({n + ".size", bd + ", built by size, one cell written (every cell), then all cells", big == 1, [=](Mc &m) {
            Box b = draw(m); int cells = 1; for (int x : b.dim) cells *= x; int w = big == 3 ? fewCells(cells)[m.choose(6)] : m.choose(cells);
            m.mine(); m.sample(b.name() + " write of cell " + std::to_string(w));
            bySize(b); m.op(); sizes(m, b); readAll(m, b, [](const Ix &) { return 0.0; }, "built by size");
            int x = 0; Ix target; b.each([&](const Ix &i) { if (x++ == w) target = i; });
            b.set(target, 42.5); m.op(); readAll(m, b, [&](const Ix &i) { return i == target ? 42.5 : 0.0; }, "after one write");
            if (w == 0) { b.each([&](const Ix &i) { b.set(i, pattern(0, i, b)); m.op(); }); readAll(m, b, [&](const Ix &i) { return pattern(0, i, b); }, "after writing every cell"); }
            sizes(m, b); m.trace(); m.outcome(w);
        }});
        s.push_back({n + ".flatten", bd + ", 4 patterns: qualities equal those of the flattened data", big == 1, [=](Mc &m) {
            Box b = draw(m); int f = m.choose(4); bool how = m.choose(2);
            m.mine(); m.sample(b.name() + " pattern " + std::to_string(f));
            auto want = [&](const Ix &i) { return pattern(f, i, b); };
            if (how) byValues(b, want); else { bySize(b); b.each([&](const Ix &i) { b.set(i, want(i)); m.op(); }); }
            Inst I = inst(b, want); auto P = pipe(I); P->compute(); m.op(3); I.fromValues();
            u64 h = 3;
            auto cmp = [&](int hh, int i, int j, Q x) {
                Q y = P->quality(hh, i, j), z = I.tab[hh][i][j]; m.op();
                m.check(near(x.g, y.g, 1e-12L, 1e-12L) && near(x.l, y.l, 1e-12L, 1e-12L), [&] { return b.name() + ": node " + std::to_string(hh) + " interval " + std::to_string(i) + "-" + std::to_string(j) + " has gain " + num(x.g) + " loss " + num(x.l) + ", but " + num(y.g) + "," + num(y.l) + " when the same data is given flattened"; });
                m.check(near(x.g, z.g, 1e-9L, 1e-9L) && near(x.l, z.l, 1e-9L, 1e-9L), [&] { return b.name() + ": node " + std::to_string(hh) + " interval " + std::to_string(i) + "-" + std::to_string(j) + " has gain " + num(x.g) + " loss " + num(x.l) + ", by definition " + num(z.g) + "," + num(z.l); });
                h = mc::mix(h, (u64)(x.g * 1000));
            };
            auto q = [](shared_ptr<lpaggreg::Quality> x) { return Q(x->getGain(), x->getLoss()); };
            if (b.o) { lpaggreg::OQualities Z(b.o); Z.computeQualities(); for (int i = 0; i < b.n(); i++) for (int j = i; j < b.n(); j++) cmp(0, i, j, q((*Z.getQualities())(i, j))); }
            else if (b.h) { lpaggreg::HQualities Z(b.h); Z.computeQualities(); for (int a = 0; a < b.t.N; a++) cmp(a, 0, 0, q((*Z.getQualities())[a])); }
            else { lpaggreg::DQualities Z(b.d); Z.computeQualities(); for (int a = 0; a < b.t.N; a++) for (int i = 0; i < b.n(); i++) for (int j = i; j < b.n(); j++) cmp(a, i, j, q((*(*Z.getQualities())[a])(i, j))); }
            readAll(m, b, want, "after computing qualities");
            m.op(2); m.state(h); m.outcome(h); m.trace();
        }});
    }
    return mc::run(c, v, s);
}
