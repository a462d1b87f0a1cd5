// C15: results do not depend on the history of calls. Every sequence of operations up to a depth, on one object or
// interleaved over two that share data, is run and each step compared with what a pristine process gives for it.
#include "gens.h"
#include <sys/wait.h>
using namespace gen;
static int N0;                           // instances; the twin of i is i+N0
static vector<Inst> insts;
static int twin(int i) { return i < N0 ? i + N0 : i - N0; }
static string hex(ld x) { char b[64]; snprintf(b, 64, "%La ", x); return b; }
static string ser(const Res &r) { string s = hex(r.p) + hex(r.g) + hex(r.l); for (auto &x : r.parts) s += "[" + std::to_string(x.h) + " " + std::to_string(x.hs) + " " + std::to_string(x.s) + " " + std::to_string(x.e) + " " + std::to_string(x.size) + " " + hex(x.g) + hex(x.l) + "]"; return s; }
enum { BEST1, BEST2, SWEEP1, SWEEP2, COMPUTE, NORMALIZE, AGGREGATE, READ, OPS, NORMKEEP = OPS, EDIT };
// NORMKEEP: normalise below the partitioner in use, which must go on with the new qualities
// EDIT: the data become those of the twin instance and the qualities are computed anew, with a new partitioner; a table is changed in place, below the partitioner in use
static const char *opn[] = {"best(0.25)", "best(0.75)", "sweep(0.01)", "sweep(0.1,0.5,1)", "compute+partitioner", "normalize+partitioner", "aggregate", "read", "normalize", "edit"};

struct Obj {                            // one object under test, of any kind
    Inst I; int id; virtual ~Obj() {}
    virtual Pipe &pipe() = 0;
    virtual string bestKeep(float p) = 0;       // keeps the partition returned
    virtual void keepSweep() = 0;
    virtual string aggregate() = 0;
    virtual string changed() = 0;               // an earlier result that has changed, or ""
    virtual void drop() = 0;
    virtual void few() = 0;                     // forgets all but some of the earlier results
    string qualities() { string s; for (int h = 0; h < I.t.N; h++) for (int i = 0; i < I.n; i++) for (int j = i; j < I.n; j++) { Q q = pipe().quality(h, i, j); s += hex(q.g) + hex(q.l); } return s; }
    string read() {
        Pipe &P = pipe(); string s; for (float p : P.plist()) s += hex(p); s += "|";
        for (auto &x : P.partitions()) s += hex(x.first) + ser(x.second); s += "|";
        for (auto &r : P.rows()) s += hex(r.p) + std::to_string(r.h) + " " + std::to_string(r.size) + " " + std::to_string(r.s) + " " + std::to_string(r.e) + " " + hex(r.g) + hex(r.l); s += "|";
        for (auto &x : P.qlist()) s += hex(x.first) + hex(x.second.g) + hex(x.second.l);
        return s + "|" + hex(P.getP(P_MIN)) + hex(P.getP(P_OPT)) + hex(P.getP(P_MAX)) + hex(P.auc());
    }
    bool dataIntact() { for (size_t k = 0; k < I.vals.size(); k++) for (int a = 0; a < I.t.L; a++) for (int o = 0; o < I.n; o++) if (pipe().value((int)k, a, o) != I.vals[k][a][o]) return false; return true; }
    // one step, as a string
    string step(int op) {
        Pipe &P = pipe();
        switch (op) {
        case BEST1: return bestKeep(0.25f);
        case BEST2: return bestKeep(0.75f);
        case SWEEP1: P.sweep(0.01f); keepSweep(); return read();
        case SWEEP2: P.sweep(0.1f, 0.5f, 1); keepSweep(); return read();
        case COMPUTE: P.compute(); P.partitioner(); return qualities();
        case NORMALIZE: P.normalize(); P.partitioner(); return qualities();
        case NORMKEEP: P.normalize(); return qualities();
        case EDIT: {
            id = twin(id); I = insts[id];
            for (size_t k = 0; k < I.vals.size(); k++) for (int a = 0; a < I.t.L; a++) for (int o = 0; o < I.n; o++) P.put((int)k, a, o, I.vals[k][a][o]);
            if (I.exact()) { for (int h = 0; h < I.t.N; h++) for (int i = 0; i < I.n; i++) for (int j = i; j < I.n; j++) P.putQuality(h, i, j, I.tab[h][i][j]); } else { P.compute(); P.partitioner(); }
            return qualities();
        }
        case AGGREGATE: return aggregate();
        default: return read();
        }
    }
};
template <class A> static string aggs(A a) { std::ostringstream o; o << std::hexfloat; for (auto &x : a->getAggregates()) { for (auto y : vector<double>(x.getSum())) o << y << " "; for (auto y : vector<double>(x.getMean())) o << y << " "; o << ";"; } return o.str(); }
template <class A> static string agg0(A a) { std::ostringstream o; o << std::hexfloat; for (auto &x : a->getAggregates()) o << x.getSum() << " " << x.getMean() << ";"; return o.str(); }
static string aggOf(OPipe &P, shared_ptr<lpaggreg::OPartition> p) { using namespace lpaggreg; if (P.v1) return agg0(shared_ptr<OAggregationN1>(new OAggregationN1(p, P.v1))); if (P.v2) return aggs(shared_ptr<OAggregationN2>(new OAggregationN2(p, P.v2))); return ""; }
static string aggOf(HPipe &P, shared_ptr<lpaggreg::HPartition> p) { using namespace lpaggreg; if (P.v1) return agg0(shared_ptr<HAggregationN1>(new HAggregationN1(p, P.v1))); if (P.v2) return aggs(shared_ptr<HAggregationN2>(new HAggregationN2(p, P.v2))); return ""; }
static string aggOf(DPipe &P, shared_ptr<lpaggreg::DPartition> p) { using namespace lpaggreg; if (P.v2) return agg0(shared_ptr<DAggregationN2>(new DAggregationN2(p, P.v2))); if (P.v3) return aggs(shared_ptr<DAggregationN3>(new DAggregationN3(p, P.v3))); return ""; }
template <class PIPE> struct ObjT : Obj {
    PIPE P; typedef decltype(P.raw(0.f)) PN; vector<std::pair<PN, string>> kept;
    ObjT(const Inst &i, int n) : P(i) { I = i; id = n; }
    Pipe &pipe() override { return P; }
    string bestKeep(float p) override { auto r = P.raw(p); string s = ser(conv(r)); kept.push_back({r, s}); return s; }
    void keepSweep() override { for (auto &x : P.part->getPartitions()) kept.push_back({x.second, ser(conv(x.second))}); }
    string aggregate() override { auto r = P.raw(0.5f); string s = ser(conv(r)) + aggOf(P, r); kept.push_back({r, ser(conv(r))}); return s; }
    string changed() override { for (auto &k : kept) { string s = ser(conv(k.first)); if (s != k.second) return "it was " + k.second + " and is now " + s; } return ""; }
    void drop() override { kept.clear(); }
    void few() override { if (kept.size() > 24) kept.erase(kept.begin() + 8, kept.end() - 8); }
};
template <class PIPE> static void share(Obj &a, Obj &b, bool qualities) {
    PIPE &x = static_cast<ObjT<PIPE> &>(a).P, &y = static_cast<ObjT<PIPE> &>(b).P;
    typedef typename std::decay<decltype(*x.q)>::type QS; auto own = y.q; y = x; y.part.reset();
    if (!qualities) { if (x.v) y.q = shared_ptr<QS>(new QS(x.v)); else y.q = own; }
}
static std::unique_ptr<Obj> make(const Inst &I, int id) {
    if (I.kind == 'O') return std::unique_ptr<Obj>(new ObjT<OPipe>(I, id)); if (I.kind == 'H') return std::unique_ptr<Obj>(new ObjT<HPipe>(I, id)); return std::unique_ptr<Obj>(new ObjT<DPipe>(I, id));
}
// ---- instances
static void values(char k, const Tree &t, int n, int K, vector<double> v) { Inst I = blank(k, t, n); size_t c = 0; I.vals.assign(K, vector<vector<double>>(t.L, vector<double>(n))); for (auto &x : I.vals) for (auto &y : x) for (auto &z : y) z = v[c++ % v.size()]; I.fromValues(); insts.push_back(I); }
static void tab(char k, const Tree &t, int n) { Inst I = blank(k, t, n); I.alloc(); for (int h = 0; h < t.N; h++) for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { int w = t.size(h) * (j - i + 1); if (w > 1) I.tab[h][i][j] = Q(2 * w + (3 * h + 2 * i + j) % 5 - (w == t.L * n ? 4 : 0), (w * (h + 2 * i + j)) % 5 + w / 2); } insts.push_back(I); }
static void twins() {                   // the same sizes and the same whole, other parts
    N0 = (int)insts.size();
    for (int x = 0; x < N0; x++) {
        Inst I = insts[x];
        if (I.exact()) { for (int h = 0; h < I.t.N; h++) for (int i = 0; i < I.n; i++) for (int j = i; j < I.n; j++) { int w = I.t.size(h) * (j - i + 1); if (w > 1 && w < I.t.L * I.n) { auto &q = I.tab[h][i][j]; q = Q(2 * w + (3 * h + 2 * i + j + 2) % 5, (w * (h + 2 * i + j) + 3) % 5); } } }
        else { for (auto &k : I.vals) { std::reverse(k.begin(), k.end()); for (auto &a : k) std::reverse(a.begin(), a.end()); } I.fromValues(); }
        insts.push_back(I);
    }
}
static void setup() {
    Tree o = oneLeaf(), s3 = ref::label(ref::star(3), 0), u3 = ref::label("((()())())", 3), b5 = ref::label("((()())(()()()))", 1), s2 = ref::label(ref::star(2), 1);
    values('O', o, 5, 1, {1, 1, 7, 0, 3}); values('O', o, 3, 2, {2, 5, 5, 0, 1, 9}); tab('O', o, 4); values('O', o, 4, 1, {1, 0, 3, 3});       // 0-3
    values('H', u3, 1, 1, {4, 1, 0.5}); values('H', b5, 1, 2, {2, 2, 9, 0, 1, 1, 3}); tab('H', b5, 1); values('H', s3, 1, 1, {1, 5, 5});         // 4-7
    values('D', u3, 2, 1, {1, 1, 4, 0, 2, 6}); values('D', s2, 3, 2, {3, 3, 1, 0, 8, 8, 2}); tab('D', s2, 2); values('D', s3, 2, 1, {5, 5, 1, 0, 1, 2}); // 8-11
    twins();
}
// ---- what a pristine process gives: [instance][normalised][op or read after sweep]
static map<std::array<int, 3>, string> gold;
static string pristine(std::function<string()> f) {
    int p[2]; if (pipe(p)) std::abort(); pid_t c = fork();
    if (!c) { close(p[0]); string s; try { s = f(); } catch (std::exception &e) { s = string("exception: ") + e.what(); } for (size_t i = 0; i < s.size();) { ssize_t n = write(p[1], s.data() + i, s.size() - i); if (n <= 0) break; i += n; } _exit(0); }
    close(p[1]); string r; char b[1 << 14]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) r.append(b, n); close(p[0]); int st; waitpid(c, &st, 0);
    return WIFEXITED(st) ? r : "died";
}
static void goldens() {
    for (int i = 0; i < (int)insts.size(); i++) for (int nm = 0; nm < 2; nm++) for (int op = 0; op < OPS; op++)
        gold[{i, nm, op}] = pristine([=] {
            auto x = make(insts[i], i);
            if (!insts[i].exact()) x->pipe().compute();
            if (nm) x->pipe().normalize();
            x->pipe().partitioner();
            if (op == COMPUTE || op == NORMALIZE) return x->qualities();
            return x->step(op);
        });
}
struct St { int norm = 0, sweep = READ; };   // sweep < 0: the sweep held is of the qualities before a normalisation
static string expect(const Obj &o, const St &s, int op) { if (op == NORMKEEP) op = NORMALIZE; if (op == EDIT) op = COMPUTE; return op == READ ? gold[{o.id, s.norm, s.sweep}] : gold[{o.id, s.norm, op}]; }
typedef vector<std::pair<int, int>> Seq;      // operations, and the objects they are on
static void play(Mc &m, const vector<int> &ids, int mode, const Seq &seq, const string &name = "") {
    int k = (int)ids.size();
    vector<std::unique_ptr<Obj>> x; for (int i : ids) x.push_back(make(insts[i], i));
    bool sharedQ = mode == 2;
    if (mode == 1 || mode == 2) { char c = x[0]->I.kind; if (c == 'O') share<OPipe>(*x[0], *x[1], sharedQ); else if (c == 'H') share<HPipe>(*x[0], *x[1], sharedQ); else share<DPipe>(*x[0], *x[1], sharedQ); }
    vector<St> st(k);
    for (int i = 0; i < k; i++) { if (!x[i]->I.exact()) x[i]->pipe().compute(); m.op(); }
    for (int i = 0; i < k; i++) x[i]->pipe().partitioner();
    string hist; u64 h = 3;
    for (auto &c : seq) {
        Obj &o = *x[c.second]; int op = c.first; bool norm = op == NORMALIZE || op == NORMKEEP, writes = op == COMPUTE || norm || op == EDIT;
        if (name.empty()) hist += string(" ") + (k > 1 ? c.second ? "B." : "A." : "") + opn[op]; else hist = name + ", up to operation " + std::to_string(&c - &seq[0] + 1) + ", " + opn[op];
        if (!name.empty()) for (auto &y : x) y->few();
        if (writes) for (int i = 0; i < k; i++) if (sharedQ || i == c.second) x[i]->drop();
        string got = o.step(op); m.op();
        if (op == EDIT) for (int i = 0; i < k; i++) if (sharedQ) { x[i]->id = o.id; x[i]->I = o.I; }
        for (int i = 0; i < k; i++) if (sharedQ || i == c.second) {
            if (norm) st[i].norm = 1; if (op == COMPUTE && !x[i]->I.exact()) st[i].norm = 0;
            if (op == EDIT) st[i].norm = 0;
            if (op == NORMKEEP || (op == EDIT && x[i]->I.exact())) { if (st[i].sweep != READ) st[i].sweep = -1; } else if (writes) { st[i].sweep = READ; if (i != c.second) x[i]->pipe().partitioner(); }
        }
        if (op == SWEEP1 || op == SWEEP2) st[c.second].sweep = op;
        bool stale = op == READ && st[c.second].sweep < 0;
        const string &want = stale ? got : expect(o, st[c.second], op);
        auto ctx = [&] { return " after" + hist + (mode == 1 ? " (sharing the dataset)" : mode == 2 ? " (sharing the qualities)" : "") + " on " + o.I.str().substr(0, 400) + (k > 1 ? " / " + x[1 - c.second]->I.str().substr(0, 400) : ""); };
        m.check(got == want, [&] { return string("the last step gives ") + got.substr(0, 500) + "\n  instead of " + want.substr(0, 500) + "\n " + ctx(); });
        for (int i = 0; i < k; i++) {
            m.check(x[i]->dataIntact(), [&] { return "the dataset has changed" + ctx(); });
            m.check(x[i]->qualities() == gold[{x[i]->id, st[i].norm, COMPUTE}], [&] { return string("the qualities have changed") + ctx(); });
            string e = x[i]->changed(); m.check(e.empty(), [&] { return "a result returned earlier has changed" + ctx() + ": " + e.substr(0, 600); });
            h = mc::mix(h, st[i].norm * 16 + st[i].sweep + 1); h = mc::mixs(h, std::to_string(std::hash<string>()(got)));
        }
        m.state(h);
    }
    m.sample(hist); m.trace(); m.outcome(h);
}
static void go(Mc &m, vector<int> ids, int mode, int depth, const vector<int> &ops) {
    int k = (int)ids.size(); Seq seq;
    for (int d = 0; d < depth; d++) { int o = k > 1 ? m.choose(k) : 0; seq.push_back({m.pick(ops), o}); }
    m.mine(); play(m, ids, mode, seq);
}
// long histories: x times one operation, then y times another, then each of all of them; or two in turn
static void longRun(Mc &m, vector<int> ids, int mode, const vector<int> &ops) {
    static const vector<int> ys = {0, 1, 40}; int k = (int)ids.size();
    int a = m.pick(ops), b = m.pick(ops), form = m.choose(5); if (form == 0 && b != a) throw mc::Reject();
    m.mine(); Seq seq; string name;
    if (form < 4) { int x = form == 0 ? 300 : 70, y = form == 0 ? 0 : ys[form - 1]; for (int i = 0; i < x; i++) seq.push_back({a, 0}); for (int i = 0; i < y; i++) seq.push_back({b, k - 1}); name = " " + std::to_string(x) + " times " + opn[a] + ", " + std::to_string(y) + " times " + opn[b]; }
    else { for (int i = 0; i < 70; i++) { seq.push_back({a, 0}); seq.push_back({b, k - 1}); } name = string(" 70 times ") + opn[a] + " and " + opn[b] + " in turn"; }
    for (int o = 0; o < k; o++) for (int z : {READ, BEST1, BEST2, SWEEP1, AGGREGATE, SWEEP2, READ, COMPUTE, BEST2, NORMALIZE, BEST1, READ}) seq.push_back({z, o});
    play(m, ids, mode, seq, name + ", then others");
}
// many parameters on one object, in several orders, each compared with a partitioner that computes only that one
static void parameters(Mc &m, int id) {
    int order = m.choose(4), norm = m.choose(2), n = m.pick(vector<int>{64, 300, 1100});
    m.mine(); auto x = make(insts[id], id); if (!x->I.exact()) x->pipe().compute(); if (norm) x->pipe().normalize(); x->pipe().partitioner(); m.op(3); u64 h = 9;
    vector<string> got(n); auto p = [&](int i) { return i % 7 == 3 ? (float)std::pow(2.0, -(i % 60)) : (float)i / (n - 1); };
    auto at = [&](int i) { return order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (int)((i * 389LL) % n) : i / 2 + (i % 2) * (n / 2); };
    for (int i = 0; i < n; i++) { int k = at(i); got[k] = ser(x->pipe().best(p(k))); m.op(); }
    x->pipe().sweep(0.001f); string l1 = x->read(); m.op();
    for (int i = 0; i < n; i++) if (i % (n / 32) == 0 || i < 16 || i >= n - 16 || i == 255 || i == 256 || i == 257) {
        auto y = make(insts[id], id); if (!y->I.exact()) y->pipe().compute(); if (norm) y->pipe().normalize(); y->pipe().partitioner();
        string one = ser(y->pipe().best(p(i))), again = ser(x->pipe().best(p(i))); m.op(4);
        auto where = [&] { return "p=" + num(p(i)) + ", one of " + std::to_string(n) + " parameters on " + insts[id].str().substr(0, 400); };
        m.check(got[i] == one, [&] { return "the best partition is " + got[i].substr(0, 400) + " instead of " + one.substr(0, 400) + " at " + where(); });
        m.check(again == one, [&] { return "asked again, the best partition is " + again.substr(0, 400) + " instead of " + one.substr(0, 400) + " at " + where(); });
        h = mc::mixs(h, std::to_string(std::hash<string>()(one))); m.state(h);
    }
    auto y = make(insts[id], id); if (!y->I.exact()) y->pipe().compute(); if (norm) y->pipe().normalize(); y->pipe().partitioner(); y->pipe().sweep(0.001f); m.op(2);
    m.check(y->read() == l1, [&] { return "the sweep after " + std::to_string(n) + " best partitions gives " + l1.substr(0, 400) + " instead of " + y->read().substr(0, 400) + " on " + insts[id].str().substr(0, 400); });
    m.trace(); m.outcome(h);
}
// objects made one after another, each destroyed before the next one is made (in the memory that the last one had)
static void life(Mc &m, const vector<int> &ids, int depth) {
    static const vector<int> ops = {BEST1, SWEEP1, AGGREGATE};
    struct L { int id, norm, op; }; vector<L> seq; for (int d = 0; d < depth; d++) { L l; l.id = m.pick(ids); l.norm = m.choose(2); l.op = m.pick(ops); seq.push_back(l); }
    m.mine(); string hist; u64 h = 5;
    for (auto &l : seq) {
        hist += string(hist.empty() ? " " : ", then ") + opn[l.op] + (l.norm ? ", normalised, on " : " on ") + std::to_string(l.id);
        string got; { auto x = make(insts[l.id], l.id); if (!x->I.exact()) x->pipe().compute(); if (l.norm) x->pipe().normalize(); x->pipe().partitioner(); got = x->step(l.op); m.op(3); }
        m.check(got == gold[{l.id, l.norm, l.op}], [&] { return "the last step gives " + got.substr(0, 500) + "\n  instead of " + gold[{l.id, l.norm, l.op}].substr(0, 500) + "\n  for objects made and destroyed:" + hist + ", the last one " + insts[l.id].str().substr(0, 400); });
        h = mc::mixs(h, std::to_string(std::hash<string>()(got))); m.state(h);
    }
    m.sample(hist); m.trace(); m.outcome(h);
}
int main(int c, char **v) {
    setup();
    bool list = false; for (int i = 1; i < c; i++) list = list || string(v[i]) == "--list";
    if (!list) goldens();
    vector<Space> s; vector<int> all8 = {0, 1, 2, 3, 4, 5, 6, 7}, five = {BEST1, SWEEP1, COMPUTE, NORMALIZE, READ};
    vector<int> keep = {BEST1, SWEEP1, SWEEP2, NORMKEEP, COMPUTE, READ}, all9 = {0, 1, 2, 3, 4, 5, 6, 7, NORMKEEP};
    s.push_back({"one.4", "all sequences of 4 of 8 operations on one object, 12 instances", false, [=](Mc &m) { int i = m.choose(N0); go(m, {i}, 0, 4, all8); }});
    s.push_back({"one.6", "all sequences of 6 of 5 operations on one object, 12 instances", false, [=](Mc &m) { int i = m.choose(N0); go(m, {i}, 0, 6, five); }});
    s.push_back({"long.one", "70 or 300 times one of 8 operations on one object, then 0, 1 or 40 times another, or the two in turn, then 12 more operations, 12 instances", false, [=](Mc &m) { int i = m.choose(N0); longRun(m, {i}, 0, all8); }});
    s.push_back({"long.two", "the same over two objects that share qualities or nothing, 5 operations", false, [=](Mc &m) { int i = m.choose(N0), md = m.choose(2) * 2; longRun(m, {i, i}, md, five); }});
    s.push_back({"parameters", "64, 300 and 1100 parameters in 4 orders on one object, raw and normalised, 24 instances", false, [=](Mc &m) { int i = m.choose((int)insts.size()); parameters(m, i); }});
    s.push_back({"keep.5", "all sequences of 5 of 6 operations, with normalisations below a partitioner that stays in use, on one object, 12 instances", false, [=](Mc &m) { int i = m.choose(N0); go(m, {i}, 0, 5, keep); }});
    s.push_back({"keep.two.3", "the same over two partitioners sharing qualities, all sequences of 3 of 9 operations", false, [=](Mc &m) { int i = m.choose(N0); go(m, {i, i}, 2, 3, all9); }});
    s.push_back({"keep.6+", "the same on one object, all sequences of 6 of 9 operations", true, [=](Mc &m) { int i = m.choose(N0); go(m, {i}, 0, 6, all9); }});
    vector<int> edit = {BEST1, SWEEP1, NORMALIZE, AGGREGATE, EDIT};
    s.push_back({"edit.5", "all sequences of 5 of 5 operations, one of which replaces the data or the table, on one object, 12 instances", false, [=](Mc &m) { int i = m.choose(N0); go(m, {i}, 0, 5, edit); }});
    s.push_back({"edit.two.3", "the same over two partitioners sharing qualities, all sequences of 3", false, [=](Mc &m) { int i = m.choose(N0); go(m, {i, i}, 2, 3, edit); }});
    s.push_back({"edit.separate.3", "the same over two objects of equal data, all sequences of 3", false, [=](Mc &m) { int i = m.choose(N0); go(m, {i, i}, 0, 3, edit); }});
    s.push_back({"life.3", "three objects made and destroyed in turn, each of either of two instances of the same sizes, raw or normalised, with one of 3 operations, 12 pairs", false, [=](Mc &m) { int i = m.choose(N0); life(m, {i, twin(i)}, 3); }});
    s.push_back({"life.any.2", "two objects made and destroyed in turn, each of any of 24 instances, raw or normalised, with one of 3 operations", false, [=](Mc &m) { vector<int> a; for (int i = 0; i < (int)insts.size(); i++) a.push_back(i); life(m, a, 2); }});
    s.push_back({"edit.6+", "as edit.5, sequences of 6 of 7 operations", true, [=](Mc &m) { int i = m.choose(N0); go(m, {i}, 0, 6, {BEST1, SWEEP1, SWEEP2, NORMKEEP, READ, AGGREGATE, EDIT}); }});
    s.push_back({"life.4+", "as life.3, four objects", true, [=](Mc &m) { int i = m.choose(N0); life(m, {i, twin(i)}, 4); }});
    for (int mode = 0; mode < 3; mode++) {
        string n = mode == 0 ? "separate" : mode == 1 ? "data" : "qualities", b = mode == 0 ? "two objects of equal data" : mode == 1 ? "two objects sharing a dataset" : "two partitioners sharing qualities";
        s.push_back({"two." + n + ".3", "all sequences of 3 of 8 operations, interleaved over " + b + ", 12 instances", false, [=](Mc &m) { int i = m.choose(N0); go(m, {i, i}, mode, 3, all8); }});
        s.push_back({"two." + n + ".4", "all sequences of 4 of 5 operations, interleaved over " + b + ", 12 instances", false, [=](Mc &m) { int i = m.choose(N0); go(m, {i, i}, mode, 4, five); }});
        s.push_back({"two." + n + ".5+", "all sequences of 5 of 5 operations, interleaved over " + b + ", 12 instances", true, [=](Mc &m) { int i = m.choose(N0); go(m, {i, i}, mode, 5, five); }});
    }
    s.push_back({"two.different.3", "all sequences of 3 of 8 operations, interleaved over two objects of different data, sizes or kinds, 132 pairs", false, [=](Mc &m) { int n = N0; int i = m.choose(n), j = m.choose(n - 1); if (j >= i) j++; go(m, {i, j}, 0, 3, all8); }});
    s.push_back({"one.6+", "all sequences of 6 of 8 operations on one object, 12 instances", true, [=](Mc &m) { int i = m.choose(N0); go(m, {i}, 0, 6, all8); }});
    s.push_back({"two.different.4+", "all sequences of 4 of 5 operations, interleaved over two objects, 132 pairs", true, [=](Mc &m) { int n = N0; int i = m.choose(n), j = m.choose(n - 1); if (j >= i) j++; go(m, {i, j}, 0, 4, five); }});
    return mc::run(c, v, s);
}
