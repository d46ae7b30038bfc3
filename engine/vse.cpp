// vse: symbolic executor for LLVM IR with state merging. See /verif/DESIGN.md.
#include "ir.h"
#include "solver.h"
#include <chrono>
#include <random>
#include <cmath>
#include <pthread.h>
#include <unistd.h>
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double T0; static double timeLimit = 600; static u64 maxViol = 12, maxInstr = 4000000000ull; static u64 seed = 1; static int shardK = 0, shardN = 1; static u64 nProbe = 100; static long shardByte = -1;
static std::vector<u64> params; static int mergeMode = 4; static bool verbose = false; static u64 concLimit = 300, mergeCap = 200;

typedef std::shared_ptr<struct ConcMap> CP;
struct ConcMap { std::unordered_map<E, E> m, memo; };
struct State {
  std::vector<OP> stk, heap; std::map<u32, OP> gw; std::vector<E> pc; std::vector<u32> dom; MP m; CP conc; u32 nin = 0; std::vector<E> obs; u64 concVer = 0; bool picked = false;
};
struct Item { State st; std::vector<E> regs; int blk = 0, ip = 0, prev = -1; std::vector<std::pair<int, u32>> iters; };
typedef std::unique_ptr<Item> IP;
struct Ret { State st; std::vector<E> val; };
struct Violation { std::string kind, msg; std::vector<std::string> stack; std::vector<uint8_t> bytes; };
static std::vector<Violation> viols; static std::map<std::string, int> violCount;
static std::map<int, std::vector<uint8_t>> covers; static std::map<int, u64> checksAt;
static u64 nInstr = 0, nForks = 0, nMerges = 0, nStates = 1, nAssumeKill = 0, nChecks = 0, nCheckTriv = 0, nCheckSolver = 0, nEnd = 0, nUninit = 0, nConc = 0, nMergeFail = 0, nSkipShard = 0;
static bool realFmt = false; // formatted strings come from the real formatting code
static std::vector<Fn *> cs; static bool stopAll = false; static std::map<std::string,u64> forkSites;

static void tick() { if ((++nInstr & 0xfff) == 0) { if (now() - T0 > timeLimit) die("time limit of %.0f s reached", timeLimit); if (nInstr > maxInstr) die("instruction limit"); } }
static void report(State &s, const std::string &kind, const std::string &msg, const MP &m) {
  Violation v; v.kind = kind; v.msg = msg; for (Fn *f : cs) v.stack.push_back(f->pretty);
  v.bytes.resize(s.nin); for (u32 i = 0; i < s.nin; i++) v.bytes[i] = m->get(i);
  std::string key = kind + "|" + msg; size_t n = v.stack.size(); for (size_t i = n > 4 ? n - 4 : 0; i < n; i++) key += "|" + v.stack[i];
  if (violCount[key]++ < 3) viols.push_back(v);
  if (viols.size() >= maxViol) stopAll = true;
}
// ---------------------------------------------------------------- path facts
static E lookup(State &s, E e) { if (isC(e)) return e; auto it = s.conc->m.find(e); return it == s.conc->m.end() ? 0 : it->second; }
static void fact(State &s, E e, E v) { if (isC(e)) return; if (s.conc.use_count() > 1) { auto c = std::make_shared<ConcMap>(); c->m = s.conc->m; s.conc = c; } else s.conc->memo.clear(); s.conc->m[e] = v; s.concVer++; }
static E substRec(ConcMap &c, E e, int &budget) {
  if (isC(e)) return e;
  auto it = c.m.find(e); if (it != c.m.end()) return it->second;
  if (N[e].op == VAR) return e;
  auto mi = c.memo.find(e); if (mi != c.memo.end()) return mi->second;
  if (--budget < 0) return e;
  Node n = N[e]; E r;
  if (n.op == ITE) { E g = substRec(c, n.a, budget); r = isTrue(g) ? substRec(c, n.b, budget) : isFalse(g) ? substRec(c, n.c, budget) : mkIte(g, substRec(c, n.b, budget), substRec(c, n.c, budget)); }
  else { E a = n.a ? substRec(c, n.a, budget) : 0, b = n.b ? substRec(c, n.b, budget) : 0; r = rebuild(e, a, b, n.c); }
  if (r != e && !isC(r)) { auto i2 = c.m.find(r); if (i2 != c.m.end()) r = i2->second; }
  if (budget >= 0) c.memo[e] = r;
  return r;
}
static E resolve(State &s, E e) { if (isC(e)) return e; E l = lookup(s, e); if (l) return l; if (s.conc->m.empty()) return e; int budget = 3000; return substRec(*s.conc, e, budget); }
// ---- byte domains: the part of a path condition that speaks about a single input byte is kept as a set of values
struct Set256 { u64 w[4]; bool operator<(const Set256 &o) const { return memcmp(w, o.w, 32) < 0; } bool operator==(const Set256 &o) const { return !memcmp(w, o.w, 32); } };
static std::vector<Set256> sets; static std::map<Set256, u32> setIdx;
static u32 internSet(const Set256 &x) { if (sets.empty()) { Set256 f; memset(f.w, 255, 32); sets.push_back(f); setIdx[f] = 0; } auto it = setIdx.find(x); if (it != setIdx.end()) return it->second; sets.push_back(x); setIdx[x] = sets.size() - 1; return sets.size() - 1; }
static int singleVar(E e) { u64 a = N[e].vs[0], b = N[e].vs[1]; if (__builtin_popcountll(a) + __builtin_popcountll(b) != 1) return -1; return a ? __builtin_ctzll(a) : 64 + __builtin_ctzll(b); }
static std::unordered_map<E, Set256> ttMemo;
static const Set256 &tt(E e) { // truth table of a one-byte condition
  auto it = ttMemo.find(e); if (it != ttMemo.end()) return it->second;
  Set256 r; memset(r.w, 0, 32); int v = singleVar(e);
  if (N[e].op == NOT && W(e) == 1) { r = tt(N[e].a); for (u64 &w : r.w) w = ~w; }
  else if ((N[e].op == AND || N[e].op == OR) && W(e) == 1 && singleVar(N[e].a) == v && singleVar(N[e].b) == v) { Set256 x = tt(N[e].a), y = tt(N[e].b); for (int i = 0; i < 4; i++) r.w[i] = N[e].op == AND ? x.w[i] & y.w[i] : x.w[i] | y.w[i]; }
  else { Model m; m.b.assign(v + 1, 0); for (int i = 0; i < 256; i++) { m.b[v] = i; m.memo.clear(); if (evalIn(m, e)) r.w[i >> 6] |= 1ull << (i & 63); } }
  return ttMemo[e] = r;
}
static std::map<std::pair<int, u32>, E> membMemo;
static E memb(int v, u32 id) { // canonical membership condition
  auto key = std::make_pair(v, id); auto it = membMemo.find(key); if (it != membMemo.end()) return it->second;
  const Set256 S = sets[id]; auto in = [&](int i) { return S.w[i >> 6] >> (i & 63) & 1; }; E x = mkVar(v), r = FALSE_;
  for (int i = 0; i < 256;) { if (!in(i)) { i++; continue; } int j = i; while (j < 255 && in(j + 1)) j++;
    E c = i == j ? mkEq(x, mkC(8, i)) : mkAnd(i == 0 ? TRUE_ : mkNot(mkUlt(x, mkC(8, i))), j == 255 ? TRUE_ : mkNot(mkUlt(mkC(8, j), x))); r = mkOr(r, c); i = j + 1; }
  return membMemo[key] = r;
}
static u32 domOf(State &s, int v) { return v < (int)s.dom.size() ? s.dom[v] : 0; }
static bool emptySet(const Set256 &x) { return !(x.w[0] | x.w[1] | x.w[2] | x.w[3]); }
static Set256 interS(const Set256 &x, const Set256 &y) { Set256 r; for (int i = 0; i < 4; i++) r.w[i] = x.w[i] & y.w[i]; return r; }
static Set256 minusS(const Set256 &x, const Set256 &y) { Set256 r; for (int i = 0; i < 4; i++) r.w[i] = x.w[i] & ~y.w[i]; return r; }
static int firstOf(const Set256 &x) { for (int i = 0; i < 4; i++) if (x.w[i]) return i * 64 + __builtin_ctzll(x.w[i]); return -1; }
static void setDom(State &s, int v, u32 id) { u32 old = domOf(s, v); if (old == id) return; internSet(sets.empty() ? Set256{{~0ull, ~0ull, ~0ull, ~0ull}} : sets[0]);
  if ((int)s.dom.size() <= v) s.dom.resize(v + 1, 0); if (old) { E o = memb(v, old); for (size_t i = 0; i < s.pc.size(); i++) if (s.pc[i] == o) { s.pc.erase(s.pc.begin() + i); break; } }
  s.dom[v] = id; if (id) { E n = memb(v, id); s.pc.push_back(n); if (N[n].op == EQ && isC(N[n].b)) fact(s, N[n].a, N[n].b); } }
static void addPc(State &s, E c) {
  if (isTrue(c)) return;
  if (N[c].op == AND && W(c) == 1) { Node n = N[c]; addPc(s, n.a); addPc(s, n.b); return; }
  int v = singleVar(c);
  if (v >= 0) { internSet(Set256{{~0ull, ~0ull, ~0ull, ~0ull}}); Set256 x = interS(sets[domOf(s, v)], tt(c)); setDom(s, v, internSet(x)); }
  else { for (E p : s.pc) if (p == c) return;
  s.pc.push_back(c); }
  if (N[c].op == EQ && isC(N[c].b)) fact(s, N[c].a, N[c].b);
  fact(s, c, TRUE_); fact(s, mkNot(c), FALSE_);
}
static SatRes sat(State &s, E c, MP &out) {
  SatRes r = checkSat(s.pc, c, s.m, out);
  if (r == UNKNOWN) die("solver gave no answer");
  return r;
}
// which outcomes of c are possible? models returned for each
static u64 nDom = 0;
static void decide(State &s, E &c, bool &t, bool &f, MP &mt, MP &mf, bool useDom = true) {
  c = resolve(s, c);
  if (isC(c)) { t = isTrue(c); f = !t; mt = mf = s.m; return; }
  int v = useDom ? singleVar(c) : -1;
  if (v >= 0) {
    internSet(Set256{{~0ull, ~0ull, ~0ull, ~0ull}}); const Set256 T = tt(c), D = sets[domOf(s, v)]; Set256 yes = interS(D, T), no = minusS(D, T);
    if (emptySet(no) || emptySet(yes)) { nDom++; t = emptySet(no); f = !t; mt = mf = s.m; fact(s, c, t ? TRUE_ : FALSE_); fact(s, mkNot(c), t ? FALSE_ : TRUE_); return; }
    bool shared = false; for (E p : s.pc) if ((N[p].vs[v >> 6] >> (v & 63) & 1) && singleVar(p) < 0) { shared = true; break; }
    if (!shared) { nDom++; t = f = true; auto with = [&](int val) { std::vector<uint8_t> b = s.m->b; if ((int)b.size() <= v) b.resize(v + 1, 0); b[v] = val; return newModel(b); };
      int cur = s.m->get(v); bool cy = T.w[cur >> 6] >> (cur & 63) & 1; mt = cy ? s.m : with(firstOf(yes)); mf = cy ? with(firstOf(no)) : s.m; return; }
  }
  if (evalIn(*s.m, c)) { t = true; mt = s.m; f = sat(s, mkNot(c), mf) == SAT; }
  else { f = true; mf = s.m; t = sat(s, c, mt) == SAT; }
  if (!t || !f) { fact(s, c, t ? TRUE_ : FALSE_); fact(s, mkNot(c), t ? FALSE_ : TRUE_); }
}
static void assumeM(State &s, E c, const MP &m) { s.m = m; addPc(s, c); }
// sticky substitution of a newly fixed term everywhere in the state
static E repl1(std::unordered_map<E, E> &memo, E e, E from) {
  if (isC(e) || N[e].op == VAR) { auto it = memo.find(e); return it == memo.end() ? e : it->second; }
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  if (!((N[e].vs[0] & N[from].vs[0]) | (N[e].vs[1] & N[from].vs[1]))) return e;
  Node n = N[e]; E a = n.a ? repl1(memo, n.a, from) : 0, b = n.b ? repl1(memo, n.b, from) : 0, c = n.c ? repl1(memo, n.c, from) : 0;
  E r = rebuild(e, a, b, c); memo[e] = r; return r;
}
static void stick(Item &it, E from, E to) {
  std::unordered_map<E, E> memo; memo[from] = to;
  for (E &r : it.regs) if (r && !isC(r)) r = repl1(memo, r, from);
  auto doObjs = [&](std::vector<OP> &v) { for (OP &o : v) if (o && !o->ro) { bool cp = false;
      for (size_t i = 0; i < o->c.size(); i++) { E e = o->c[i].e; if (!e || isC(e)) continue; E r = repl1(memo, e, from); if (r == e) continue;
        if (!cp) { if (o.use_count() > 1) o = std::make_shared<Obj>(*o); cp = true; } o->h = 0; o->c[i].e = r; } } };
  doObjs(it.st.stk); doObjs(it.st.heap);
}
// ---------------------------------------------------------------- memory
static Obj *objAt(State &s, u64 a, u32 &off, OP **h = nullptr) {
  if (a < GBASE || a >= FBASE) return nullptr;
  if (a < SBASE) { u64 i = (a - GBASE) / STRIDE; off = (a - GBASE) % STRIDE; if (i >= globals.size()) return nullptr; auto it = s.gw.find(i); if (it != s.gw.end()) { if (h) *h = &it->second; return it->second.get(); } if (h) { if (globals[i]->ro) return nullptr; OP &o = s.gw[i]; o = globals[i]; *h = &o; return o.get(); } return globals[i].get(); }
  std::vector<OP> &v = a < HBASE ? s.stk : s.heap; u64 b = a < HBASE ? SBASE : HBASE; u64 i = (a - b) / STRIDE; off = (a - b) % STRIDE;
  if (i >= v.size() || !v[i]) return nullptr;
  if (h) *h = &v[i];
  return v[i].get();
}
struct MemErr { std::string msg; };
static const Obj *rd(State &s, u64 a, u64 n, u32 &off) { Obj *o = objAt(s, a, off); if (!o || off + n > o->size) { char b[160]; snprintf(b, 160, "read of %llu bytes at invalid address %llx (%s size %u)", (unsigned long long)n, (unsigned long long)a, o ? o->name.c_str() : "none", o ? o->size : 0); throw MemErr{b}; } return o; }
static Obj *wr(State &s, u64 a, u64 n, u32 &off) { OP *h = nullptr; Obj *o = objAt(s, a, off, &h); if (!o || off + n > o->size || o->ro) { char b[160]; snprintf(b, 160, "write of %llu bytes at invalid address %llx", (unsigned long long)n, (unsigned long long)a); throw MemErr{b}; } if (h->use_count() > 1) *h = std::make_shared<Obj>(*o); (*h)->h = 0; return h->get(); }
static E cellByte(const Cell &c) { return c.e ? mkExtract(c.e, 8 * c.i, 8) : mkC(8, 0); }
static E getVal(const Obj *o, u32 off, int w) {
  int nb = (w + 7) / 8; const Cell *c = &o->c[off];
  if (c[0].e && c[0].i == 0 && W(c[0].e) == 8 * nb) { bool ok = true; for (int k = 1; k < nb; k++) if (c[k].e != c[0].e || c[k].i != k) { ok = false; break; } if (ok) return mkTrunc(c[0].e, w); }
  E r = 0;
  for (int k = 0; k < nb;) { int j = k + 1; E p;
    if (!c[k].e) { nUninit++; p = mkC(8, 0); }
    else { while (j < nb && c[j].e == c[k].e && c[j].i == c[k].i + (j - k)) j++; p = mkExtract(c[k].e, 8 * c[k].i, 8 * (j - k)); }
    r = r ? mkConcat(p, r) : p; k = j; }
  return mkTrunc(r, w);
}
static void putVal(Obj *o, u32 off, E e) { int nb = (W(e) + 7) / 8; if (W(e) != nb * 8) e = mkZext(e, nb * 8); for (int k = 0; k < nb; k++) o->c[off + k] = Cell{e, (uint8_t)k, {0, 0, 0}}; }
static u64 newObj(std::vector<OP> &v, u64 base, u64 size, bool lowest, const char *nm) {
  size_t i = v.size(); if (lowest) for (i = 0; i < v.size(); i++) if (!v[i]) break;
  if (i == v.size()) v.push_back(nullptr);
  auto o = std::make_shared<Obj>(); o->size = size; o->c.assign(size, Cell{0, 0, {0, 0, 0}}); o->name = nm; v[i] = o; return base + i * STRIDE;
}
// ---------------------------------------------------------------- merging
static std::string whyNot(struct State &A, struct State &B, const std::vector<E> &ra, const std::vector<E> &rb, const std::vector<u64> *live); // diagnostics
static bool mergeableE(E a, E b) {
  if (a == b || !a || !b) return true;
  if ((mergeMode == 1 || mergeMode == 4)) return false;
  if (mergeMode == 2 && (isC(a) || isC(b))) return false;
  if (W(a) != W(b)) return true;
  if (isC(a) && isC(b)) return W(a) < 64;
  if (W(a) == 64) { if (isC(a) && (u64)K(a) >= GBASE && (u64)K(a) < TOPBASE) return false; if (isC(b) && (u64)K(b) >= GBASE && (u64)K(b) < TOPBASE) return false; }
  return true;
}
static bool compatObjs(const std::vector<OP> &a, const std::vector<OP> &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) { if (a[i] == b[i]) continue; if (!a[i] || !b[i] || a[i]->size != b[i]->size) return false;
    const Cell *x = a[i]->c.data(), *y = b[i]->c.data(); for (u32 k = 0; k < a[i]->size; k++) { if (x[k].e == y[k].e) continue; if (!mergeableE(x[k].e, y[k].e)) return false;
      if (x[k].e && y[k].e && W(x[k].e) != W(y[k].e)) { if ((W(x[k].e) == 64 && isC(x[k].e) && (u64)K(x[k].e) >= GBASE) || (W(y[k].e) == 64 && isC(y[k].e) && (u64)K(y[k].e) >= GBASE)) return false; } } }
  return true;
}
static void mergeObjs(std::vector<OP> &a, const std::vector<OP> &b, E g) {
  for (size_t i = 0; i < a.size(); i++) { if (a[i] == b[i]) continue;
    auto o = std::make_shared<Obj>(*a[i]); o->h = 0; const std::vector<Cell> &x = a[i]->c, &y = b[i]->c; u32 n = o->size;
    for (u32 k = 0; k < n;) {
      if (x[k].e == y[k].e && x[k].i == y[k].i) { k++; continue; }
      if (!x[k].e) { o->c[k] = y[k]; k++; continue; } if (!y[k].e) { k++; continue; }
      if (x[k].i == 0 && y[k].i == 0 && W(x[k].e) == W(y[k].e)) { u32 nb = W(x[k].e) / 8; bool ok = k + nb <= n; for (u32 j = 1; ok && j < nb; j++) ok = x[k + j].e == x[k].e && y[k + j].e == y[k].e && x[k + j].i == j && y[k + j].i == j;
        if (ok) { E e = mkIte(g, x[k].e, y[k].e); for (u32 j = 0; j < nb; j++) o->c[k + j] = Cell{e, (uint8_t)j, {0, 0, 0}}; k += nb; continue; } }
      E e = mkIte(g, cellByte(x[k]), cellByte(y[k])); o->c[k] = Cell{e, 0, {0, 0, 0}}; k++;
    }
    a[i] = o; }
}
static std::string whyNot(State &A, State &B, const std::vector<E> &ra, const std::vector<E> &rb, const std::vector<u64> *live) {
  std::string r; char t[400];
  auto d = [&](const char *w, int i, const char *nm, u32 off, E x, E y) { snprintf(t, 400, "%s%d %s+%u [%s | %s]; ", w, i, nm, off, x ? estr(x, 2).substr(0, 60).c_str() : "-", y ? estr(y, 2).substr(0, 60).c_str() : "-"); if (r.size() < 500) r += t; };
  if (A.nin != B.nin) r += "nin; ";
  for (size_t i = 0; i < ra.size(); i++) { if (live && !((*live)[i >> 6] >> (i & 63) & 1)) continue; if (!mergeableE(ra[i], rb[i])) d("reg", i, "", 0, ra[i], rb[i]); }
  auto objs = [&](const char *w, const std::vector<OP> &a, const std::vector<OP> &b) { if (a.size() != b.size()) { r += w; r += " count; "; return; }
    for (size_t i = 0; i < a.size(); i++) { if (a[i] == b[i]) continue; if (!a[i] || !b[i] || a[i]->size != b[i]->size) { d(w, i, "shape", 0, 0, 0); continue; }
      for (u32 k = 0; k < a[i]->size; k++) if (a[i]->c[k].e != b[i]->c[k].e && !mergeableE(a[i]->c[k].e, b[i]->c[k].e)) { d(w, i, a[i]->name.c_str(), k, a[i]->c[k].e, b[i]->c[k].e); k = k | 7; } } };
  objs("stk", A.stk, B.stk); objs("heap", A.heap, B.heap); if (r.empty()) r = "same"; return r;
}
// try to merge b into a (registers selected by live)
static bool mergeStates(State &A, State &B, std::vector<E> &ra, const std::vector<E> &rb, const std::vector<u64> *live) {
  if (!mergeMode || A.nin != B.nin || A.obs.size() != B.obs.size() || A.gw.size() != B.gw.size() || A.picked != B.picked) { nMergeFail++; return false; }
  for (auto &p : A.gw) { auto q = B.gw.find(p.first); if (q == B.gw.end() || q->second != p.second) { nMergeFail++; return false; } }
  for (size_t i = 0; i < ra.size(); i++) { if (live && !((*live)[i >> 6] >> (i & 63) & 1)) continue; if (!mergeableE(ra[i], rb[i])) { nMergeFail++; return false; } }
  if (mergeMode == 4) { // keep path conditions conjunctive: states may differ in the domain of one input byte only
    size_t nv = std::max(A.dom.size(), B.dom.size()); int differ = 0; for (size_t v = 0; v < nv; v++) if (domOf(A, v) != domOf(B, v)) differ++;
    if (differ > 1) { nMergeFail++; return false; }
    if (A.pc != B.pc) { std::set<E> x, y; for (E p : A.pc) if (singleVar(p) < 0) x.insert(p); for (E p : B.pc) if (singleVar(p) < 0) y.insert(p); if (x != y) { nMergeFail++; return false; } } }
  if (!compatObjs(A.stk, B.stk) || !compatObjs(A.heap, B.heap)) { nMergeFail++; return false; }
  std::vector<E> sa = A.pc, sb = B.pc, com, da, db; std::set<E> setB(sb.begin(), sb.end()), setA(sa.begin(), sa.end());
  for (E p : sa) (setB.count(p) ? com : da).push_back(p);
  for (E p : sb) if (!setA.count(p)) db.push_back(p);
  auto conj = [](std::vector<E> &v) { E r = TRUE_; for (E e : v) r = mkAnd(r, e); return r; };
  E ga = conj(da), gb = conj(db); E g = da.empty() || (!db.empty() && db.size() < da.size()) ? mkNot(gb) : ga;
  for (size_t i = 0; i < ra.size(); i++) { if (live && !((*live)[i >> 6] >> (i & 63) & 1)) { ra[i] = 0; continue; } if (ra[i] == rb[i]) continue; if (!ra[i]) ra[i] = rb[i]; else if (rb[i]) ra[i] = mkIte(g, ra[i], rb[i]); }
  mergeObjs(A.stk, B.stk, g); mergeObjs(A.heap, B.heap, g);
  for (size_t i = 0; i < A.obs.size(); i++) A.obs[i] = mkIte(g, A.obs[i], B.obs[i]);
  auto nc = std::make_shared<ConcMap>(); for (auto &p : A.conc->m) { auto q = B.conc->m.find(p.first); if (q != B.conc->m.end() && q->second == p.second) nc->m.insert(p); }
  A.conc = nc; A.concVer = std::max(A.concVer, B.concVer) + 1;
  // path condition: common part and, for the rest, a union of byte domains (exact when one byte differs) or a disjunction
  std::vector<u32> oldA = A.dom, oldB = B.dom; size_t nv = std::max(oldA.size(), oldB.size()); oldA.resize(nv, 0); oldB.resize(nv, 0);
  A.pc.clear(); for (E p : com) A.pc.push_back(p);
  A.dom.assign(nv, 0); int differ = 0; for (size_t v = 0; v < nv; v++) { if (oldA[v] == oldB[v]) A.dom[v] = oldA[v]; else differ++; }
  size_t multi = 0; for (E p : da) if (singleVar(p) < 0) multi++; for (E p : db) if (singleVar(p) < 0) multi++;
  for (size_t v = 0; v < nv; v++) if (oldA[v] != oldB[v] && oldA[v] && oldB[v]) { Set256 x; for (int i = 0; i < 4; i++) x.w[i] = sets[oldA[v]].w[i] | sets[oldB[v]].w[i]; setDom(A, v, internSet(x)); }
  if (!(differ <= 1 && multi == 0)) { E o = mkOr(ga, gb); if (!isTrue(o)) { bool dup = false; for (E p : A.pc) dup = dup || p == o; if (!dup) A.pc.push_back(o); fact(A, o, TRUE_); fact(A, mkNot(o), FALSE_); } }
  nMerges++;
  return true;
}
// ---------------------------------------------------------------- execution
static std::vector<Ret> run(Fn *f, State &&s, const std::vector<std::vector<E>> &args);
struct Forked {};
struct Exec {
  Fn *f; std::vector<IP> work; std::map<std::vector<int>, std::map<u64, std::vector<IP>>> q; std::unordered_map<u64, std::vector<int>> retIdx; std::vector<Ret> rets; size_t spBase;
  E val(Item &it, Ref r) { if (r < 0) return consts[~r]; E e = it.regs[r]; if (!e) { die("unset register in %s", f->pretty.c_str()); } return e; }
  void setv(Item &it, int r, E e) { it.regs[r] = e; }
  // concretise: returns value, or forks the item (re-executing the instruction) and throws Forked
  u64 conc(IP &it, E e) {
    e = resolve(it->st, e);
    if (isC(e)) return (u64)K(e);
    nConc++;
    E core = e;
    while (true) { Node n = N[core];
      if ((n.op == ADD || n.op == XOR) && isC(n.b)) core = n.a; else if (n.op == SUB && isC(n.a)) core = n.b; else if (n.op == ZEXT || n.op == SEXT) core = n.a; else if (n.op == CONCAT && isC(n.b)) core = n.a; else if (n.op == CONCAT && isC(n.a)) core = n.b; else break; }
    if (verbose) forkSites["conc " + f->pretty]++;
    if (N[core].op == ITE) { E c = N[core].a; branchRetry(it, c); }
    State &s = it->st; std::vector<std::pair<u64, MP>> vs; std::vector<E> extra; MP m = s.m; State tmp = s;
    while (true) { u64 v = (u64)evalIn(*m, core); vs.push_back({v, m}); if (vs.size() > concLimit) die("more than %d values for a term that must be concrete in %s: %s", (int)concLimit, f->pretty.c_str(), estr(core, 5).c_str());
      E ne = mkNot(mkEq(core, mkC(W(core), v))); addPc2(tmp, ne); tmp.m = m; MP o; if (checkSatExcl(tmp, o) != SAT) break; m = o; }
    nForks += vs.size() - 1;
    for (size_t i = 0; i < vs.size(); i++) { IP n(i + 1 == vs.size() ? std::move(it) : IP(new Item(*it))); if (i + 1 < vs.size()) nStates++;
      E cv = mkC(W(core), vs[i].first); assumeM(n->st, mkEq(core, cv), vs[i].second); fact(n->st, core, cv); stick(*n, core, cv); work.push_back(std::move(n)); }
    throw Forked();
  }
  void addPc2(State &s, E c) { s.pc.push_back(c); }
  SatRes checkSatExcl(State &s, MP &o) { E last = s.pc.back(); s.pc.pop_back(); SatRes r = checkSat(s.pc, last, s.m, o); s.pc.push_back(last); if (r == UNKNOWN) die("solver gave no answer"); return r; }
  // split item on condition c and re-execute the instruction in each half
  [[noreturn]] void branchRetry(IP &it, E c) {
    E c0 = c; if (isC(c)) die("branchRetry on constant"); bool t, fl; MP mt, mf; decide(it->st, c, t, fl, mt, mf);
    if (isC(c)) { stick(*it, c0, c); work.push_back(std::move(it)); throw Forked(); }
    if (t && fl) { nForks++; nStates++; IP b(new Item(*it)); assumeM(b->st, mkNot(c), mf); stick(*b, c, FALSE_); assumeM(it->st, c, mt); stick(*it, c, TRUE_); work.push_back(std::move(b)); }
    else stick(*it, c, t ? TRUE_ : FALSE_);
    work.push_back(std::move(it)); throw Forked();
  }
  void gotoBlock(IP it, int to, bool sole = false) { // sole: the instruction leads nowhere else
    Block &B = f->blocks[to]; int from = it->blk; auto ph = B.phis.find(from);
    if (ph != B.phis.end()) { std::vector<E> t; t.reserve(ph->second.size()); for (auto &p : ph->second) t.push_back(p.second < 0 ? consts[~p.second] : it->regs[p.second]); for (size_t i = 0; i < t.size(); i++) it->regs[ph->second[i].first] = t[i]; }
    std::vector<std::pair<int, u32>> ni; size_t k = 0; while (k < B.heads.size() && k < it->iters.size() && it->iters[k].first == B.heads[k]) { ni.push_back(it->iters[k]); k++; }
    if (k == B.heads.size() && k > 0 && B.heads.back() == to) ni.back().second++;
    for (; k < B.heads.size(); k++) ni.push_back({B.heads[k], 0});
    it->iters = ni; it->prev = from; it->blk = to; it->ip = 0;
    if (sole && work.empty() && q.empty()) { work.push_back(std::move(it)); return; } // nothing to merge with
    std::vector<int> key; for (auto &p : ni) { key.push_back(f->blocks[p.first].wto); key.push_back(p.second); } key.push_back(B.wto);
    if (verbose && from >= 0) for (auto &hb : q[key]) if (!hb.second.empty()) { auto &o = hb.second.front(); printf("NOMERGE %s bb%d: %s\n", f->pretty.c_str(), to, whyNot(o->st, it->st, o->regs, it->regs, &B.live).c_str()); break; }
    auto &bucket = q[key][mergeHash(it->st, it->regs, &B.live)];
    size_t tried = 0; for (size_t i = bucket.size(); i-- > 0 && tried < mergeCap; tried++) if (mergeStates(bucket[i]->st, it->st, bucket[i]->regs, it->regs, &B.live)) return;
    bucket.push_back(std::move(it));
  }
  u64 mergeHash(State &s, const std::vector<E> &regs, const std::vector<u64> *live) {
    u64 h = 1469598103934665603ull; if (mergeMode == 0 || mergeMode == 3) return mergeMode ? 0 : nInstr; auto add = [&](u64 x) { h = (h ^ x) * 1099511628211ull; h ^= h >> 29; };
    auto ev = [&](E e) { if (!e) return; add((mergeMode == 1 || mergeMode == 4) || isC(e) ? e : 7); };
    for (size_t i = 0; i < regs.size(); i++) if (!live || ((*live)[i >> 6] >> (i & 63) & 1)) ev(regs[i]);
    add(s.nin); for (E e : s.obs) ev(e);
    add(s.heap.size()); for (auto &o : s.heap) add(o ? o->size + 1 : 0); add(s.stk.size());
    if ((mergeMode == 1 || mergeMode == 4)) { auto oh = [&](const OP &o) { if (!o) return; if (!o->h) { u64 x = 88172645463325252ull; for (auto &c : o->c) { x = (x ^ c.e) * 1099511628211ull; x ^= x >> 31; } o->h = x | 1; } add(o->h); }; for (auto &o : s.heap) oh(o); for (auto &o : s.stk) oh(o); }
    return h;
  }
  void finish(IP it, std::vector<E> v) {
    it->st.stk.resize(spBase);
    if (rets.empty() && work.empty() && q.empty()) { rets.push_back({std::move(it->st), std::move(v)}); return; }
    if (rets.size() == 1 && retIdx.empty()) retIdx[mergeHash(rets[0].st, rets[0].val, nullptr)].push_back(0);
    auto &ix = retIdx[mergeHash(it->st, v, nullptr)];
    size_t tried = 0; for (size_t i = ix.size(); i-- > 0 && tried < mergeCap; tried++) { int k = ix[i]; if (mergeStates(rets[k].st, it->st, rets[k].val, v, nullptr)) return; }
    ix.push_back(rets.size()); rets.push_back({std::move(it->st), std::move(v)});
  }
  void go(State &&s, const std::vector<std::vector<E>> &args) {
    spBase = s.stk.size(); decodeFn(f); f->calls++;
    IP it(new Item); it->st = std::move(s); it->regs.assign(f->nregs, 0);
    if (args.size() != f->params.size()) die("call of %s with %d arguments", f->pretty.c_str(), (int)args.size());
    for (size_t i = 0; i < args.size(); i++) for (int k = 0; k < f->params[i].second; k++) it->regs[f->params[i].first + k] = args[i][k];
    for (int h : f->blocks[0].heads) it->iters.push_back({h, 0});
    work.push_back(std::move(it));
    while (!stopAll) {
      if (work.empty()) { if (q.empty()) break; auto b = q.begin(); auto hb = b->second.begin(); IP n = std::move(hb->second.back()); hb->second.pop_back(); if (hb->second.empty()) { b->second.erase(hb); if (b->second.empty()) q.erase(b); } work.push_back(std::move(n)); }
      IP cur = std::move(work.back()); work.pop_back();
      try { step(cur); } catch (Forked &) {} catch (MemErr &e) { if (cur) report(cur->st, "memory", e.msg, cur->st.m); }
    }
  }
  void step(IP &it) {
    while (true) { if (stopAll) return;
      Block &B = f->blocks[it->blk]; Ins &n = B.ins[it->ip]; tick(); f->instrs++;
      if (!exec(it, n)) return;
      it->ip++; }
  }
  E binop(int op, E a, E b) {
    switch (op) { case ADD: return mkAdd(a, b); case SUB: return mkSub(a, b); case MUL: return mkMul(a, b); case UDIV: case SDIV: case UREM: case SREM: return mkDiv((Op)op, a, b);
    case AND: return mkAnd(a, b); case OR: return mkOr(a, b); case XOR: return mkXor(a, b); case SHL: return mkShl(a, b); case LSHR: return mkLshr(a, b); default: return mkAshr(a, b); } }
  E icmp(int p, E a, E b) { switch (p) { case 32: return mkEq(a, b); case 33: return mkNot(mkEq(a, b)); case 34: return mkUlt(b, a); case 35: return mkUle(b, a); case 36: return mkUlt(a, b); case 37: return mkUle(a, b); case 38: return mkSlt(b, a); case 39: return mkSle(b, a); case 40: return mkSlt(a, b); case 41: return mkSle(a, b); } die("icmp"); }
  // load one scalar possibly through a symbolic index into a constant table
  E loadAt(IP &it, E addr, u32 o, int w) {
    addr = resolve(it->st, addr);
    if (!isC(addr)) { E r = tableLoad(it, addr, o, w); if (r) return r; }
    u64 a = conc(it, addr) + o; u32 off; const Obj *ob = rd(it->st, a, (w + 7) / 8, off); return getVal(ob, off, w);
  }
  E tableLoad(IP &it, E addr, u32 o, int w) {
    if (N[addr].op != ADD || !isC(N[addr].b)) return 0;
    u64 base = (u64)K(N[addr].b) + o; E x = N[addr].a; u32 off; Obj *ob = objAt(it->st, base, off); if (!ob || !ob->ro || base >= SBASE || off > ob->size) return 0;
    int sh = 0; while (true) { Node n = N[x]; if (n.op == ZEXT) x = n.a; else if (n.op == CONCAT && isC(n.b) && K(n.b) == 0) { sh += W(n.b); x = n.a; } else break; }
    if (W(x) > 64 || N[x].umax > 4096) { if (W(x) <= 16) {} else return 0; }
    u32 nb = (w + 7) / 8; u64 cnt = (ob->size - off) < nb ? 0 : ((ob->size - off - nb) >> sh) + 1; u64 hi = N[x].umax + 1; if (hi > cnt) { MP m; E oob = mkNot(mkUlt(x, mkC(W(x), cnt))); if (cnt == 0 || sat(it->st, oob, m) == SAT) return 0; hi = cnt; }
    if (hi > 512) return 0;
    std::vector<E> vals; for (u64 i = 0; i < hi; i++) { vals.push_back(getVal(ob, off + (i << sh), w)); if (w == 64 && (!isC(vals[i]) || (u64)K(vals[i]) >= GBASE)) return 0; }   // pointers: fork instead
    // build from the top range downwards
    std::vector<std::pair<u64, E>> rg; for (u64 i = 0; i < hi; i++) if (rg.empty() || rg.back().second != vals[i]) rg.push_back({i, vals[i]});
    E r = rg.back().second; for (int i = (int)rg.size() - 2; i >= 0; i--) r = mkIte(mkUlt(x, mkC(W(x), rg[i + 1].first)), rg[i].second, r);
    return r;
  }
  bool exec(IP &it, Ins &n) {
    switch (n.k) {
    case I_BIN: { int c = n.nd; for (int i = 0; i < c; i++) setv(*it, n.dst + i, binop(n.sub, val(*it, n.ops[i]), val(*it, n.ops[c + i]))); return true; }
    case I_FBIN: { int c = n.nd; for (int i = 0; i < c; i++) setv(*it, n.dst + i, mkFbin(n.sub, val(*it, n.ops[i]), val(*it, n.ops[c + i]))); return true; }
    case I_FNEG: for (int i = 0; i < n.nd; i++) { E a = val(*it, n.ops[i]); setv(*it, n.dst + i, mkXor(a, mkC(W(a), (u128)1 << (W(a) - 1)))); } return true;
    case I_ICMP: { int c = n.nd; for (int i = 0; i < c; i++) setv(*it, n.dst + i, icmp(n.sub, val(*it, n.ops[i]), val(*it, n.ops[c + i]))); return true; }
    case I_FCMP: { int c = n.nd; for (int i = 0; i < c; i++) setv(*it, n.dst + i, mkFcmp(n.sub, val(*it, n.ops[i]), val(*it, n.ops[c + i]))); return true; }
    case I_CAST: for (int i = 0; i < n.nd; i++) { E a = val(*it, n.ops[i]), r; switch (n.sub) { case C_TRUNC: r = mkTrunc(a, n.w); break; case C_ZEXT: r = mkZext(a, n.w); break; case C_SEXT: r = mkSext(a, n.w); break; case C_FPEXT: r = mkFpext(a, n.w); break; case C_FPTRUNC: r = mkFptrunc(a, n.w); break;
        case C_U2F: r = mkI2F(false, a, n.w); break; case C_S2F: r = mkI2F(true, a, n.w); break; case C_F2U: r = mkF2I(false, false, a, n.w); break; case C_F2S: r = mkF2I(true, false, a, n.w); break; default: r = mkZT(a, n.w); } setv(*it, n.dst + i, r); } return true;
    case I_SELECT: { int cc = n.imm; for (int i = 0; i < n.nd; i++) { E c = resolve(it->st, val(*it, n.ops[cc == 1 ? 0 : i])); E a = val(*it, n.ops[cc + i]), b = val(*it, n.ops[cc + n.nd + i]); setv(*it, n.dst + i, mkIte(c, a, b)); } return true; }
    case I_COPY: {
      if (n.sub == 1) { E all = 0; for (Ref r : n.ops) { E e = val(*it, r); all = all ? mkConcat(e, all) : e; } int lo = 0; for (int i = 0; i < n.nd; i++) { setv(*it, n.dst + i, mkExtract(all, lo, n.retw[i])); lo += n.retw[i]; } return true; }
      std::vector<E> t; for (Ref r : n.ops) t.push_back(r < 0 ? consts[~r] : it->regs[r]); for (size_t i = 0; i < t.size(); i++) it->regs[n.dst + i] = t[i]; return true; }
    case I_GEP: { E a = val(*it, n.ops[0]); for (size_t i = 0; i < n.ks.size(); i++) { E x = val(*it, n.ops[i + 1]); if (W(x) < 64) x = mkSext(x, 64); a = mkAdd(a, mkMul(x, mkC(64, n.ks[i]))); } setv(*it, n.dst, mkAdd(a, mkC(64, n.imm))); return true; }
    case I_ALLOCA: { u64 a = newObj(it->st.stk, SBASE, n.imm, false, "stack"); setv(*it, n.dst, mkC(64, a)); return true; }
    case I_LOAD: { E p = val(*it, n.ops[0]); std::vector<E> t; for (auto &s : n.slots) t.push_back(loadAt(it, p, s.off, s.w)); for (size_t i = 0; i < t.size(); i++) setv(*it, n.dst + i, t[i]); return true; }
    case I_RMW: { u64 a = conc(it, val(*it, n.ops[0])); u32 off; Obj *o = wr(it->st, a, (n.w + 7) / 8, off); E x = getVal(o, off, n.w), v = val(*it, n.ops[1]), r;
      switch (n.sub) { case 0: r = v; break; case 1: r = mkAdd(x, v); break; case 2: r = mkSub(x, v); break; case 3: r = mkAnd(x, v); break; case 4: r = mkXor(mkAnd(x, v), mkC(n.w, mask(n.w))); break; case 5: r = mkOr(x, v); break; case 6: r = mkXor(x, v); break;
        case 7: r = mkIte(mkSlt(x, v), v, x); break; case 8: r = mkIte(mkSlt(x, v), x, v); break; case 9: r = mkIte(mkUlt(x, v), v, x); break; case 10: r = mkIte(mkUlt(x, v), x, v); break; default: die("atomicrmw %d", n.sub); }
      putVal(o, off, r); setv(*it, n.dst, x); return true; }
    case I_CMPXCHG: { u64 a = conc(it, val(*it, n.ops[0])); u32 off; Obj *o = wr(it->st, a, (n.w + 7) / 8, off); E x = getVal(o, off, n.w), q = mkEq(x, val(*it, n.ops[1])); putVal(o, off, mkIte(q, val(*it, n.ops[2]), x)); setv(*it, n.dst, x); setv(*it, n.dst + 1, q); return true; }
    case I_STORE: { u64 a = conc(it, val(*it, n.ops[0])); for (size_t i = 0; i < n.slots.size(); i++) { u32 off; Obj *o = wr(it->st, a + n.slots[i].off, (n.slots[i].w + 7) / 8, off); putVal(o, off, val(*it, n.ops[1 + i])); } return true; }
    case I_BR: gotoBlock(std::move(it), n.targets[0], true); return false;
    case I_CONDBR: {
      E c = val(*it, n.ops[0]); if (n.targets[0] == n.targets[1]) { gotoBlock(std::move(it), n.targets[0], true); return false; }
      bool t, fl; MP mt, mf; decide(it->st, c, t, fl, mt, mf);
      if (t && fl) { nForks++; nStates++; if (verbose) forkSites[f->pretty]++; IP o(new Item(*it)); assumeM(o->st, mkNot(c), mf); assumeM(it->st, c, mt); int t1 = n.targets[1]; int t0 = n.targets[0]; gotoBlock(std::move(it), t0); gotoBlock(std::move(o), t1); }
      else gotoBlock(std::move(it), n.targets[t ? 0 : 1], true);
      return false; }
    case I_SWITCH: {
      E e = resolve(it->st, val(*it, n.ops[0])); int w = W(e);
      if (isC(e)) { for (size_t i = 0; i < n.ks.size(); i++) if ((u128)n.ks[i] == K(e)) { gotoBlock(std::move(it), n.targets[i + 1], true); return false; } gotoBlock(std::move(it), n.targets[0], true); return false; }
      std::vector<std::pair<int, E>> gr; E def = TRUE_;
      for (size_t i = 0; i < n.ks.size(); i++) { E c = mkEq(e, mkC(w, n.ks[i])); def = mkAnd(def, mkNot(c)); bool found = false; for (auto &g : gr) if (g.first == n.targets[i + 1]) { g.second = mkOr(g.second, c); found = true; } if (!found) gr.push_back({n.targets[i + 1], c}); }
      bool dfound = false; for (auto &g : gr) if (g.first == n.targets[0]) { g.second = mkOr(g.second, def); dfound = true; } if (!dfound) gr.push_back({n.targets[0], def});
      std::vector<std::pair<IP, int>> out; 
      for (auto &g : gr) { E c = resolve(it->st, g.second); if (isFalse(c)) continue; MP m; if (isTrue(c) || evalIn(*it->st.m, c)) m = it->st.m; else if (sat(it->st, c, m) != SAT) continue;
        IP o(new Item(*it)); assumeM(o->st, c, m); out.push_back({std::move(o), g.first}); }
      if (out.size() > 1) { nForks += out.size() - 1; nStates += out.size() - 1; if (verbose) forkSites["switch " + f->pretty] += out.size() - 1; }
      it.reset();
      for (auto &o : out) gotoBlock(std::move(o.first), o.second);
      return false; }
    case I_RET: { std::vector<E> v; for (Ref r : n.ops) v.push_back(r < 0 ? consts[~r] : (it->regs[r] ? it->regs[r] : 0)); finish(std::move(it), std::move(v)); return false; }
    case I_UNREACH: report(it->st, "unreachable", "an unreachable instruction is reached in " + f->pretty, it->st.m); return false;
    case I_CALL: return call(it, n);
    case I_BAD: die("unsupported in %s: %s", f->pretty.c_str(), n.bad.c_str());
    }
    return false;
  }
  bool call(IP &it, Ins &n) {
    auto A = [&](int i, int k = 0) { return val(*it, n.args[i][k]); };
    if (n.intr) return intrinsic(it, n);
    Fn *c = n.callee;
    if (!c) { u64 a = conc(it, val(*it, n.calleeRef)); c = fnAt(a); if (!c) throw MemErr{"call through a bad pointer"}; }
    State &s = it->st; auto ret = [&](E e) { setv(*it, n.dst, e); };
    switch (c->hook) {
    case H_NOP: return true;
    case H_HASH: setv(*it, n.dst, mkC(64, 0)); return true; // all hashes collide
    case H_KEYS: setv(*it, n.dst, mkC(64, 1)); setv(*it, n.dst + 1, mkC(64, 2)); return true;
    case H_ALLOC: case H_ALLOCZ: { u64 sz = concSize(it, A(0)); u64 a = newObj(s.heap, HBASE, sz, true, "heap"); if (c->hook == H_ALLOCZ) { u32 off; Obj *o = wr(s, a, sz, off); for (u64 i = 0; i < sz; i++) o->c[i] = Cell{mkC(8, 0), 0, {0, 0, 0}}; } ret(mkC(64, a)); return true; }
    case H_DEALLOC: { u64 a = conc(it, A(0)); u32 off; Obj *o = objAt(s, a, off); if (a < HBASE || !o || off) throw MemErr{"invalid free"}; s.heap[(a - HBASE) / STRIDE] = nullptr; while (!s.heap.empty() && !s.heap.back()) s.heap.pop_back(); return true; }
    case H_REALLOC: { u64 a = conc(it, A(0)), sz = concSize(it, A(3)); u32 off; Obj *o = objAt(s, a, off); if (a < HBASE || !o || off) throw MemErr{"invalid realloc"}; auto no = std::make_shared<Obj>(*o); no->h = 0; no->size = sz; no->c.resize(sz, Cell{0, 0, {0, 0, 0}}); s.heap[(a - HBASE) / STRIDE] = no; ret(mkC(64, a)); return true; }
    case H_MEMCMP: case H_BCMP: {
      u64 len = conc(it, A(2)); E r = mkC(32, 0); if (len) { u64 a = conc(it, A(0)), b = conc(it, A(1)); u32 oa, ob; const Obj *x = rd(s, a, len, oa), *y = rd(s, b, len, ob);
        if (c->hook == H_BCMP) { E eq = TRUE_; for (u64 i = 0; i < len; i++) { eq = mkAnd(eq, mkEq(cellByte(x->c[oa + i]), cellByte(y->c[ob + i]))); } r = mkIte(eq, mkC(32, 0), mkC(32, 1)); }
        else for (u64 i = len; i-- > 0;) { E p = cellByte(x->c[oa + i]), q = cellByte(y->c[ob + i]); r = mkIte(mkEq(p, q), r, mkIte(mkUlt(p, q), mkC(32, ~0ull), mkC(32, 1))); } }
      ret(r); return true; }
    case H_MEMCPY: case H_MEMMOVE: { u64 len = conc(it, A(2)); copy(it, A(0), A(1), len); ret(A(0)); return true; }
    case H_MEMSET: { u64 len = conc(it, A(2)); if (len) { u64 a = conc(it, A(0)); u32 off; Obj *o = wr(s, a, len, off); E b = mkTrunc(A(1), 8); for (u64 i = 0; i < len; i++) o->c[off + i] = Cell{b, 0, {0, 0, 0}}; } ret(A(0)); return true; }
    case H_REALFMT: realFmt = true; return true;
    case H_FORMAT: { if (realFmt) break; u64 a = conc(it, A(0)); u32 off; Obj *o = wr(s, a, 24, off); putVal(o, off, mkC(64, 0)); putVal(o, off + 8, mkC(64, 1)); putVal(o, off + 16, mkC(64, 0)); return true; }
    case H_BYTES: { u64 len = conc(it, A(1)); if (len) { u64 a = conc(it, A(0)); u32 off; Obj *o = wr(s, a, len, off); for (u64 i = 0; i < len; i++) o->c[off + i] = Cell{mkVar(s.nin++), 0, {0, 0, 0}}; } return true; }
    case H_PICK: {
      u64 k = conc(it, A(0)); E v = mkVar(s.nin); bool first = !s.picked; s.picked = true; s.nin++;
      if (first && shardN > 1) shardByte = s.nin - 1;
      for (u64 i = 0; i < k; i++) { if (first && shardN > 1 && (int)(i % shardN) != shardK) { nSkipShard++; continue; } IP o(new Item(*it)); std::vector<uint8_t> b = s.m->b; b.resize(s.nin, 0); b[s.nin - 1] = i; E cst = mkC(8, i); assumeM(o->st, mkEq(v, cst), newModel(b)); o->regs[n.dst] = mkC(32, i); o->ip++; work.push_back(std::move(o)); nStates++; }
      it.reset(); return false; }
    case H_PARAM: { u64 i = conc(it, A(0)); if (i >= params.size()) die("parameter %d missing", (int)i); ret(mkC(64, params[i])); return true; }
    case H_CONC: { u64 v = conc(it, A(0)); ret(mkC(64, v)); return true; }
    case H_ASSUME: { E cd = mkTrunc(A(0), 1); bool t, fl; MP mt, mf; decide(s, cd, t, fl, mt, mf); if (fl) nAssumeKill++; if (!t) return false; assumeM(s, cd, mt); return true; }
    case H_CHECK: {
      E cd = mkTrunc(A(0), 1); u64 id = conc(it, A(1)); nChecks++; checksAt[id]++;
      E c0 = cd; bool t, fl; MP mt, mf; u64 q0 = SS.queries; decide(s, cd, t, fl, mt, mf, false); if (SS.queries > q0) nCheckSolver++; if (isC(c0)) nCheckTriv++;
      if (fl) report(s, "check", "check " + std::to_string(id) + " fails", mf);
      if (!t) return false; if (fl) assumeM(s, cd, mt); return true; }
    case H_COVER: { u64 id = conc(it, A(0)); if (!covers.count(id)) { std::vector<uint8_t> b(s.nin); for (u32 i = 0; i < s.nin; i++) b[i] = s.m->get(i); covers[id] = b; } return true; }
    case H_OBS: s.obs.push_back(A(0)); return true;
    default: break;
    }
    if (c->noret || n.noret) { cs.push_back(c); report(s, "panic", panicMsg(it, n), s.m); cs.pop_back(); return false; }
    if (c->decl) die("call of external function %s from %s", c->name.c_str(), f->pretty.c_str());
    if (cs.size() > 5000) die("call depth");
    std::vector<std::vector<E>> args; for (auto &a : n.args) { std::vector<E> v; for (Ref r : a) v.push_back(r < 0 ? consts[~r] : it->regs[r] ? it->regs[r] : die0(c)); args.push_back(std::move(v)); }
    u64 cv = s.concVer; State st = std::move(it->st); it->st = State();
    std::vector<Ret> rs = run(c, std::move(st), args);
    for (size_t i = 0; i < rs.size(); i++) {
      IP o(i + 1 == rs.size() ? std::move(it) : IP(new Item(*it))); o->st = std::move(rs[i].st);
      for (size_t k = 0; k < rs[i].val.size(); k++) o->regs[n.dst + k] = rs[i].val[k];
      o->ip++; (void)cv; work.push_back(std::move(o));
    }
    it.reset(); return false;
  }
  E die0(Fn *c) { die("unset argument in call of %s from %s", c->pretty.c_str(), f->pretty.c_str()); }
  // A size that can take a few values is split into them; one that can take many gets its largest (capacity only: the length stays symbolic).
  u64 concSize(IP &it, E e) {
    const char *why = "allocation of 8 MB or more"; e = resolve(it->st, e);
    if (!isC(e)) {
      E big = mkUlt(mkC(64, STRIDE - 1), e); MP m;
      if (sat(it->st, big, m) == SAT) {
        for (int k : {62, 40, 32}) { MP m2; if (sat(it->st, mkUlt(mkC(64, 1ull << k), e), m2) == SAT) { m = m2; break; } }
        report(it->st, "huge-alloc", why, m); MP m2; if (sat(it->st, mkNot(big), m2) != SAT) { it.reset(); throw Forked(); } assumeM(it->st, mkNot(big), m2); e = resolve(it->st, e);
      }
    }
    if (!isC(e)) {
      std::vector<u64> seen; E ne = TRUE_; MP m; bool more = true; u64 lo = 0;
      while (seen.size() < 17) { if (sat(it->st, ne, m) != SAT) { more = false; break; } u64 v = (u64)evalIn(*m, e); seen.push_back(v); lo = std::max(lo, v); ne = mkAnd(ne, mkNot(mkEq(e, mkC(64, v)))); }
      if (more) { u64 hi = STRIDE; while (lo < hi) { u64 mid = lo + (hi - lo) / 2; if (sat(it->st, mkUlt(mkC(64, mid), e), m) == SAT) lo = std::max(mid + 1, (u64)evalIn(*m, e)); else hi = mid; } return lo; }
    }
    u64 v = conc(it, e); if (v >= STRIDE) { report(it->st, "huge-alloc", why, it->st.m); it.reset(); throw Forked(); } return v;
  }
  std::string panicMsg(IP &it, Ins &n) {
    std::string m;
    for (size_t i = 0; i + 1 <= n.args.size(); i++) { if (n.args[i].size() != 1) continue; E p = it->regs.size() ? (n.args[i][0] < 0 ? consts[~n.args[i][0]] : it->regs[n.args[i][0]]) : 0; if (!p || !isC(p) || W(p) != 64) continue; u64 a = (u64)K(p); if (a < GBASE || a >= SBASE) continue;
      if (i + 1 < n.args.size() && n.args[i + 1].size() == 1) { E l = n.args[i + 1][0] < 0 ? consts[~n.args[i + 1][0]] : it->regs[n.args[i + 1][0]]; if (l && isC(l) && W(l) == 64 && K(l) < 200) { u32 off; Obj *o = objAt(it->st, a, off); if (o && off + (u64)K(l) <= o->size) { for (u64 k = 0; k < (u64)K(l); k++) { E b = cellByte(o->c[off + k]); if (isC(b)) { char ch = (char)K(b); m += (ch >= 32 && ch < 127) ? ch : '?'; } } return m; } } } }
    return "panic";
  }
  void copy(IP &it, E d, E sr, u64 len) {
    if (!len) return; u64 da = conc(it, d), sa = conc(it, sr); u32 so, doff; const Obj *x = rd(it->st, sa, len, so); std::vector<Cell> t(x->c.begin() + so, x->c.begin() + so + len);
    Obj *o = wr(it->st, da, len, doff); std::copy(t.begin(), t.end(), o->c.begin() + doff);
  }
  bool intrinsic(IP &it, Ins &n) {
    auto A = [&](int i, int k = 0) { return val(*it, n.args[i][k]); }; State &s = it->st;
    switch (n.intr) {
    case IN_NOP: case IN_ASSUME: return true;
    case IN_TRAP: report(s, "panic", "trap", s.m); return false;
    case IN_LIFE_START: case IN_LIFE_END: { int pi = n.args.size() - 1; E p = A(pi); if (isC(p)) { u32 off; OP *h = nullptr; u64 a = (u64)K(p); if (a >= SBASE && a < HBASE) { Obj *o = objAt(s, a, off, &h); if (o) { bool any = false; for (auto &c : o->c) if (c.e) { any = true; break; } if (any) { auto no = std::make_shared<Obj>(); no->size = o->size; no->name = o->name; no->c.assign(o->size, Cell{0, 0, {0, 0, 0}}); *h = no; } } } } return true; }
    case IN_MEMCPY: case IN_MEMMOVE: { u64 len = conc(it, A(2)); copy(it, A(0), A(1), len); return true; }
    case IN_MEMSET: { u64 len = conc(it, A(2)); if (len) { u64 a = conc(it, A(0)); u32 off; Obj *o = wr(s, a, len, off); E b = A(1); for (u64 i = 0; i < len; i++) o->c[off + i] = Cell{b, 0, {0, 0, 0}}; } return true; }
    case IN_TLS: setv(*it, n.dst, A(0)); return true;
    case IN_FMATH: {
      const std::string &fn = n.callee->name; size_t e = fn.find('.', 5); std::string m = fn.substr(5, e - 5); int w = n.retw[0]; if (n.retw.size() != 1) die("intrinsic %s", fn.c_str());
      double v[3] = {0, 0, 0}; long iv = 0; for (size_t k = 0; k < n.args.size() && k < 3; k++) { E x = A(k); u64 c = conc(it, x); if (m == "powi" || m == "ldexp") { if (k == 1) { iv = (int)(u32)c; continue; } } if (W(x) == 32) { u32 b = c; float g; memcpy(&g, &b, 4); v[k] = g; } else memcpy(&v[k], &c, 8); }
      auto rf = [&](auto t) { typedef decltype(t) F; F a = (F)v[0], b = (F)v[1], c = (F)v[2]; return m == "sqrt" ? std::sqrt(a) : m == "floor" ? std::floor(a) : m == "ceil" ? std::ceil(a) : m == "trunc" ? std::trunc(a) : m == "rint" || m == "nearbyint" || m == "roundeven" ? std::nearbyint(a) : m == "round" ? std::round(a) : m == "pow" ? std::pow(a, b) : m == "exp2" ? std::exp2(a) : m == "exp" ? std::exp(a)
          : m == "log" ? std::log(a) : m == "log2" ? std::log2(a) : m == "log10" ? std::log10(a) : m == "fma" || m == "fmuladd" ? std::fma(a, b, c) : m == "minnum" ? std::fmin(a, b) : m == "maxnum" ? std::fmax(a, b) : m == "powi" ? (F)std::pow((double)a, (double)iv) : m == "ldexp" ? std::ldexp(a, (int)iv) : (die("intrinsic %s", fn.c_str()), a); };
      u64 r = 0; if (w == 32) { float g = rf(0.0f); u32 b; memcpy(&b, &g, 4); r = b; } else { double g = rf(0.0); memcpy(&r, &g, 8); } setv(*it, n.dst, mkC(w, r)); return true; }
    case IN_ISCONST: setv(*it, n.dst, FALSE_); return true;
    case IN_RED_ADD: case IN_RED_OR: case IN_RED_AND: case IN_RED_XOR: case IN_RED_UMAX: case IN_RED_UMIN: { E r = A(0, 0); for (size_t k = 1; k < n.args[0].size(); k++) { E x = A(0, k); r = n.intr == IN_RED_ADD ? mkAdd(r, x) : n.intr == IN_RED_OR ? mkOr(r, x) : n.intr == IN_RED_AND ? mkAnd(r, x) : n.intr == IN_RED_XOR ? mkXor(r, x) : n.intr == IN_RED_UMAX ? mkIte(mkUlt(r, x), x, r) : mkIte(mkUlt(x, r), x, r); } setv(*it, n.dst, r); return true; }
    default: break;
    }
    int cnt = n.args[0].size(); bool ov = n.intr >= IN_UADDO && n.intr <= IN_SMULO;
    for (int k = 0; k < cnt; k++) {
      E a = A(0, k), b = n.args.size() > 1 && (int)n.args[1].size() > k ? A(1, k) : 0, r = 0, o = 0; int w = W(a);
      auto sgn = [&](E e) { return mkExtract(e, W(e) - 1, 1); };
      switch (n.intr) {
      case IN_EXPECT: r = a; break;
      case IN_CTPOP: { r = mkC(w, 0); for (int i = 0; i < w; i++) r = mkAdd(r, mkZext(mkExtract(a, i, 1), w)); break; }
      case IN_CTLZ: { r = mkC(w, w); for (int i = 0; i < w; i++) r = mkIte(mkExtract(a, i, 1), mkC(w, w - 1 - i), r); break; }
      case IN_CTTZ: { r = mkC(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(a, i, 1), mkC(w, i), r); break; }
      case IN_BSWAP: { for (int i = w / 8 - 1; i >= 0; i--) { E x = mkExtract(a, 8 * i, 8); r = r ? mkConcat(x, r) : x; } break; }
      case IN_BITREV: { for (int i = w - 1; i >= 0; i--) { E x = mkExtract(a, i, 1); r = r ? mkConcat(x, r) : x; } break; }
      case IN_FSHL: case IN_FSHR: { E c = A(2, k); if (isC(c)) { int sh = (int)(K(c) % w); if (sh == 0) r = n.intr == IN_FSHL ? a : b; else { E cc = mkConcat(a, b); r = n.intr == IN_FSHL ? mkExtract(cc, w - sh, w) : mkExtract(cc, sh, w); } }
        else { E m = mkDiv(UREM, c, mkC(w, w)), inv = mkSub(mkC(w, w), m), z = mkEq(m, mkC(w, 0)); r = n.intr == IN_FSHL ? mkIte(z, a, mkOr(mkShl(a, m), mkLshr(b, inv))) : mkIte(z, b, mkOr(mkShl(a, inv), mkLshr(b, m))); } break; }
      case IN_UMAX: r = mkIte(mkUlt(a, b), b, a); break; case IN_UMIN: r = mkIte(mkUlt(a, b), a, b); break;
      case IN_SMAX: r = mkIte(mkSlt(a, b), b, a); break; case IN_SMIN: r = mkIte(mkSlt(a, b), a, b); break;
      case IN_UADDO: r = mkAdd(a, b); if (w <= 64 && (u128)N[a].umax + N[b].umax <= mask(w)) o = FALSE_; else if (isC(b)) o = mkUlt(mkC(w, mask(w) - K(b)), a); else if (isC(a)) o = mkUlt(mkC(w, mask(w) - K(a)), b); else o = mkUlt(r, a); break;
      case IN_USUBO: r = mkSub(a, b); o = mkUlt(a, b); break;
      case IN_UMULO: { r = mkMul(a, b); if (w <= 64 && (u128)N[a].umax * N[b].umax <= mask(w)) o = FALSE_; else if (isC(b)) o = K(b) == 0 ? FALSE_ : mkUlt(mkC(w, mask(w) / K(b)), a); else if (isC(a)) o = K(a) == 0 ? FALSE_ : mkUlt(mkC(w, mask(w) / K(a)), b); else { if (w > 64) die("umulo"); E p = mkMul(mkZext(a, 2 * w), mkZext(b, 2 * w)); o = mkNot(mkEq(mkExtract(p, w, w), mkC(w, 0))); } break; }
      case IN_SADDO: r = mkAdd(a, b); o = mkAnd(mkNot(mkXor(sgn(a), sgn(b))), mkXor(sgn(a), sgn(r))); break;
      case IN_SSUBO: r = mkSub(a, b); o = mkAnd(mkXor(sgn(a), sgn(b)), mkXor(sgn(a), sgn(r))); break;
      case IN_SMULO: { if (w > 64) die("smulo"); E p = mkMul(mkSext(a, 2 * w), mkSext(b, 2 * w)); r = mkTrunc(p, w); o = mkNot(mkEq(p, mkSext(r, 2 * w))); break; }
      case IN_UADDS: { E t = mkAdd(a, b); r = mkIte(mkUlt(t, a), mkC(w, mask(w)), t); break; }
      case IN_USUBS: r = mkIte(mkUlt(a, b), mkC(w, 0), mkSub(a, b)); break;
      case IN_SADDS: case IN_SSUBS: { E t = n.intr == IN_SADDS ? mkAdd(a, b) : mkSub(a, b); E of = n.intr == IN_SADDS ? mkAnd(mkNot(mkXor(sgn(a), sgn(b))), mkXor(sgn(a), sgn(t))) : mkAnd(mkXor(sgn(a), sgn(b)), mkXor(sgn(a), sgn(t))); r = mkIte(of, mkIte(sgn(a), mkC(w, (u128)1 << (w - 1)), mkC(w, mask(w - 1))), t); break; }
      case IN_ABS: r = mkIte(sgn(a), mkSub(mkC(w, 0), a), a); break;
      case IN_UCMP: { int rw = n.retw[k]; r = mkIte(mkUlt(a, b), mkC(rw, mask(rw)), mkIte(mkEq(a, b), mkC(rw, 0), mkC(rw, 1))); break; }
      case IN_SCMP: { int rw = n.retw[k]; r = mkIte(mkSlt(a, b), mkC(rw, mask(rw)), mkIte(mkEq(a, b), mkC(rw, 0), mkC(rw, 1))); break; }
      case IN_F2USAT: r = mkF2I(false, true, a, n.retw[k]); break; case IN_F2SSAT: r = mkF2I(true, true, a, n.retw[k]); break;
      case IN_FABS: r = mkAnd(a, mkC(w, mask(w - 1))); break;
      case IN_COPYSIGN: r = mkOr(mkAnd(a, mkC(w, mask(w - 1))), mkAnd(b, mkC(w, (u128)1 << (w - 1)))); break;
      default: die("intrinsic %s", n.callee->name.c_str());
      }
      setv(*it, n.dst + k, r); if (ov) setv(*it, n.dst + cnt + k, o);
    }
    return true;
  }
};
static std::vector<Ret> run(Fn *f, State &&s, const std::vector<std::vector<E>> &args) {
  cs.push_back(f); Exec x; x.f = f;
  x.go(std::move(s), args);
  cs.pop_back(); return std::move(x.rets);
}
// ---------------------------------------------------------------- main
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static std::string hex(const std::vector<uint8_t> &b) { std::string r; char t[3]; for (uint8_t x : b) { snprintf(t, 3, "%02x", x); r += t; } return r; }
static std::string entry, bc, outp;
static int mainBody() {
  T0 = now(); exprInit(); std::string error; std::vector<Ret> fin; 
  try {
    loadModule(bc.c_str()); Fn *f = findFn(entry); if (!f || f->decl) die("no entry function %s", entry.c_str());
    State s; s.m = newModel({}); s.conc = std::make_shared<ConcMap>();
    fin = run(f, std::move(s), {});
  } catch (EngineError &e) { error = e.msg; if (!cs.empty()) { error += " [in"; size_t n = cs.size(); for (size_t i = n > 6 ? n - 6 : 0; i < n; i++) error += " > " + cs[i]->pretty; error += "]"; } }
  double tExplore = now() - T0;
  FILE *o = outp.empty() ? stdout : fopen(outp.c_str(), "w"); if (!o) { perror("out"); return 3; }
  fprintf(o, "{\"entry\":\"%s\",\"shard\":\"%d/%d\",\"complete\":%s,\"error\":\"%s\",\n", entry.c_str(), shardK, shardN, error.empty() && !stopAll ? "true" : "false", esc(error).c_str());
  fprintf(o, "\"violations\":["); for (size_t i = 0; i < viols.size(); i++) { auto &v = viols[i]; fprintf(o, "%s\n{\"kind\":\"%s\",\"msg\":\"%s\",\"bytes\":\"%s\",\"stack\":[", i ? "," : "", v.kind.c_str(), esc(v.msg).c_str(), hex(v.bytes).c_str()); for (size_t k = 0; k < v.stack.size(); k++) fprintf(o, "%s\"%s\"", k ? "," : "", esc(v.stack[k]).c_str()); fprintf(o, "]}"); }
  fprintf(o, "],\n\"covers\":{"); bool first = true; for (auto &c : covers) { fprintf(o, "%s\"%d\":\"%s\"", first ? "" : ",", c.first, hex(c.second).c_str()); first = false; }
  fprintf(o, "},\n\"checks_at\":{"); first = true; for (auto &c : checksAt) { fprintf(o, "%s\"%d\":%llu", first ? "" : ",", c.first, (unsigned long long)c.second); first = false; }
  fprintf(o, "},\n\"paths\":[");
  std::mt19937_64 rng(seed); first = true; int multi = 0;
  auto obsOut = [&](Model &m, Ret &r) { std::string t = "["; for (size_t i = 0; i < r.st.obs.size(); i++) { char b[32]; snprintf(b, 32, "%s\"%llx\"", i ? "," : "", (unsigned long long)evalIn(m, r.st.obs[i])); t += b; } return t + "]"; };
  if (error.empty() && !stopAll) {
    size_t step = fin.size() > 150 ? fin.size() / 150 : 1;
    for (size_t i = 0; i < fin.size(); i += step) { std::vector<uint8_t> b(fin[i].st.nin); for (u32 k = 0; k < fin[i].st.nin; k++) b[k] = fin[i].st.m->get(k); MP m = newModel(b); fprintf(o, "%s\n[\"%s\",%s]", first ? "" : ",", hex(b).c_str(), obsOut(*m, fin[i]).c_str()); first = false; }
    fprintf(o, "],\n\"probes\":["); first = true;
    // random inputs: evaluate the final states' path conditions, expect exactly one to hold
    for (u64 p = 0; p < nProbe && fin.size(); p++) {
      Ret &r0 = fin[rng() % fin.size()]; std::vector<uint8_t> b(r0.st.nin); for (u32 k = 0; k < r0.st.nin; k++) b[k] = r0.st.m->get(k);
      int muts = rng() % 4; for (int k = 0; k < muts && b.size(); k++) { size_t i = rng() % b.size(); if ((long)i == shardByte) continue; switch (rng() % 3) { case 0: b[i] = rng(); break; case 1: b[i] += (rng() % 2) ? 1 : -1; break; default: b[i] ^= 1 << (rng() % 8); } }
      MP m = newModel(b); int hits = 0; Ret *h = nullptr;
      for (auto &r : fin) { if (r.st.nin != b.size()) continue; bool ok = true; for (E c : r.st.pc) if (!evalIn(*m, c)) { ok = false; break; } if (ok) { hits++; h = &r; } }
      if (hits > 1) multi++;
      if (hits == 1) { fprintf(o, "%s\n[\"%s\",%s]", first ? "" : ",", hex(b).c_str(), obsOut(*m, *h).c_str()); first = false; }
      else if (hits == 0) { fprintf(o, "%s\n[\"%s\",null]", first ? "" : ",", hex(b).c_str()); first = false; }
    }
  } else fprintf(o, "],\n\"probes\":[");
  fprintf(o, "],\n\"functions\":["); first = true; for (Fn *f : fns) if (f->calls && f->user) { fprintf(o, "%s\"%s\"", first ? "" : ",", esc(f->pretty).c_str()); first = false; }
  u64 nf = 0; for (Fn *f : fns) if (f->calls) nf++;
  fprintf(o, "],\n\"stats\":{\"final_states\":%zu,\"states\":%llu,\"forks\":%llu,\"merges\":%llu,\"merge_refusals\":%llu,\"instructions\":%llu,\"functions_executed\":%llu,\"checks\":%llu,\"checks_constant\":%llu,\"checks_solver\":%llu,\"assume_cuts\":%llu,\"concretisations\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"domain_decisions\":%llu,\"solver_s\":%.2f,\"explore_s\":%.2f,\"total_s\":%.2f,\"exprs\":%zu,\"overlaps\":%d,\"uninit_reads\":%llu}}\n",
    fin.size(), (unsigned long long)nStates, (unsigned long long)nForks, (unsigned long long)nMerges, (unsigned long long)nMergeFail, (unsigned long long)nInstr, (unsigned long long)nf, (unsigned long long)nChecks, (unsigned long long)nCheckTriv, (unsigned long long)nCheckSolver, (unsigned long long)nAssumeKill, (unsigned long long)nConc, (unsigned long long)SS.queries, (unsigned long long)SS.sat, (unsigned long long)SS.unsat, (unsigned long long)SS.cacheHits, (unsigned long long)SS.modelHits, (unsigned long long)nDom, SS.time, tExplore, now() - T0, N.size(), multi, (unsigned long long)nUninit);
  if (o != stdout) fclose(o);
  if (verbose) { std::vector<std::pair<u64, Fn *>> t; for (Fn *f : fns) if (f->calls) t.push_back({f->instrs, f}); std::sort(t.rbegin(), t.rend()); for (size_t i = 0; i < t.size() && i < 25; i++) fprintf(stderr, "%10llu %8llu %s\n", (unsigned long long)t[i].first, (unsigned long long)t[i].second->calls, t[i].second->pretty.c_str());
    std::vector<std::pair<u64, std::string>> fs; for (auto &p : forkSites) fs.push_back({p.second, p.first}); std::sort(fs.rbegin(), fs.rend()); for (size_t i = 0; i < fs.size() && i < 15; i++) fprintf(stderr, "fork %8llu %s\n", (unsigned long long)fs[i].first, fs[i].second.c_str()); }
  fflush(stdout);
  return !viols.empty() ? 1 : error.empty() ? 0 : 2;
}
static int rc;
int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { if (i + 1 >= argc) exit(3); return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") outp = nx(); else if (a == "--time") timeLimit = atof(nx().c_str()); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--shard") sscanf(nx().c_str(), "%d/%d", &shardK, &shardN); else if (a == "--max-viol") maxViol = atoi(nx().c_str()); else if (a == "--probes") nProbe = atoi(nx().c_str()); else if (a == "--param") params.push_back(strtoull(nx().c_str(), 0, 0)); else if (a == "-v") verbose = true; else if (a == "--cap") mergeCap = atoi(nx().c_str()); else if (a == "--merge") mergeMode = atoi(nx().c_str()); else if (a == "--solver-timeout") solverTimeoutMs = atoi(nx().c_str()); else bc = a; }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2ull << 30); pthread_t th;
  pthread_create(&th, &at, [](void *) -> void * { try { rc = mainBody(); } catch (EngineError &e) { fprintf(stderr, "engine: %s\n", e.msg.c_str()); rc = 2; } return nullptr; }, nullptr); pthread_join(th, nullptr);
  _exit(rc);
}
