#include "expr.h"
#include <cstdarg>
#include <cmath>
const char *opname[] = {"none","const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","not","shl","lshr","ashr",
  "eq","ult","slt","ite","concat","extract","zext","sext","fpext","fptrunc","fcmp","fbin","i2f","f2i"};
std::vector<Node> N;
E TRUE_, FALSE_;
void die(const char *fmt, ...) {
  char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  throw EngineError{buf};
}
static std::vector<E> tab; static size_t tabMask;
static u64 hashNode(const Node &n) {
  u64 h = n.op * 0x9E3779B97F4A7C15ull + n.w * 0xD6E8FEB86659FD93ull + n.aux * 0xA0761D6478BD642Full;
  h = (h ^ (h >> 29)) * 0xBF58476D1CE4E5B9ull + n.a; h = (h ^ (h >> 31)) * 0x94D049BB133111EBull + n.b;
  h = (h ^ (h >> 30)) * 0xBF58476D1CE4E5B9ull + n.c; h = (h ^ (h >> 29)) * 0x94D049BB133111EBull + (u64)n.k;
  h = (h ^ (h >> 31)) * 0x9E3779B97F4A7C15ull + (u64)(n.k >> 64); return h ^ (h >> 32);
}
static bool same(const Node &x, const Node &y) { return x.op == y.op && x.w == y.w && x.aux == y.aux && x.a == y.a && x.b == y.b && x.c == y.c && x.k == y.k; }
static void grow() {
  size_t n = tab.size() ? tab.size() * 2 : 1 << 16; tab.assign(n, 0); tabMask = n - 1;
  for (E i = 1; i < N.size(); i++) { size_t h = hashNode(N[i]) & tabMask; while (tab[h]) h = (h + 1) & tabMask; tab[h] = i; }
}
static inline u64 satadd(u64 a, u64 b) { u64 r = a + b; return r < a ? ~0ull : r; }
static void bounds(Node &n) {
  u64 full = (u64)mask(n.w > 64 ? 64 : n.w); n.umin = 0; n.umax = full;
  if (n.w > 64) { n.umin = 0; n.umax = ~0ull; return; }
  switch (n.op) {
  case CONST: n.umin = n.umax = (u64)n.k; break;
  case ZEXT: n.umin = N[n.a].umin; n.umax = N[n.a].umax; break;
  case ITE: n.umin = std::min(N[n.b].umin, N[n.c].umin); n.umax = std::max(N[n.b].umax, N[n.c].umax); break;
  case ADD: { u64 mx = satadd(N[n.a].umax, N[n.b].umax); if (mx <= full && mx != ~0ull) { n.umax = mx; n.umin = N[n.a].umin + N[n.b].umin; } break; }
  case SUB: if (N[n.a].umin >= N[n.b].umax) { n.umin = N[n.a].umin - N[n.b].umax; n.umax = N[n.a].umax - N[n.b].umin; } break;
  case MUL: { u128 mx = (u128)N[n.a].umax * N[n.b].umax; if (mx <= full) { n.umax = (u64)mx; n.umin = N[n.a].umin * N[n.b].umin; } break; }
  case CONCAT: { int lw = N[n.b].w; n.umax = (N[n.a].umax << lw) | N[n.b].umax; n.umin = (N[n.a].umin << lw) | N[n.b].umin; break; }
  case AND: n.umax = std::min(N[n.a].umax, N[n.b].umax); break;
  case OR: { n.umin = std::max(N[n.a].umin, N[n.b].umin); break; }
  case UREM: if (N[n.b].umin > 0) n.umax = std::min(N[n.a].umax, N[n.b].umax - 1); break;
  case UDIV: if (N[n.b].umin > 0) n.umax = N[n.a].umax / N[n.b].umin; break;
  case LSHR: n.umax = N[n.a].umax; break;
  default: break;
  }
}
static E intern(Op op, int w, int aux, E a, E b, E c, u128 k) {
  Node n; memset(&n, 0, sizeof n); n.op = op; n.w = w; n.aux = aux; n.a = a; n.b = b; n.c = c; n.k = k;
  if (N.size() * 2 >= tab.size()) grow();
  size_t h = hashNode(n) & tabMask;
  while (tab[h]) { if (same(N[tab[h]], n)) return tab[h]; h = (h + 1) & tabMask; }
  if (op == VAR) { n.vs[aux >> 6] |= 1ull << (aux & 63); }
  else for (E x : {a, b, c}) if (x) { n.vs[0] |= N[x].vs[0]; n.vs[1] |= N[x].vs[1]; }
  bounds(n);
  E id = N.size(); N.push_back(n); tab[h] = id; return id;
}
void exprInit() {
  if (N.size()) return;
  N.reserve(1 << 20); Node z; memset(&z, 0, sizeof z); N.push_back(z); grow();
  FALSE_ = mkC(1, 0); TRUE_ = mkC(1, 1);
}
E mkC(int w, u128 k) { if (w < 1 || w > 128) die("bad width %d", w); return intern(CONST, w, 0, 0, 0, 0, k & mask(w)); }
E mkVar(int i) { if (i >= 128) die("more than 128 input bytes"); return intern(VAR, 8, i, 0, 0, 0, 0); }

static i128 sx(u128 v, int w) { v &= mask(w); if (w < 128 && (v >> (w - 1)) & 1) v |= ~mask(w); return (i128)v; }
static double fpOf(u128 v, int w) {
  if (w == 64) { u64 x = v; double d; memcpy(&d, &x, 8); return d; }
  if (w == 32) { u32 x = v; float d; memcpy(&d, &x, 4); return d; }
  die("float width %d", w);
}
static u128 bitsOf(double d, int w) {
  if (w == 64) { u64 x; memcpy(&x, &d, 8); return x; }
  if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; }
  die("float width %d", w);
}
// all evaluation semantics in one place (n.op, n.w, n.aux; operands already masked)
u128 foldOp(const Node &n, int wa, u128 a, u128 b, u128 c) {
  int w = n.w; u128 M = mask(w);
  switch (n.op) {
  case ADD: return (a + b) & M;
  case SUB: return (a - b) & M;
  case MUL: return (a * b) & M;
  case UDIV: return b ? a / b : M;
  case UREM: return b ? a % b : a;
  case SDIV: { i128 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (u128)(-(u128)x) & M; return (u128)(x / y) & M; }
  case SREM: { i128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & M; }
  case AND: return a & b; case OR: return a | b; case XOR: return a ^ b; case NOT: return a ^ 1;
  case SHL: return b >= (u128)w ? 0 : (a << (int)b) & M;
  case LSHR: return b >= (u128)w ? 0 : a >> (int)b;
  case ASHR: { i128 x = sx(a, w); return (u128)(x >> (b >= (u128)w ? w - 1 : (int)b)) & M; }
  case EQ: return a == b; case ULT: return a < b; case SLT: return sx(a, wa) < sx(b, wa);
  case ITE: return a ? b : c;
  case EXTRACT: return (a >> n.aux) & M;
  case ZEXT: return a; case SEXT: return (u128)sx(a, wa) & M;
  case FPEXT: { if (wa != 32 || w != 64) die("fpext"); u32 x = a; if ((x & 0x7f800000) == 0x7f800000 && (x & 0x7fffff))
      return ((u64)(x >> 31) << 63) | 0x7ff8000000000000ull | ((u64)(x & 0x7fffff) << 29);
      return bitsOf(fpOf(a, 32), 64); }
  case FPTRUNC: { if (wa != 64 || w != 32) die("fptrunc"); u64 x = a; if ((x & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (x & 0xfffffffffffffull))
      return ((u32)(x >> 63) << 31) | 0x7fc00000u | (u32)((x & 0xfffffffffffffull) >> 29);
      return bitsOf(fpOf(a, 64), 32); }
  case FCMP: { double x = fpOf(a, wa), y = fpOf(b, wa); bool un = std::isnan(x) || std::isnan(y);
      int p = n.aux; bool r = false; if (un) return (p & 8) ? 1 : 0;
      if ((p & 1) && x == y) r = true; if ((p & 2) && x > y) r = true; if ((p & 4) && x < y) r = true; return r; }
  case FBIN: { // a NaN operand is passed on, quieted; a new NaN is the one x86 makes
      u128 inf = w == 64 ? (u128)0x7ff0000000000000ull : (u128)0x7f800000u, mg = mask(w - 1), qb = (u128)1 << (w == 64 ? 51 : 22); if ((a & mg) > inf) return a | qb; if ((b & mg) > inf) return b | qb; double x = fpOf(a, w), y = fpOf(b, w); double r = n.aux == 0 ? x + y : n.aux == 1 ? x - y : n.aux == 2 ? x * y : x / y; if (std::isnan(r)) return inf | qb | ((u128)1 << (w - 1)); return bitsOf(r, w); }
  case I2F: { if (n.aux) { i128 x = sx(a, wa); return w == 64 ? bitsOf((double)x, 64) : bitsOf((float)x, 32); } return w == 64 ? bitsOf((double)a, 64) : bitsOf((float)a, 32); }
  case F2I: { double x = fpOf(a, wa); bool sg = n.aux & 1; if (std::isnan(x)) return 0; x = trunc(x);
      if (sg) { double lo = -ldexp(1, w - 1), hi = ldexp(1, w - 1); if (x < lo) return (u128)1 << (w - 1); if (x >= hi) return mask(w - 1); return (u128)(i128)x & M; }
      if (x < 0) return 0; if (x >= ldexp(1, w)) return M; return (u128)x & M; }
  default: die("foldOp %s", opname[n.op]);
  }
}
static bool isPow2(u128 k) { return k && !(k & (k - 1)); }
static int log2of(u128 k) { int r = 0; while (k >>= 1) r++; return r; }
static E fold(Op op, int w, int aux, E a, E b = 0, E c = 0) {
  Node n; memset(&n, 0, sizeof n); n.op = op; n.w = w; n.aux = aux;
  return mkC(w, foldOp(n, W(a), K(a), b ? K(b) : 0, c ? K(c) : 0));
}
static bool iteC(E e) { return N[e].op == ITE && (isC(N[e].b) || isC(N[e].c)); }
static bool iteCC(E e) { return N[e].op == ITE && isC(N[e].b) && isC(N[e].c); }
// ITE tree whose leaves are all constants (bounded walk)
static bool constTree(E e, int d = 40) {
  while (true) {
    if (isC(e)) return true;
    if (N[e].op != ITE || d-- <= 0) return false;
    if (!isC(N[e].b) && !constTree(N[e].b, d / 2)) return false;
    e = N[e].c;
  }
}

// results of pushing an operator through an ITE DAG (keeps it linear in the DAG size)
static std::unordered_map<u128, E, std::function<size_t(u128)>> opc(1 << 12, [](u128 k) { return (size_t)((u64)k * 0x9E3779B97F4A7C15ull ^ (u64)(k >> 64) * 0xD6E8FEB86659FD93ull); });
static inline u128 opk(int op, u32 a, u32 b, u32 aux = 0) { return ((u128)(((u64)op << 32) | aux) << 64) | ((u64)a << 32) | b; }
#define MEMO(key, expr) do { u128 _k = (key); auto _it = opc.find(_k); if (_it != opc.end()) return _it->second; E _r = (expr); opc[_k] = _r; return _r; } while (0)

E mkAdd(E a, E b) {
  int w = W(a);
  if (w == 1) return mkXor(a, b);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return fold(ADD, w, 0, a, b);
    if (K(b) == 0) return a;
    if (N[a].op == ADD && isC(N[a].b)) return mkAdd(N[a].a, mkC(w, K(N[a].b) + K(b)));
    if (iteC(a)) { Node n = N[a]; MEMO(opk(ADD, a, b), mkIte(n.a, mkAdd(n.b, b), mkAdd(n.c, b))); }
    return intern(ADD, w, 0, a, b, 0, 0);
  }
  if (N[a].op == ADD && isC(N[a].b)) return mkAdd(mkAdd(N[a].a, b), N[a].b);
  if (N[b].op == ADD && isC(N[b].b)) return mkAdd(mkAdd(a, N[b].a), N[b].b);
  if (N[a].op == SUB && N[a].b == b) return N[a].a;
  if (N[b].op == SUB && N[b].b == a) return N[b].a;
  if (a > b) std::swap(a, b);
  return intern(ADD, w, 0, a, b, 0, 0);
}
E mkSub(E a, E b) {
  int w = W(a);
  if (w == 1) return mkXor(a, b);
  if (a == b) return mkC(w, 0);
  if (isC(b)) return mkAdd(a, mkC(w, -K(b)));
  if (N[a].op == ADD) {
    Node n = N[a];
    if (n.a == b) return n.b; if (n.b == b) return n.a;
    if (isC(n.b)) return mkAdd(mkSub(n.a, b), n.b);
  }
  if (N[b].op == ADD && isC(N[b].b)) return mkAdd(mkSub(a, N[b].a), mkC(w, -K(N[b].b)));
  if (isC(a) && iteC(b)) { Node n = N[b]; return mkIte(n.a, mkSub(a, n.b), mkSub(a, n.c)); }
  if (N[a].op == ITE && N[b].op == ITE && N[a].a == N[b].a) { Node x = N[a], y = N[b]; return mkIte(x.a, mkSub(x.b, y.b), mkSub(x.c, y.c)); }
  return intern(SUB, w, 0, a, b, 0, 0);
}
E mkMul(E a, E b) {
  int w = W(a);
  if (w == 1) return mkAnd(a, b);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return fold(MUL, w, 0, a, b);
    if (K(b) == 0) return b;
    if (K(b) == 1) return a;
    if (isPow2(K(b))) return mkShl(a, mkC(w, log2of(K(b))));
    if (iteC(a)) { Node n = N[a]; return mkIte(n.a, mkMul(n.b, b), mkMul(n.c, b)); }
    return intern(MUL, w, 0, a, b, 0, 0);
  }
  if (a > b) std::swap(a, b);
  return intern(MUL, w, 0, a, b, 0, 0);
}
E mkDiv(Op op, E a, E b) {
  int w = W(a);
  if (isC(a) && isC(b)) return fold(op, w, 0, a, b);
  if (isC(b)) {
    if (op == UDIV && isPow2(K(b))) return mkLshr(a, mkC(w, log2of(K(b))));
    if (op == UREM && isPow2(K(b))) return mkAnd(a, mkC(w, K(b) - 1));
    if (w <= 64 && op == UREM && N[a].umax < (u64)K(b)) return a;
    if (iteC(a)) { Node n = N[a]; return mkIte(n.a, mkDiv(op, n.b, b), mkDiv(op, n.c, b)); }
  }
  return intern(op, w, 0, a, b, 0, 0);
}
// ---- bitwise -------------------------------------------------------------
struct Seg { E e; int w; };
static void segs(E e, std::vector<Seg> &o) {
  Node n = N[e];
  if (n.op == CONCAT) { segs(n.b, o); segs(n.a, o); }
  else if (n.op == ZEXT) { segs(n.a, o); o.push_back({mkC(n.w - N[n.a].w, 0), n.w - N[n.a].w}); }
  else o.push_back({e, n.w});
}
static bool segable(E e) { return N[e].op == CONCAT || N[e].op == ZEXT; }
static int runs(u128 k, int w) { int r = 1; for (int i = 1; i < w; i++) if (((k >> i) & 1) != ((k >> (i - 1)) & 1)) r++; return r; }
static E bitop(Op op, E a, E b);
static E bitSeg(Op op, E a, E b) {
  std::vector<Seg> sa, sb; segs(a, sa); segs(b, sb);
  auto splitConst = [&](std::vector<Seg> &s) { // cut constants at 0/1 runs for AND/OR
    if (op == XOR) return; std::vector<Seg> o;
    for (auto &g : s) { if (!isC(g.e)) { o.push_back(g); continue; }
      u128 k = K(g.e); int i = 0; if (runs(k, g.w) > 6) { o.push_back(g); continue; }
      while (i < g.w) { int j = i + 1; while (j < g.w && ((k >> j) & 1) == ((k >> i) & 1)) j++; o.push_back({mkC(j - i, k >> i), j - i}); i = j; } }
    s = o; };
  splitConst(sa); splitConst(sb);
  E r = 0; size_t i = 0, j = 0; int oa = 0, ob = 0;
  while (i < sa.size()) {
    int n = std::min(sa[i].w - oa, sb[j].w - ob);
    E pa = mkExtract(sa[i].e, oa, n), pb = mkExtract(sb[j].e, ob, n);
    E p = bitop(op, pa, pb);
    r = r ? mkConcat(p, r) : p;
    oa += n; ob += n; if (oa == sa[i].w) { i++; oa = 0; } if (ob == sb[j].w) { j++; ob = 0; }
  }
  return r;
}
static E bitop(Op op, E a, E b) {
  int w = W(a); u128 M = mask(w);
  if (isC(a)) std::swap(a, b);
  if (isC(a) && isC(b)) return fold(op, w, 0, a, b);
  if (a == b) return op == XOR ? mkC(w, 0) : a;
  if (isC(b)) {
    u128 k = K(b);
    if (op == AND) { if (k == 0) return b; if (k == M) return a; }
    if (op == OR) { if (k == 0) return a; if (k == M) return b; }
    if (op == XOR) { if (k == 0) return a; if (w == 1) { return mkNot(a); } }
  }
  if (w == 1) {
    if (op == AND || op == OR) {
      E na = mkNot(a), nb = mkNot(b);
      if (na == b) return op == AND ? FALSE_ : TRUE_;
      Op dual = op == AND ? OR : AND;
      for (int t = 0; t < 2; t++) {
        if (N[b].op == dual) { if (N[b].a == a || N[b].b == a) return a; if (N[b].a == na) return bitop(op, a, N[b].b); if (N[b].b == na) return bitop(op, a, N[b].a); }
        if (N[b].op == op) { if (N[b].a == a || N[b].b == a) return b; if (N[b].a == na || N[b].b == na) return op == AND ? FALSE_ : TRUE_; }
        std::swap(a, b); std::swap(na, nb);
      }
      // factor common part: (x&y)|(x&z) -> x&(y|z)
      if (N[a].op == dual && N[b].op == dual) {
        Node x = N[a], y = N[b];
        if (x.a == y.a) return bitop(dual, x.a, bitop(op, x.b, y.b));
        if (x.a == y.b) return bitop(dual, x.a, bitop(op, x.b, y.a));
        if (x.b == y.a) return bitop(dual, x.b, bitop(op, x.a, y.b));
        if (x.b == y.b) return bitop(dual, x.b, bitop(op, x.a, y.a));
      }
      // equalities of one term with two different constants
      if (op == AND && N[a].op == EQ && N[b].op == EQ && N[a].a == N[b].a && isC(N[a].b) && isC(N[b].b)) return FALSE_;
      if (op == AND && N[a].op == EQ && isC(N[a].b) && N[b].op == NOT && N[N[b].a].op == EQ && N[N[b].a].a == N[a].a && isC(N[N[b].a].b)) return a;
      if (op == AND && N[b].op == EQ && isC(N[b].b) && N[a].op == NOT && N[N[a].a].op == EQ && N[N[a].a].a == N[b].a && isC(N[N[a].a].b)) return b;
    } else {
      if (N[a].op == NOT && N[b].op == NOT) return bitop(XOR, N[a].a, N[b].a);
      if (N[a].op == NOT) return mkNot(bitop(XOR, N[a].a, b));
      if (N[b].op == NOT) return mkNot(bitop(XOR, a, N[b].a));
    }
    if (a > b) std::swap(a, b);
    return intern(op, 1, 0, a, b, 0, 0);
  }
  if (isC(b) && N[a].op == op && isC(N[a].b)) return bitop(op, N[a].a, fold(op, w, 0, N[a].b, b));
  if ((segable(a) || isC(a)) && (segable(b) || isC(b))) return bitSeg(op, a, b);
  if (isC(b) && (op == AND || op == OR) && runs(K(b), w) <= 3 && N[a].op != ITE && N[a].op != AND && N[a].op != OR && N[a].op != XOR) return bitSeg(op, a, b);
  if (isC(b) && iteC(a)) { Node n = N[a]; return mkIte(n.a, bitop(op, n.b, b), bitop(op, n.c, b)); }
  if (isC(b) && op == AND && (N[a].op == ITE)) { Node n = N[a]; if (runs(K(b), w) <= 3) return mkIte(n.a, bitop(op, n.b, b), bitop(op, n.c, b)); }
  if (segable(a) && segable(b)) return bitSeg(op, a, b);
  if (op == AND && w <= 64 && isC(b) && N[a].umax <= (u64)K(b) && ((K(b) + 1) & K(b)) == 0) return a;
  if (a > b && !isC(b)) std::swap(a, b);
  return intern(op, w, 0, a, b, 0, 0);
}
E mkAnd(E a, E b) { return bitop(AND, a, b); }
E mkOr(E a, E b) { return bitop(OR, a, b); }
E mkXor(E a, E b) { return bitop(XOR, a, b); }
E mkNot(E a) {
  int w = W(a);
  if (w > 1) return mkXor(a, mkC(w, mask(w)));
  if (isC(a)) return K(a) ? FALSE_ : TRUE_;
  if (N[a].op == NOT) return N[a].a;
  return intern(NOT, 1, 0, a, 0, 0, 0);
}
E mkShl(E a, E b) {
  int w = W(a);
  if (isC(b)) { u128 k = K(b); if (k >= (u128)w) return mkC(w, 0); if (!k) return a; if (isC(a)) return fold(SHL, w, 0, a, b);
    return mkConcat(mkExtract(a, 0, w - (int)k), mkC((int)k, 0)); }
  if (iteCC(b)) { Node n = N[b]; return mkIte(n.a, mkShl(a, n.b), mkShl(a, n.c)); }
  return intern(SHL, w, 0, a, b, 0, 0);
}
E mkLshr(E a, E b) {
  int w = W(a);
  if (isC(b)) { u128 k = K(b); if (k >= (u128)w) return mkC(w, 0); if (!k) return a; return mkZext(mkExtract(a, (int)k, w - (int)k), w); }
  if (iteCC(b)) { Node n = N[b]; return mkIte(n.a, mkLshr(a, n.b), mkLshr(a, n.c)); }
  return intern(LSHR, w, 0, a, b, 0, 0);
}
E mkAshr(E a, E b) {
  int w = W(a);
  if (isC(b)) { u128 k = K(b); if (k >= (u128)w) k = w - 1; if (!k) return a; return mkSext(mkExtract(a, (int)k, w - (int)k), w); }
  return intern(ASHR, w, 0, a, b, 0, 0);
}
E mkEq(E a, E b) {
  int w = W(a);
  if (w != W(b)) die("eq width %d %d", w, W(b));
  if (a == b) return TRUE_;
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return FALSE_;
  if (w == 1) { if (isC(b)) return K(b) ? a : mkNot(a); return mkNot(mkXor(a, b)); }
  if (w <= 64 && (N[a].umax < N[b].umin || N[a].umin > N[b].umax)) return FALSE_;
  Node x = N[a], y = N[b];
  if (isC(b)) {
    u128 k = y.k;
    switch (x.op) {
    case ZEXT: { int wa = W(x.a); if (k >> wa) return FALSE_; return mkEq(x.a, mkC(wa, k)); }
    case SEXT: { int wa = W(x.a); u128 low = k & mask(wa); if (((u128)sx(low, wa) & mask(w)) != k) return FALSE_; return mkEq(x.a, mkC(wa, low)); }
    case CONCAT: { int lw = W(x.b); E h = mkEq(x.a, mkC(w - lw, k >> lw)); if (isFalse(h)) return FALSE_; return mkAnd(h, mkEq(x.b, mkC(lw, k))); }
    case ADD: if (isC(x.b)) return mkEq(x.a, mkC(w, k - K(x.b))); break;
    case XOR: if (isC(x.b)) return mkEq(x.a, mkC(w, k ^ K(x.b))); break;
    case SUB: if (k == 0) return mkEq(x.a, x.b); if (isC(x.a)) return mkEq(x.b, mkC(w, K(x.a) - k)); break;
    case ITE: if (isC(x.b) || isC(x.c) || constTree(a)) MEMO(opk(EQ, a, b), mkIte(x.a, mkEq(x.b, b), mkEq(x.c, b))); break;
    default: break;
    }
    return intern(EQ, 1, 0, a, b, 0, 0);
  }
  if (x.op == ZEXT && y.op == ZEXT) { int m = std::max(W(x.a), W(y.a)); return mkEq(mkZext(x.a, m), mkZext(y.a, m)); }
  if (x.op == ZEXT && y.op == CONCAT) { int lw = W(y.b); return mkAnd(mkEq(mkExtract(a, lw, w - lw), y.a), mkEq(mkExtract(a, 0, lw), y.b)); }
  if (x.op == CONCAT && (y.op == ZEXT || y.op == CONCAT)) { int lw = W(x.b); return mkAnd(mkEq(x.a, mkExtract(b, lw, w - lw)), mkEq(x.b, mkExtract(b, 0, lw))); }
  if (x.op == ADD && y.op == ADD && isC(x.b) && isC(y.b)) return mkEq(x.a, mkAdd(y.a, mkC(w, K(y.b) - K(x.b))));
  if (x.op == ITE && (x.b == b || x.c == b)) return x.b == b ? mkOr(x.a, mkEq(x.c, b)) : mkOr(mkNot(x.a), mkEq(x.b, b));
  if (y.op == ITE && (y.b == a || y.c == a)) return y.b == a ? mkOr(y.a, mkEq(y.c, a)) : mkOr(mkNot(y.a), mkEq(y.b, a));
  if (x.op == ITE && y.op == ITE && x.a == y.a) return mkIte(x.a, mkEq(x.b, y.b), mkEq(x.c, y.c));
  if (a > b) std::swap(a, b);
  return intern(EQ, 1, 0, a, b, 0, 0);
}
E mkUlt(E a, E b) {
  int w = W(a);
  if (w != W(b)) die("ult width %d %d", w, W(b));
  if (a == b) return FALSE_;
  if (isC(a) && isC(b)) return K(a) < K(b) ? TRUE_ : FALSE_;
  if (w == 1) return mkAnd(mkNot(a), b);
  if (w <= 64) { if (N[a].umax < N[b].umin) return TRUE_; if (N[a].umin >= N[b].umax) return FALSE_; }
  Node x = N[a], y = N[b];
  if (isC(b)) {
    if (y.k == 0) return FALSE_;
    if (y.k == 1) return mkEq(a, mkC(w, 0));
    if (y.k == mask(w)) return mkNot(mkEq(a, b));
    if (x.op == ZEXT) { int wa = W(x.a); if (y.k >> wa) return TRUE_; return mkUlt(x.a, mkC(wa, y.k)); }
    if (x.op == ITE && (isC(x.b) || isC(x.c) || constTree(a))) MEMO(opk(ULT, a, b), mkIte(x.a, mkUlt(x.b, b), mkUlt(x.c, b)));
    // power-of-two threshold: compare the high bits with zero
    if (isPow2(y.k) && x.op != ITE && x.op != ADD && x.op != SUB && x.op != MUL) { int l = log2of(y.k); E h = mkExtract(a, l, w - l); if (N[h].op != EXTRACT || N[a].op == EXTRACT) return mkEq(h, mkC(w - l, 0)); }
    if (x.op == CONCAT) { int lw = W(x.b); u128 kh = y.k >> lw, kl = y.k & mask(lw); if (kl == 0) return mkUlt(x.a, mkC(w - lw, kh));
      if (isC(x.a)) return K(x.a) < kh ? TRUE_ : K(x.a) > kh ? FALSE_ : mkUlt(x.b, mkC(lw, kl)); }
  }
  if (isC(a)) {
    if (x.k == mask(w)) return FALSE_;
    if (x.k == 0) return mkNot(mkEq(b, a));
    if (x.k == mask(w) - 1) return mkEq(b, mkC(w, mask(w)));
    if (y.op == ZEXT) { int wb = W(y.a); if (x.k >> wb) return FALSE_; return mkUlt(mkC(wb, x.k), y.a); }
    if (y.op == ITE && (isC(y.b) || isC(y.c) || constTree(b))) return mkIte(y.a, mkUlt(a, y.b), mkUlt(a, y.c));
    return mkNot(mkUlt(b, mkC(w, x.k + 1)));   // k < y  <=>  !(y < k+1)
  }
  if (x.op == ZEXT && y.op == ZEXT) { int m = std::max(W(x.a), W(y.a)); if (m < w) return mkUlt(mkZext(x.a, m), mkZext(y.a, m)); }
  return intern(ULT, 1, 0, a, b, 0, 0);
}
E mkSlt(E a, E b) {
  int w = W(a);
  if (a == b) return FALSE_;
  if (isC(a) && isC(b)) return fold(SLT, 1, 0, a, b);
  if (w == 1) return mkAnd(a, mkNot(b));
  if (isC(b) && K(b) == 0) return mkExtract(a, w - 1, 1);
  if (isC(a) && K(a) == mask(w)) return mkNot(mkExtract(b, w - 1, 1));   // -1 < b
  if (w <= 64) { u64 h = 1ull << (w - 1); if (N[a].umax < h && N[b].umax < h) return mkUlt(a, b); if (N[a].umax < h && N[b].umin >= h) return FALSE_; if (N[a].umin >= h && N[b].umax < h) return TRUE_; }
  if (isC(b) && iteC(a)) { Node n = N[a]; return mkIte(n.a, mkSlt(n.b, b), mkSlt(n.c, b)); }
  if (isC(a) && iteC(b)) { Node n = N[b]; return mkIte(n.a, mkSlt(a, n.b), mkSlt(a, n.c)); }
  return intern(SLT, 1, 0, a, b, 0, 0);
}
E mkIte(E c, E a, E b) {
  if (a == b || isTrue(c)) return a;
  if (isFalse(c)) return b;
  int w = W(a);
  if (w != W(b)) die("ite width %d %d", w, W(b));
  if (N[c].op == NOT) { c = N[c].a; std::swap(a, b); }
  if (w == 1) {
    if (isC(a)) return K(a) ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return K(b) ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
    if (mkNot(a) == b) return mkNot(mkXor(c, a));
  }
  if (N[a].op == ITE && N[a].a == c) return mkIte(c, N[a].b, b);
  if (N[b].op == ITE && N[b].a == c) return mkIte(c, a, N[b].c);
  if (N[b].op == ITE && N[b].b == a) { Node y = N[b]; return mkIte(mkOr(c, y.a), a, y.c); }
  if (N[b].op == ITE && N[b].c == a) { Node y = N[b]; return mkIte(mkAnd(mkNot(c), y.a), y.b, a); }
  if (N[a].op == ITE && N[a].c == b) { Node x = N[a]; return mkIte(mkAnd(c, x.a), x.b, b); }
  if (N[a].op == ITE && N[a].b == b) { Node x = N[a]; return mkIte(mkAnd(c, mkNot(x.a)), x.c, b); }
  if (N[c].op == EQ) { Node e = N[c]; if ((e.a == b && e.b == a) || (e.a == a && e.b == b)) return b; }
  if (w > 1 && N[a].op == ZEXT && N[b].op == ZEXT && W(N[a].a) == W(N[b].a)) return mkZext(mkIte(c, N[a].a, N[b].a), w);
  return intern(ITE, w, 0, c, a, b, 0);
}
E mkConcat(E h, E l) {
  int w = W(h) + W(l);
  if (w > 128) die("concat width %d", w);
  Node x = N[h], y = N[l];
  if (isC(h) && isC(l)) return mkC(w, (x.k << y.w) | y.k);
  if (isC(h) && x.k == 0) return mkZext(l, w);
  if (x.op == CONCAT) return mkConcat(x.a, mkConcat(x.b, l));
  if (x.op == ZEXT) return mkZext(mkConcat(x.a, l), w);
  if (isC(h) && y.op == CONCAT && isC(y.a)) return mkConcat(mkConcat(h, y.a), y.b);
  auto ex = [](E e, E &src, int &lo) { if (N[e].op == EXTRACT) { src = N[e].a; lo = N[e].aux; } else { src = e; lo = 0; } };
  E s1, s2; int l1, l2; ex(h, s1, l1);
  E top = y.op == CONCAT ? y.a : l;
  ex(top, s2, l2);
  if (s1 == s2 && l1 == l2 + W(top)) { E m = mkExtract(s1, l2, W(h) + W(top)); return y.op == CONCAT ? mkConcat(m, y.b) : m; }
  if (x.op == ITE && y.op == ITE && x.a == y.a) return mkIte(x.a, mkConcat(x.b, y.b), mkConcat(x.c, y.c));
  return intern(CONCAT, w, 0, h, l, 0, 0);
}
E mkExtract(E e, int lo, int w) {
  Node n = N[e];
  if (lo == 0 && w == n.w) return e;
  if (lo < 0 || w < 1 || lo + w > n.w) die("extract [%d,+%d) of width %d", lo, w, n.w);
  switch (n.op) {
  case CONST: return mkC(w, n.k >> lo);
  case EXTRACT: return mkExtract(n.a, lo + n.aux, w);
  case CONCAT: { int lw = W(n.b); if (lo + w <= lw) return mkExtract(n.b, lo, w); if (lo >= lw) return mkExtract(n.a, lo - lw, w);
    return mkConcat(mkExtract(n.a, 0, lo + w - lw), mkExtract(n.b, lo, lw - lo)); }
  case ZEXT: { int wa = W(n.a); if (lo >= wa) return mkC(w, 0); if (lo + w <= wa) return mkExtract(n.a, lo, w); return mkZext(mkExtract(n.a, lo, wa - lo), w); }
  case SEXT: { int wa = W(n.a); if (lo + w <= wa) return mkExtract(n.a, lo, w); if (lo == 0 && w > wa) return mkSext(n.a, w); break; }
  case ITE: MEMO(opk(EXTRACT, e, lo, w), mkIte(n.a, mkExtract(n.b, lo, w), mkExtract(n.c, lo, w)));
  case AND: case OR: case XOR: return bitop(n.op, mkExtract(n.a, lo, w), mkExtract(n.b, lo, w));
  case ADD: if (lo == 0) return mkAdd(mkTrunc(n.a, w), mkTrunc(n.b, w)); break;
  case SUB: if (lo == 0) return mkSub(mkTrunc(n.a, w), mkTrunc(n.b, w)); break;
  case MUL: if (lo == 0) return mkMul(mkTrunc(n.a, w), mkTrunc(n.b, w)); break;
  default: break;
  }
  return intern(EXTRACT, w, lo, e, 0, 0, 0);
}
E mkZext(E e, int w) {
  int we = W(e);
  if (w == we) return e;
  if (w < we) die("zext");
  if (isC(e)) return mkC(w, K(e));
  if (N[e].op == ZEXT) return mkZext(N[e].a, w);
  if (iteCC(e) || (iteC(e) && we > 1)) { Node n = N[e]; MEMO(opk(ZEXT, e, w), mkIte(n.a, mkZext(n.b, w), mkZext(n.c, w))); }
  return intern(ZEXT, w, 0, e, 0, 0, 0);
}
E mkSext(E e, int w) {
  int we = W(e);
  if (w == we) return e;
  if (isC(e)) return fold(SEXT, w, 0, e);
  if (we == 1) return mkIte(e, mkC(w, mask(w)), mkC(w, 0));
  if (N[e].op == SEXT) return mkSext(N[e].a, w);
  if (we <= 64 && N[e].umax < (1ull << (we - 1))) return mkZext(e, w);
  if (iteC(e)) { Node n = N[e]; return mkIte(n.a, mkSext(n.b, w), mkSext(n.c, w)); }
  return intern(SEXT, w, 0, e, 0, 0, 0);
}
E mkFpext(E e, int w) { if (isC(e)) return fold(FPEXT, w, 0, e); return intern(FPEXT, w, 0, e, 0, 0, 0); }
E mkFptrunc(E e, int w) { if (isC(e)) return fold(FPTRUNC, w, 0, e); return intern(FPTRUNC, w, 0, e, 0, 0, 0); }
E mkFcmp(int p, E a, E b) { if (isC(a) && isC(b)) return fold(FCMP, 1, p, a, b); if (p == 0) return FALSE_; if (p == 15) return TRUE_; return intern(FCMP, 1, p, a, b, 0, 0); }
E mkFbin(int k, E a, E b) { if (isC(a) && isC(b)) return fold(FBIN, W(a), k, a, b); return intern(FBIN, W(a), k, a, b, 0, 0); }
E mkI2F(bool s, E e, int w) { if (isC(e)) return fold(I2F, w, s, e); return intern(I2F, w, s, e, 0, 0, 0); }
E mkF2I(bool s, bool sat, E e, int w) { if (isC(e)) return fold(F2I, w, s, e); return intern(F2I, w, s, e, 0, 0, 0); }
E rebuild(E e, E a, E b, E c) {
  Node n = N[e];
  if (n.a == a && n.b == b && n.c == c) return e;
  switch (n.op) {
  case ADD: return mkAdd(a, b); case SUB: return mkSub(a, b); case MUL: return mkMul(a, b);
  case UDIV: case SDIV: case UREM: case SREM: return mkDiv(n.op, a, b);
  case AND: case OR: case XOR: return bitop(n.op, a, b); case NOT: return mkNot(a);
  case SHL: return mkShl(a, b); case LSHR: return mkLshr(a, b); case ASHR: return mkAshr(a, b);
  case EQ: return mkEq(a, b); case ULT: return mkUlt(a, b); case SLT: return mkSlt(a, b);
  case ITE: return mkIte(a, b, c); case CONCAT: return mkConcat(a, b); case EXTRACT: return mkExtract(a, n.aux, n.w);
  case ZEXT: return mkZext(a, n.w); case SEXT: return mkSext(a, n.w); case FPEXT: return mkFpext(a, n.w); case FPTRUNC: return mkFptrunc(a, n.w);
  case FCMP: return mkFcmp(n.aux, a, b); case FBIN: return mkFbin(n.aux, a, b); case I2F: return mkI2F(n.aux, a, n.w); case F2I: return mkF2I(n.aux, true, a, n.w);
  default: die("rebuild");
  }
}
u128 evalIn(Model &m, E e) {
  const Node &n = N[e];
  if (n.op == CONST) return n.k;
  if (n.op == VAR) return m.get(n.aux);
  auto it = m.memo.find(e); if (it != m.memo.end()) return it->second;
  u128 r;
  if (n.op == ITE) r = evalIn(m, n.a) ? evalIn(m, n.b) : evalIn(m, n.c);
  else if (n.op == CONCAT) r = (evalIn(m, n.a) << W(n.b)) | evalIn(m, n.b);
  else if (n.op == AND && n.w == 1) r = evalIn(m, n.a) ? evalIn(m, n.b) : 0;
  else if (n.op == OR && n.w == 1) r = evalIn(m, n.a) ? 1 : evalIn(m, n.b);
  else { u128 a = evalIn(m, n.a), b = n.b ? evalIn(m, n.b) : 0; Node nn = N[e]; r = foldOp(nn, W(nn.a), a, b, 0); }
  m.memo[e] = r; return r;
}
std::string estr(E e, int d) {
  if (!e) return "?"; const Node &n = N[e]; char b[64];
  if (n.op == CONST) { snprintf(b, 64, "%llx:%d", (unsigned long long)n.k, n.w); return b; }
  if (n.op == VAR) { snprintf(b, 64, "b%d", n.aux); return b; }
  if (!d) return "..";
  std::string s = std::string("(") + opname[n.op];
  if (n.op == EXTRACT) s += "[" + std::to_string(n.aux) + "+" + std::to_string(n.w) + "]";
  for (E x : {n.a, n.b, n.c}) if (x) s += " " + estr(x, d - 1);
  return s + ")";
}
