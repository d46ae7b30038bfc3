// Hash-consed bit-vector expressions (width 1..128; width 1 doubles as Bool).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <memory>
#include <unordered_map>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint32_t E;  // 0 is never a valid expression ("unset")

enum Op : uint8_t {
  NONE, CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, NOT, SHL, LSHR, ASHR,
  EQ, ULT, SLT, ITE, CONCAT, EXTRACT, ZEXT, SEXT, FPEXT, FPTRUNC, FCMP, FBIN, I2F, F2I
};
extern const char *opname[];

struct Node {
  Op op; uint8_t w; uint16_t aux; E a, b, c;
  u128 k;            // CONST value
  u64 umin, umax;    // unsigned bounds when w<=64
  u64 vs[2];         // set of input bytes mentioned
};
extern std::vector<Node> N;
extern E TRUE_, FALSE_;

struct EngineError { std::string msg; };
[[noreturn]] void die(const char *fmt, ...);

inline u128 mask(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline const Node &nd(E e) { return N[e]; }
inline int W(E e) { return N[e].w; }
inline bool isC(E e) { return N[e].op == CONST; }
inline u128 K(E e) { return N[e].k; }
inline bool isTrue(E e) { return e == TRUE_; }
inline bool isFalse(E e) { return e == FALSE_; }
void exprInit();
E mkC(int w, u128 k);
E mkVar(int idx);
E mkAdd(E, E); E mkSub(E, E); E mkMul(E, E);
E mkDiv(Op, E, E);
E mkAnd(E, E); E mkOr(E, E); E mkXor(E, E); E mkNot(E);
E mkShl(E, E); E mkLshr(E, E); E mkAshr(E, E);
E mkEq(E, E); E mkUlt(E, E); E mkSlt(E, E);
inline E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
inline E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
E mkIte(E, E, E);
E mkConcat(E hi, E lo); E mkExtract(E, int lo, int w);
E mkZext(E, int w); E mkSext(E, int w);
inline E mkTrunc(E e, int w) { return mkExtract(e, 0, w); }
inline E mkZT(E e, int w) { return W(e) == w ? e : W(e) < w ? mkZext(e, w) : mkTrunc(e, w); }
E mkFpext(E, int w); E mkFptrunc(E, int w); E mkFcmp(int pred, E, E);
E mkFbin(int kind, E, E); E mkI2F(bool sgn, E, int w); E mkF2I(bool sgn, bool sat, E, int w);
E rebuild(E e, E a, E b, E c);  // same operator on new children
u128 foldOp(const Node &n, int wa, u128 a, u128 b, u128 c);

struct Model {
  std::vector<uint8_t> b;
  std::unordered_map<E, u128> memo;
  u64 id;
  int get(int i) const { return i < (int)b.size() ? b[i] : 0; }
};
u128 evalIn(Model &m, E e);
std::string estr(E e, int depth = 6);
