// Decoded LLVM IR: scalar registers only, aggregates flattened.
#pragma once
#include "expr.h"
#include <llvm-c/Core.h>
enum IK : uint8_t { I_BIN, I_ICMP, I_FCMP, I_CAST, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_CALL, I_BR, I_CONDBR, I_SWITCH, I_RET, I_UNREACH, I_COPY, I_FNEG, I_FBIN, I_RMW, I_CMPXCHG, I_BAD };
enum Cast : uint8_t { C_TRUNC, C_ZEXT, C_SEXT, C_BITS, C_FPEXT, C_FPTRUNC, C_U2F, C_S2F, C_F2U, C_F2S };
struct Slot { u32 off; uint16_t w; };
struct Fn;
typedef int Ref;  // >=0 register, <0 constant ~ref in consts
struct Ins {
  IK k; uint8_t sub = 0; int w = 0; int dst = -1, nd = 0;
  std::vector<Ref> ops;        // flattened operands
  std::vector<Slot> slots;     // load/store layout, gep (off,scale) unused
  std::vector<u64> ks;         // gep scales / switch case consts / copies
  std::vector<std::vector<Ref>> args;  // call arguments
  std::vector<int> targets; Fn *callee = nullptr; Ref calleeRef = 0; bool noret = false; int intr = 0; u64 imm = 0;
  std::vector<int> retw; std::string bad;
};
struct Block { std::vector<Ins> ins; std::map<int, std::vector<std::pair<int, Ref>>> phis; std::vector<u64> live; std::vector<int> succ; int wto = 0; std::vector<int> heads; };
struct Fn {
  LLVMValueRef v = nullptr; std::string name, pretty; bool decl = false, decoded = false, noret = false; int hook = 0; u64 addr = 0;
  std::vector<Block> blocks; int nregs = 0; std::vector<std::pair<int,int>> params; // base reg, count
  u64 calls = 0, instrs = 0; bool user = false;
};
extern std::vector<E> consts;
extern std::vector<Fn *> fns;
void loadModule(const char *path);
Fn *findFn(const std::string &name);
Fn *fnAt(u64 addr);
void decodeFn(Fn *f);
struct Cell { E e; uint8_t i; uint8_t pad[3]; };
struct Obj { u32 size; bool ro = false; std::vector<Cell> c; std::string name; u64 h = 0; };
typedef std::shared_ptr<Obj> OP;
extern std::vector<OP> globals;   // by slot
const u64 STRIDE = 1 << 23, GBASE = 0x100000000000ull, SBASE = 0x200000000000ull, HBASE = 0x300000000000ull, FBASE = 0x400000000000ull, TOPBASE = 0x500000000000ull;
// intrinsics
enum Intr { IN_NONE = 0, IN_NOP, IN_MEMCPY, IN_MEMMOVE, IN_MEMSET, IN_ASSUME, IN_EXPECT, IN_CTPOP, IN_CTLZ, IN_CTTZ, IN_BSWAP, IN_FSHL, IN_FSHR, IN_UMAX, IN_UMIN, IN_SMAX, IN_SMIN,
  IN_UADDO, IN_USUBO, IN_UMULO, IN_SADDO, IN_SSUBO, IN_SMULO, IN_UADDS, IN_USUBS, IN_SADDS, IN_SSUBS, IN_ABS, IN_LIFE_START, IN_LIFE_END, IN_UCMP, IN_SCMP, IN_BITREV, IN_TRAP, IN_ISCONST,
  IN_RED_ADD, IN_RED_OR, IN_RED_AND, IN_RED_XOR, IN_RED_UMAX, IN_RED_UMIN, IN_F2USAT, IN_F2SSAT, IN_FABS, IN_COPYSIGN, IN_TLS, IN_FMATH, IN_BAD };
enum Hook { H_NONE = 0, H_ALLOC, H_ALLOCZ, H_DEALLOC, H_REALLOC, H_NOP, H_KEYS, H_HASH, H_MEMCMP, H_BCMP, H_FORMAT, H_BYTES, H_ASSUME, H_CHECK, H_COVER, H_OBS, H_PICK, H_CONC, H_PARAM, H_REALFMT, H_MEMCPY, H_MEMMOVE, H_MEMSET };
