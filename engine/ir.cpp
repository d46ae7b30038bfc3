#include "ir.h"
#include <llvm-c/BitReader.h>
#include <llvm-c/Target.h>
extern "C" { LLVMValueRef LLVMGetSwitchCaseValue(LLVMValueRef, unsigned); LLVMValueRef LLVMIsACondBrInst(LLVMValueRef); LLVMValueRef LLVMIsAUncondBrInst(LLVMValueRef); }
std::vector<E> consts; std::vector<Fn *> fns; std::vector<OP> globals;
static LLVMContextRef C; static LLVMModuleRef M; static LLVMTargetDataRef TD;
static std::unordered_map<LLVMValueRef, Fn *> fnOf; static std::unordered_map<LLVMValueRef, u64> glOf;
static std::unordered_map<std::string, Fn *> fnByName;
static std::unordered_map<E, int> constIdx;

static void flatTy(LLVMTypeRef t, u64 off, std::vector<Slot> &o) {
  switch (LLVMGetTypeKind(t)) {
  case LLVMVoidTypeKind: break;
  case LLVMIntegerTypeKind: o.push_back({(u32)off, (uint16_t)LLVMGetIntTypeWidth(t)}); break;
  case LLVMPointerTypeKind: o.push_back({(u32)off, 64}); break;
  case LLVMHalfTypeKind: o.push_back({(u32)off, 16}); break;
  case LLVMFloatTypeKind: o.push_back({(u32)off, 32}); break;
  case LLVMDoubleTypeKind: o.push_back({(u32)off, 64}); break;
  case LLVMStructTypeKind: { unsigned n = LLVMCountStructElementTypes(t); for (unsigned i = 0; i < n; i++) flatTy(LLVMStructGetTypeAtIndex(t, i), off + LLVMOffsetOfElement(TD, t, i), o); break; }
  case LLVMArrayTypeKind: { LLVMTypeRef et = LLVMGetElementType(t); u64 n = LLVMGetArrayLength2(t), s = LLVMABISizeOfType(TD, et); for (u64 i = 0; i < n; i++) flatTy(et, off + i * s, o); break; }
  case LLVMVectorTypeKind: { LLVMTypeRef et = LLVMGetElementType(t); u64 n = LLVMGetVectorSize(t); u64 bits = LLVMSizeOfTypeInBits(TD, et); if (bits % 8 && bits != 1) die("vector of i%d", (int)bits); for (u64 i = 0; i < n; i++) flatTy(et, off + i * ((bits + 7) / 8), o); break; }
  default: { char *s = LLVMPrintTypeToString(t); std::string m = s; LLVMDisposeMessage(s); die("type %s not supported", m.c_str()); }
  }
}
static std::vector<Slot> flat(LLVMTypeRef t) { std::vector<Slot> o; flatTy(t, 0, o); return o; }
static int cidx(E e) { auto it = constIdx.find(e); if (it != constIdx.end()) return ~it->second; int i = consts.size(); consts.push_back(e); constIdx[e] = i; return ~i; }
static std::string vstr(LLVMValueRef v) { char *s = LLVMPrintValueToString(v); std::string r = s; LLVMDisposeMessage(s); return r; }
static u128 intConst(LLVMValueRef v) {
  int w = LLVMGetIntTypeWidth(LLVMTypeOf(v));
  if (w <= 64) return LLVMConstIntGetZExtValue(v);
  std::string s = vstr(v); size_t p = s.rfind(' '); bool neg = false; u128 r = 0; for (p++; p < s.size(); p++) { if (s[p] == '-') neg = true; else if (isdigit(s[p])) r = r * 10 + (s[p] - '0'); else die("int const %s", s.c_str()); }
  return neg ? -r : r;
}
static u64 addrOf(LLVMValueRef v) {
  auto f = fnOf.find(v); if (f != fnOf.end()) return f->second->addr;
  auto g = glOf.find(v); if (g != glOf.end()) return g->second;
  die("address of %s", vstr(v).c_str());
}
static void flatConst(LLVMValueRef v, std::vector<E> &o) {
  LLVMTypeRef t = LLVMTypeOf(v);
  if (LLVMIsAGlobalAlias(v)) { flatConst(LLVMAliasGetAliasee(v), o); return; }
  if (LLVMIsAFunction(v) || LLVMIsAGlobalVariable(v)) { o.push_back(mkC(64, addrOf(v))); return; }
  if (LLVMIsAConstantInt(v)) { if (LLVMGetTypeKind(t) == LLVMVectorTypeKind) { for (auto &s : flat(t)) o.push_back(mkC(s.w, LLVMConstIntGetZExtValue(v))); return; } o.push_back(mkC(LLVMGetIntTypeWidth(t), intConst(v))); return; }
  if (LLVMIsUndef(v) || LLVMIsPoison(v) || LLVMIsNull(v)) { for (auto &s : flat(t)) o.push_back(mkC(s.w, 0)); return; }
  if (LLVMIsAConstantFP(v)) { LLVMBool lost; double d = LLVMConstRealGetDouble(v, &lost); if (LLVMGetTypeKind(t) == LLVMDoubleTypeKind) { u64 x; memcpy(&x, &d, 8); o.push_back(mkC(64, x)); return; } if (LLVMGetTypeKind(t) == LLVMFloatTypeKind) { float f = d; u32 x; memcpy(&x, &f, 4); o.push_back(mkC(32, x)); return; } die("fp const %s", vstr(v).c_str()); }
  if (LLVMIsAConstantStruct(v) || LLVMIsAConstantArray(v) || LLVMIsAConstantVector(v) || LLVMIsAConstantDataSequential(v)) {
    unsigned n; switch (LLVMGetTypeKind(t)) { case LLVMStructTypeKind: n = LLVMCountStructElementTypes(t); break; case LLVMArrayTypeKind: n = LLVMGetArrayLength2(t); break; default: n = LLVMGetVectorSize(t); }
    for (unsigned i = 0; i < n; i++) flatConst(LLVMGetAggregateElement(v, i), o);
    return;
  }
  if (LLVMIsAConstantExpr(v)) {
    auto one = [&](int i) { std::vector<E> r; flatConst(LLVMGetOperand(v, i), r); return r.at(0); };
    switch (LLVMGetConstOpcode(v)) {
    case LLVMGetElementPtr: {
      u64 a = (u64)K(one(0)); LLVMTypeRef st = LLVMGetGEPSourceElementType(v); int n = LLVMGetNumOperands(v); LLVMTypeRef cur = st;
      for (int i = 1; i < n; i++) { E k = one(i); int64_t idx = (int64_t)(u64)K(mkSext(k, 64));
        if (i == 1) { a += idx * (int64_t)LLVMABISizeOfType(TD, cur); continue; }
        if (LLVMGetTypeKind(cur) == LLVMStructTypeKind) { a += LLVMOffsetOfElement(TD, cur, idx); cur = LLVMStructGetTypeAtIndex(cur, idx); }
        else { cur = LLVMGetElementType(cur); a += idx * (int64_t)LLVMABISizeOfType(TD, cur); } }
      o.push_back(mkC(64, a)); return; }
    case LLVMIntToPtr: case LLVMPtrToInt: case LLVMBitCast: case LLVMAddrSpaceCast: { E e = one(0); o.push_back(mkZT(e, flat(t)[0].w)); return; }
    case LLVMTrunc: o.push_back(mkTrunc(one(0), flat(t)[0].w)); return;
    case LLVMAdd: o.push_back(mkAdd(one(0), one(1))); return;
    case LLVMSub: o.push_back(mkSub(one(0), one(1))); return;
    case LLVMXor: o.push_back(mkXor(one(0), one(1))); return;
    default: break;
    }
  }
  die("constant not supported: %s", vstr(v).c_str());
}
static bool endsWith(const std::string &s, const char *t) { size_t n = strlen(t); return s.size() >= n && !s.compare(s.size() - n, n, t); }
static int hookOf(const std::string &n, const std::string &p) {
  if (endsWith(n, "___rust_alloc")) return H_ALLOC;
  if (endsWith(n, "___rust_alloc_zeroed")) return H_ALLOCZ;
  if (endsWith(n, "___rust_dealloc")) return H_DEALLOC;
  if (endsWith(n, "___rust_realloc")) return H_REALLOC;
  if (n.find("___rust_no_alloc_shim_is_unstable") != std::string::npos) return H_NOP;
  if (n == "memcmp") return H_MEMCMP; if (n == "bcmp") return H_BCMP;
  if (n == "memcpy") return H_MEMCPY; if (n == "memmove") return H_MEMMOVE; if (n == "memset") return H_MEMSET;
  if (n == "vs_bytes") return H_BYTES; if (n == "vs_assume") return H_ASSUME; if (n == "vs_check") return H_CHECK; if (n == "vs_cover") return H_COVER;
  if (n == "vs_observe") return H_OBS; if (n == "vs_pick") return H_PICK; if (n == "vs_conc") return H_CONC; if (n == "vs_param") return H_PARAM; if (n == "vs_realfmt") return H_REALFMT;
  if (n.find("6random13DefaultHasher") != std::string::npos) { if (endsWith(n, "6Hasher6finish")) return H_HASH; if (endsWith(n, "6Hasher5write")) return H_NOP; }
  if (p.find("hashmap_random_keys") != std::string::npos) return H_KEYS;
  if (p.find("thread_local::destructors") != std::string::npos && endsWith(p, "register")) return H_NOP;
  if (p.find("alloc::fmt::format::format_inner") != std::string::npos) return H_FORMAT;
  return H_NONE;
}
// Rust v0 demangling is not in libstdc++'s demangler everywhere; keep a crude fallback.
extern "C" char *rust_demangle(const char *, int) __attribute__((weak));
static std::string pretty(const std::string &n) {
  if (n.compare(0, 2, "_R")) return n;
  std::string r; size_t i = 2; // collect identifiers: <len>[_]<name>
  while (i < n.size()) {
    if (isdigit(n[i])) { size_t l = 0; while (i < n.size() && isdigit(n[i])) l = l * 10 + (n[i++] - '0'); if (i < n.size() && n[i] == '_') i++; if (l == 0 || i + l > n.size()) continue;
      std::string id = n.substr(i, l); i += l; r += r.empty() ? id : "::" + id; }
    else if (n[i] == 's' || n[i] == 'C' || n[i] == 'B' || n[i] == 'T') { // disambiguator s<base62>_ / backref B<base62>_
      if (n[i] == 's' || n[i] == 'B') { size_t j = i + 1; while (j < n.size() && isalnum(n[j])) j++; if (j < n.size() && n[j] == '_') { i = j + 1; continue; } } i++; }
    else i++;
  }
  return r;
}
void loadModule(const char *path) {
  C = LLVMContextCreate(); LLVMMemoryBufferRef mb; char *err = nullptr;
  if (LLVMCreateMemoryBufferWithContentsOfFile(path, &mb, &err)) die("%s: %s", path, err);
  if (LLVMParseBitcodeInContext2(C, mb, &M)) die("cannot parse %s", path);
  TD = LLVMGetModuleDataLayout(M);
  unsigned nrk = LLVMGetEnumAttributeKindForName("noreturn", 8); u64 fi = 0;
  for (LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) {
    Fn *x = new Fn; size_t l; const char *nm = LLVMGetValueName2(f, &l); x->v = f; x->name.assign(nm, l); x->pretty = pretty(x->name); x->decl = LLVMIsDeclaration(f);
    x->addr = FBASE + (fi++) * 4096; x->noret = LLVMGetEnumAttributeAtIndex(f, LLVMAttributeFunctionIndex, nrk) != nullptr;
    x->hook = hookOf(x->name, x->pretty); x->user = x->pretty.find("cbored") != std::string::npos || x->pretty.find("Cbor") != std::string::npos;
    fns.push_back(x); fnOf[f] = x; fnByName[x->name] = x;
  }
  std::vector<std::pair<LLVMValueRef, u64>> gv;
  for (LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) { u64 s = globals.size(); glOf[g] = GBASE + s * STRIDE; globals.push_back(nullptr); gv.push_back({g, s}); }
  for (auto &p : gv) {
    LLVMValueRef g = p.first; LLVMTypeRef t = LLVMGlobalGetValueType(g); u64 sz = LLVMABISizeOfType(TD, t);
    auto o = std::make_shared<Obj>(); o->ro = LLVMIsGlobalConstant(g); size_t l; const char *nm = LLVMGetValueName2(g, &l); o->name.assign(nm, l);
    if (sz >= STRIDE) die("global too large"); o->size = sz; o->c.assign(sz, Cell{0, 0, {0, 0, 0}});
    LLVMValueRef in = LLVMGetInitializer(g);
    if (in) { try { std::vector<E> es; flatConst(in, es); std::vector<Slot> sl = flat(t); if (es.size() != sl.size()) die("global init");
        for (size_t i = 0; i < es.size(); i++) { int nb = (sl[i].w + 7) / 8; E e = mkZT(es[i], nb * 8); for (int b = 0; b < nb; b++) o->c[sl[i].off + b] = Cell{e, (uint8_t)b, {0, 0, 0}}; }
      } catch (EngineError &e) { o->name += " [init: " + e.msg + "]"; } }
    globals[p.second] = o;
  }
}
Fn *findFn(const std::string &n) { auto it = fnByName.find(n); return it == fnByName.end() ? nullptr : it->second; }
Fn *fnAt(u64 a) { u64 i = (a - FBASE) / 4096; if (a < FBASE || (a - FBASE) % 4096 || i >= fns.size()) return nullptr; return fns[i]; }

static int intrOf(const std::string &n) {
  static const std::pair<const char *, int> T[] = {
    {"llvm.memcpy.", IN_MEMCPY}, {"llvm.memmove.", IN_MEMMOVE}, {"llvm.memset.", IN_MEMSET}, {"llvm.assume", IN_ASSUME}, {"llvm.expect.", IN_EXPECT}, {"llvm.ctpop.", IN_CTPOP}, {"llvm.ctlz.", IN_CTLZ}, {"llvm.cttz.", IN_CTTZ}, {"llvm.bswap.", IN_BSWAP},
    {"llvm.fshl.", IN_FSHL}, {"llvm.fshr.", IN_FSHR}, {"llvm.umax.", IN_UMAX}, {"llvm.umin.", IN_UMIN}, {"llvm.smax.", IN_SMAX}, {"llvm.smin.", IN_SMIN}, {"llvm.uadd.with.overflow.", IN_UADDO}, {"llvm.usub.with.overflow.", IN_USUBO}, {"llvm.umul.with.overflow.", IN_UMULO},
    {"llvm.sadd.with.overflow.", IN_SADDO}, {"llvm.ssub.with.overflow.", IN_SSUBO}, {"llvm.smul.with.overflow.", IN_SMULO}, {"llvm.uadd.sat.", IN_UADDS}, {"llvm.usub.sat.", IN_USUBS}, {"llvm.sadd.sat.", IN_SADDS}, {"llvm.ssub.sat.", IN_SSUBS}, {"llvm.abs.", IN_ABS},
    {"llvm.lifetime.start.", IN_LIFE_START}, {"llvm.lifetime.end.", IN_LIFE_END}, {"llvm.experimental.noalias.scope.decl", IN_NOP}, {"llvm.dbg.", IN_NOP}, {"llvm.invariant.", IN_NOP}, {"llvm.ucmp.", IN_UCMP}, {"llvm.scmp.", IN_SCMP}, {"llvm.bitreverse.", IN_BITREV}, {"llvm.trap", IN_TRAP}, {"llvm.is.constant.", IN_ISCONST},
    {"llvm.vector.reduce.add.", IN_RED_ADD}, {"llvm.vector.reduce.or.", IN_RED_OR}, {"llvm.vector.reduce.and.", IN_RED_AND}, {"llvm.vector.reduce.xor.", IN_RED_XOR}, {"llvm.vector.reduce.umax.", IN_RED_UMAX}, {"llvm.vector.reduce.umin.", IN_RED_UMIN},
    {"llvm.fptoui.sat.", IN_F2USAT}, {"llvm.fptosi.sat.", IN_F2SSAT}, {"llvm.fabs.", IN_FABS}, {"llvm.copysign.", IN_COPYSIGN}, {"llvm.threadlocal.address", IN_TLS}, {"llvm.sqrt.", IN_FMATH},{"llvm.floor.", IN_FMATH},{"llvm.ceil.", IN_FMATH},{"llvm.trunc.", IN_FMATH},{"llvm.rint.", IN_FMATH},{"llvm.nearbyint.", IN_FMATH},{"llvm.roundeven.", IN_FMATH},{"llvm.round.", IN_FMATH},{"llvm.powi.", IN_FMATH},{"llvm.pow.", IN_FMATH},{"llvm.exp2.", IN_FMATH},{"llvm.exp.", IN_FMATH},{"llvm.log2.", IN_FMATH},{"llvm.log10.", IN_FMATH},{"llvm.log.", IN_FMATH},{"llvm.fmuladd.", IN_FMATH},{"llvm.fma.", IN_FMATH},{"llvm.minnum.", IN_FMATH},{"llvm.maxnum.", IN_FMATH},{"llvm.ldexp.", IN_FMATH},
    {"llvm.prefetch", IN_NOP}, {"llvm.sideeffect", IN_NOP}, {"llvm.donothing", IN_NOP}};
  for (auto &p : T) if (n.compare(0, strlen(p.first), p.first) == 0) return p.second;
  return IN_BAD;
}
void decodeFn(Fn *f) {
  if (f->decoded) return; f->decoded = true;
  unsigned nrk = LLVMGetEnumAttributeKindForName("noreturn", 8);
  std::unordered_map<LLVMValueRef, std::pair<int, int>> reg; int nr = 0;
  auto alloc = [&](LLVMValueRef v) { int n = flat(LLVMTypeOf(v)).size(); reg[v] = {nr, n}; nr += n; };
  for (unsigned i = 0; i < LLVMCountParams(f->v); i++) { LLVMValueRef p = LLVMGetParam(f->v, i); if (LLVMGetTypeKind(LLVMTypeOf(p)) == LLVMMetadataTypeKind) { f->params.push_back({0, 0}); continue; } alloc(p); f->params.push_back(reg[p]); }
  std::unordered_map<LLVMBasicBlockRef, int> bidx; int nb = 0;
  for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f->v); b; b = LLVMGetNextBasicBlock(b)) bidx[b] = nb++;
  for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f->v); b; b = LLVMGetNextBasicBlock(b))
    for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i))
      if (LLVMGetTypeKind(LLVMTypeOf(i)) != LLVMVoidTypeKind && LLVMGetTypeKind(LLVMTypeOf(i)) != LLVMTokenTypeKind) alloc(i);
  f->nregs = nr; f->blocks.resize(nb);
  auto refs = [&](LLVMValueRef v) { std::vector<Ref> r; auto it = reg.find(v); if (it != reg.end()) { for (int i = 0; i < it->second.second; i++) r.push_back(it->second.first + i); return r; }
    if (LLVMGetTypeKind(LLVMTypeOf(v)) == LLVMMetadataTypeKind) return r;
    std::vector<E> es; flatConst(v, es); for (E e : es) r.push_back(cidx(e)); return r; };
  auto flatIndex = [&](LLVMTypeRef t, const unsigned *ix, unsigned n, int &start, int &cnt) {
    start = 0; for (unsigned i = 0; i < n; i++) {
      if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { for (unsigned j = 0; j < ix[i]; j++) start += flat(LLVMStructGetTypeAtIndex(t, j)).size(); t = LLVMStructGetTypeAtIndex(t, ix[i]); }
      else { t = LLVMGetElementType(t); start += ix[i] * flat(t).size(); } }
    cnt = flat(t).size(); };
  int bi = 0;
  for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f->v); b; b = LLVMGetNextBasicBlock(b), bi++) {
    Block &B = f->blocks[bi];
    for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
      LLVMOpcode op = LLVMGetInstructionOpcode(i);
      if (op == LLVMPHI) {
        for (unsigned k = 0; k < LLVMCountIncoming(i); k++) { try { auto r = refs(LLVMGetIncomingValue(i, k)); int p = bidx[LLVMGetIncomingBlock(i, k)]; if (B.phis[p].size()) { bool dup = false; for (auto &q : B.phis[p]) if (q.first == reg[i].first) dup = true; if (dup) continue; } for (size_t j = 0; j < r.size(); j++) B.phis[p].push_back({reg[i].first + (int)j, r[j]}); } catch (EngineError &e) { die("phi: %s", e.msg.c_str()); } }
        continue;
      }
      Ins n; n.k = I_BAD; auto it = reg.find(i); if (it != reg.end()) { n.dst = it->second.first; n.nd = it->second.second; }
      try {
        auto opnd = [&](int k) { return refs(LLVMGetOperand(i, k)); };
        auto all = [&](int cnt) { for (int k = 0; k < cnt; k++) { auto r = opnd(k); n.ops.insert(n.ops.end(), r.begin(), r.end()); } };
        if (LLVMIsACondBrInst(i) || LLVMIsAUncondBrInst(i)) op = LLVMBr;
        switch (op) {
        case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem: case LLVMShl: case LLVMLShr: case LLVMAShr: case LLVMAnd: case LLVMOr: case LLVMXor: {
          n.k = I_BIN; n.sub = op == LLVMAdd ? ADD : op == LLVMSub ? SUB : op == LLVMMul ? MUL : op == LLVMUDiv ? UDIV : op == LLVMSDiv ? SDIV : op == LLVMURem ? UREM : op == LLVMSRem ? SREM : op == LLVMShl ? SHL : op == LLVMLShr ? LSHR : op == LLVMAShr ? ASHR : op == LLVMAnd ? AND : op == LLVMOr ? OR : XOR;
          all(2); break; }
        case LLVMFAdd: n.k = I_FBIN; n.sub = 0; all(2); break; case LLVMFSub: n.k = I_FBIN; n.sub = 1; all(2); break; case LLVMFMul: n.k = I_FBIN; n.sub = 2; all(2); break; case LLVMFDiv: n.k = I_FBIN; n.sub = 3; all(2); break;
        case LLVMFNeg: n.k = I_FNEG; all(1); break;
        case LLVMICmp: n.k = I_ICMP; n.sub = LLVMGetICmpPredicate(i); all(2); break;
        case LLVMFCmp: n.k = I_FCMP; n.sub = LLVMGetFCmpPredicate(i); all(2); break;
        case LLVMTrunc: case LLVMZExt: case LLVMSExt: case LLVMBitCast: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMFPExt: case LLVMFPTrunc: case LLVMUIToFP: case LLVMSIToFP: case LLVMFPToUI: case LLVMFPToSI: case LLVMAddrSpaceCast: {
          auto so = flat(LLVMTypeOf(LLVMGetOperand(i, 0))), sd = flat(LLVMTypeOf(i));
          all(1); n.w = sd.at(0).w;
          if (op == LLVMBitCast && so.size() != sd.size()) { n.k = I_COPY; n.sub = 1; for (auto &s : so) n.slots.push_back(s); for (auto &s : sd) n.retw.push_back(s.w); break; }
          n.k = I_CAST; n.sub = op == LLVMTrunc ? C_TRUNC : op == LLVMZExt ? C_ZEXT : op == LLVMSExt ? C_SEXT : op == LLVMFPExt ? C_FPEXT : op == LLVMFPTrunc ? C_FPTRUNC : op == LLVMUIToFP ? C_U2F : op == LLVMSIToFP ? C_S2F : op == LLVMFPToUI ? C_F2U : op == LLVMFPToSI ? C_F2S : C_BITS; break; }
        case LLVMSelect: n.k = I_SELECT; all(3); n.imm = opnd(0).size(); break;
        case LLVMFreeze: n.k = I_COPY; all(1); break;
        case LLVMExtractValue: { int st, cn; flatIndex(LLVMTypeOf(LLVMGetOperand(i, 0)), LLVMGetIndices(i), LLVMGetNumIndices(i), st, cn); auto r = opnd(0); n.k = I_COPY; n.ops.assign(r.begin() + st, r.begin() + st + cn); break; }
        case LLVMInsertValue: { int st, cn; flatIndex(LLVMTypeOf(i), LLVMGetIndices(i), LLVMGetNumIndices(i), st, cn); auto r = opnd(0), v = opnd(1); n.k = I_COPY; n.ops = r; for (int k = 0; k < cn; k++) n.ops[st + k] = v[k]; break; }
        case LLVMExtractElement: { auto r = opnd(0); LLVMValueRef ix = LLVMGetOperand(i, 1); if (!LLVMIsAConstantInt(ix)) die("dynamic extractelement"); n.k = I_COPY; n.ops = {r.at(LLVMConstIntGetZExtValue(ix))}; break; }
        case LLVMInsertElement: { auto r = opnd(0), v = opnd(1); LLVMValueRef ix = LLVMGetOperand(i, 2); if (!LLVMIsAConstantInt(ix)) die("dynamic insertelement"); n.k = I_COPY; n.ops = r; n.ops.at(LLVMConstIntGetZExtValue(ix)) = v[0]; break; }
        case LLVMShuffleVector: { auto a = opnd(0), c = opnd(1); int un = LLVMGetUndefMaskElem(); n.k = I_COPY; for (unsigned k = 0; k < LLVMGetNumMaskElements(i); k++) { int m = LLVMGetMaskValue(i, k); if (m == un) m = 0; n.ops.push_back(m < (int)a.size() ? a[m] : c.at(m - a.size())); } break; }
        case LLVMLoad: n.k = I_LOAD; all(1); n.slots = flat(LLVMTypeOf(i)); break;
        case LLVMAtomicRMW: { n.k = I_RMW; all(2); n.w = flat(LLVMTypeOf(i)).at(0).w; switch (LLVMGetAtomicRMWBinOp(i)) { case LLVMAtomicRMWBinOpXchg: n.sub = 0; break; case LLVMAtomicRMWBinOpAdd: n.sub = 1; break; case LLVMAtomicRMWBinOpSub: n.sub = 2; break; case LLVMAtomicRMWBinOpAnd: n.sub = 3; break; case LLVMAtomicRMWBinOpNand: n.sub = 4; break; case LLVMAtomicRMWBinOpOr: n.sub = 5; break; case LLVMAtomicRMWBinOpXor: n.sub = 6; break;
            case LLVMAtomicRMWBinOpMax: n.sub = 7; break; case LLVMAtomicRMWBinOpMin: n.sub = 8; break; case LLVMAtomicRMWBinOpUMax: n.sub = 9; break; case LLVMAtomicRMWBinOpUMin: n.sub = 10; break; default: die("instruction %s", vstr(i).c_str()); } break; }
        case LLVMAtomicCmpXchg: n.k = I_CMPXCHG; all(3); n.w = flat(LLVMTypeOf(LLVMGetOperand(i, 1))).at(0).w; break;
        case LLVMFence: n.k = I_COPY; break;
        case LLVMStore: { n.k = I_STORE; auto p = opnd(1), v = opnd(0); n.ops = p; n.ops.insert(n.ops.end(), v.begin(), v.end()); n.slots = flat(LLVMTypeOf(LLVMGetOperand(i, 0))); break; }
        case LLVMAlloca: { n.k = I_ALLOCA; u64 sz = LLVMABISizeOfType(TD, LLVMGetAllocatedType(i)); LLVMValueRef c = LLVMGetOperand(i, 0); if (!LLVMIsAConstantInt(c)) die("dynamic alloca"); n.imm = sz * LLVMConstIntGetZExtValue(c); break; }
        case LLVMGetElementPtr: {
          n.k = I_GEP; auto base = opnd(0); if (base.size() != 1) die("vector gep"); n.ops = base; u64 off = 0; LLVMTypeRef cur = LLVMGetGEPSourceElementType(i); int cnt = LLVMGetNumOperands(i);
          for (int k = 1; k < cnt; k++) {
            LLVMValueRef ix = LLVMGetOperand(i, k);
            if (k > 1) { if (LLVMGetTypeKind(cur) == LLVMStructTypeKind) { unsigned fi = LLVMConstIntGetZExtValue(ix); off += LLVMOffsetOfElement(TD, cur, fi); cur = LLVMStructGetTypeAtIndex(cur, fi); continue; } cur = LLVMGetElementType(cur); }
            u64 sz = LLVMABISizeOfType(TD, cur);
            if (LLVMIsAConstantInt(ix)) off += (u64)LLVMConstIntGetSExtValue(ix) * sz;
            else { auto r = refs(ix); n.ops.push_back(r.at(0)); n.ks.push_back(sz); } }
          n.imm = off; break; }
        case LLVMBr: if (LLVMIsACondBrInst(i)) { n.k = I_CONDBR; n.ops = refs(LLVMGetCondition(i)); n.targets = {bidx[LLVMGetSuccessor(i, 0)], bidx[LLVMGetSuccessor(i, 1)]}; } else { n.k = I_BR; n.targets = {bidx[LLVMGetSuccessor(i, 0)]}; } break;
        case LLVMSwitch: { n.k = I_SWITCH; n.ops = opnd(0); int ns = LLVMGetNumSuccessors(i); n.targets.push_back(bidx[LLVMGetSwitchDefaultDest(i)]);
          for (int k = 1; k < ns; k++) { n.targets.push_back(bidx[LLVMGetSuccessor(i, k)]); std::vector<E> es; flatConst(LLVMGetSwitchCaseValue(i, k), es); n.ks.push_back((u64)K(es[0])); } break; }
        case LLVMRet: n.k = I_RET; if (LLVMGetNumOperands(i)) all(1); break;
        case LLVMUnreachable: n.k = I_UNREACH; break;
        case LLVMCall: case LLVMInvoke: {
          n.k = I_CALL; unsigned na = LLVMGetNumArgOperands(i); LLVMValueRef cv = LLVMGetCalledValue(i);
          for (unsigned k = 0; k < na; k++) n.args.push_back(refs(LLVMGetOperand(i, k)));
          for (auto &s : flat(LLVMTypeOf(i))) n.retw.push_back(s.w);
          auto fo = fnOf.find(cv);
          if (fo != fnOf.end()) { n.callee = fo->second; n.noret = n.callee->noret; if (n.callee->name.compare(0, 5, "llvm.") == 0) { n.intr = intrOf(n.callee->name); if (n.intr == IN_BAD) die("intrinsic %s", n.callee->name.c_str()); } }
          else if (LLVMIsAInlineAsm(cv)) { // optimisation barriers only (black_box)
            die("inline asm %s", vstr(i).c_str()); }
          else { auto r = refs(cv); n.calleeRef = r.at(0); n.imm = 1; }
          if (LLVMGetCallSiteEnumAttribute(i, LLVMAttributeFunctionIndex, nrk)) n.noret = true;
          if (op == LLVMInvoke) { B.ins.push_back(n); n = Ins(); n.k = I_BR; n.targets = {bidx[LLVMGetNormalDest(i)]}; }
          break; }
        default: die("instruction %s", vstr(i).c_str());
        }
      } catch (EngineError &e) { n.k = I_BAD; n.bad = e.msg; }
      B.ins.push_back(n);
    }
    for (int t : B.ins.back().targets) if (std::find(B.succ.begin(), B.succ.end(), t) == B.succ.end()) B.succ.push_back(t);
    if (B.ins.size() && B.ins.back().k == I_BAD) { /* terminator unsupported: no successors */ }
  }
  // liveness (live-in, after phi transfer: phi dsts are live-in of their block if used)
  int words = (nr + 63) / 64; std::vector<std::vector<u64>> use(nb, std::vector<u64>(words)), def(nb, std::vector<u64>(words)), in(nb, std::vector<u64>(words));
  auto bit = [](std::vector<u64> &v, int r) { v[r >> 6] |= 1ull << (r & 63); }; auto has = [](const std::vector<u64> &v, int r) { return v[r >> 6] >> (r & 63) & 1; };
  for (int b = 0; b < nb; b++) for (auto &n : f->blocks[b].ins) {
    auto u = [&](Ref r) { if (r >= 0 && !has(def[b], r)) bit(use[b], r); };
    for (Ref r : n.ops) u(r); for (auto &a : n.args) for (Ref r : a) u(r); if (n.k == I_CALL && !n.callee && n.imm) u(n.calleeRef);
    for (int k = 0; k < n.nd; k++) bit(def[b], n.dst + k); }
  for (bool ch = true; ch;) { ch = false;
    for (int b = nb - 1; b >= 0; b--) { std::vector<u64> out(words);
      for (int s : f->blocks[b].succ) { std::vector<u64> t = in[s]; auto ph = f->blocks[s].phis.find(b);
        if (ph != f->blocks[s].phis.end()) { for (auto &p : ph->second) t[p.first >> 6] &= ~(1ull << (p.first & 63)); for (auto &p : ph->second) if (p.second >= 0) bit(t, p.second); }
        for (int w = 0; w < words; w++) out[w] |= t[w]; }
      for (int w = 0; w < words; w++) { u64 x = use[b][w] | (out[w] & ~def[b][w]); if (x != in[b][w]) { in[b][w] = x; ch = true; } } } }
  for (int b = 0; b < nb; b++) f->blocks[b].live = in[b];
  // weak topological order (Bourdoncle): position + enclosing loop heads
  std::vector<int> dfn(nb, 0), stk; int num = 0, pos = 0; std::vector<int> order; std::vector<std::vector<int>> partitionHeads(nb);
  struct El { int v; bool comp; std::vector<El> sub; };
  std::function<int(int, std::vector<El> &)> visit; std::function<El(int)> component; const int INF = 1 << 30;
  component = [&](int v) { El e{v, true, {}}; for (int s : f->blocks[v].succ) if (dfn[s] == 0) visit(s, e.sub); return e; };
  visit = [&](int v, std::vector<El> &part) -> int {
    stk.push_back(v); int head = dfn[v] = ++num; bool loop = false;
    for (int s : f->blocks[v].succ) { int m = dfn[s] == 0 ? visit(s, part) : dfn[s]; if (m <= head) { head = m; loop = true; } }
    if (head == dfn[v]) { dfn[v] = INF; int e = stk.back(); stk.pop_back(); if (loop) { while (e != v) { dfn[e] = 0; e = stk.back(); stk.pop_back(); } part.insert(part.begin(), component(v)); } else part.insert(part.begin(), El{v, false, {}}); }
    return head; };
  std::vector<El> top; if (nb) visit(0, top);
  std::function<void(std::vector<El> &, std::vector<int>)> walk = [&](std::vector<El> &p, std::vector<int> hs) {
    for (auto &e : p) { if (e.comp) { auto h2 = hs; h2.push_back(e.v); f->blocks[e.v].wto = pos++; f->blocks[e.v].heads = h2; walk(e.sub, h2); } else { f->blocks[e.v].wto = pos++; f->blocks[e.v].heads = hs; } } };
  walk(top, {});
}
