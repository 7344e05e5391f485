// vg: algebraic value-graph comparison of witness functions.
//
// Reads one LLVM bitcode module, finds every pair of functions <law>__L /
// <law>__R and builds, for each function, a hash-consed *gated value graph*
// (all paths at once: phi nodes and memory merges become selects on block
// predicates; nothing is executed and no path is enumerated).  Two outputs are
// equal when their value numbers coincide modulo the theory
//   commutative field + sqrt(x)^2=x + uninterpreted functions + min/max/abs/
//   select over sign atoms,
// decided by algebraic fingerprints over a large prime field (random
// interpretation, Gulwani & Necula POPL'03/'04) under consistent assignments
// of the sign atoms.
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/IntrinsicsX86.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Demangle/Demangle.h"
#include <cstdio>
#include <cmath>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <regex>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>

using namespace llvm;
typedef unsigned long long u64;
typedef __int128 i128;
typedef unsigned __int128 u128;

struct Unsupported { std::string why; };
[[noreturn]] static void bad(const std::string &s) { throw Unsupported{s}; }

// ---------------------------------------------------------------- field ----
static u64 P;
static inline u64 addm(u64 a, u64 b) { u64 c = a + b; return c >= P ? c - P : c; }
static inline u64 subm(u64 a, u64 b) { return a >= b ? a - b : a + P - b; }
static inline u64 mulm(u64 a, u64 b) { return (u64)((u128)a * b % P); }
static u64 powm(u64 a, u64 e) { u64 r = 1; while (e) { if (e & 1) r = mulm(r, a); a = mulm(a, a); e >>= 1; } return r; }
static inline u64 invm(u64 a) { return powm(a, P - 2); }
static bool isQR(u64 a) { return a == 0 || powm(a, (P - 1) / 2) == 1; }
static bool isPrime(u64 n) {
  u64 save = P; P = n; bool ok = true;
  u64 d = n - 1; int s = 0; while (!(d & 1)) { d >>= 1; s++; }
  for (u64 a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
    u64 x = powm(a, d); if (x == 1 || x == n - 1) continue;
    bool comp = true; for (int i = 1; i < s; i++) { x = mulm(x, x); if (x == n - 1) { comp = false; break; } }
    if (comp) { ok = false; break; }
  }
  P = save; return ok;
}
static void initPrime() { // p = 3 mod 4, small primes are squares
  for (u64 n = (1ull << 61) - 1; ; n -= 2) {
    if (n % 8 != 7 || !isPrime(n)) continue;
    P = n; bool ok = true;
    for (u64 q : {2, 3, 5, 7, 11, 13, 17, 19}) ok = ok && isQR(q);
    if (ok) return;
  }
}
static u64 fromInt(long long v) { return v >= 0 ? (u64)v % P : P - ((u64)(-v) % P == 0 ? P : (u64)(-v) % P); }
// simplest rational within 2^-46 relative distance (Stern-Brocot)
static u64 fromDouble(double x) {
  if (x == 0) return 0;
  bool neg = x < 0; double v = std::fabs(x);
  int e = 0; double m = v;
  // scale out powers of ten/two for extreme values exactly as m*2^e
  if (v > 1e12 || v < 1e-9) { m = std::frexp(v, &e); }
  long double t = m, lo = t * (1 - 0x1p-46L), hi = t * (1 + 0x1p-46L);
  // continued fraction
  u64 h0 = 1, h1 = 0, k0 = 0, k1 = 1; long double r = t; u64 num = 0, den = 1; bool ok = false;
  for (int i = 0; i < 40; i++) {
    long double fl = floorl(r); if (fl > 4e17L) break; u64 a = (u64)fl;
    if ((u128)a * h0 + h1 > (u128)4e17 || (u128)a * k0 + k1 > (u128)4e17) break;
    u64 h = a * h0 + h1, k = a * k0 + k1; h1 = h0; h0 = h; k1 = k0; k0 = k;
    num = h; den = k; long double q = (long double)h / k;
    if (q >= lo && q <= hi) { ok = true; break; }
    if (r == fl) break; r = 1 / (r - fl);
  }
  (void)ok;
  // a constant that is no simple fraction is read as its shortest decimal
  if (e == 0 && den > (1u << 20)) {
    char b[40]; int dig = 1; for (; dig <= 17; dig++) { snprintf(b, 40, "%.*e", dig - 1, v); if (strtod(b, nullptr) == v) break; }
    if (dig <= 17) { u64 mant = 0; const char *c = b; for (; *c && *c != 'e'; c++) if (*c != '.') mant = mant * 10 + (*c - '0'); int ex = atoi(c + 1) - (dig - 1); u64 r2 = mant % P, t10 = powm(10, ex < 0 ? -ex : ex); r2 = mulm(r2, ex < 0 ? invm(t10) : t10); return neg ? subm(0, r2) : r2; }
  }
  u64 res = mulm(num % P, invm(den % P));
  if (e > 0) res = mulm(res, powm(2, e)); if (e < 0) res = mulm(res, invm(powm(2, -e)));
  return neg ? subm(0, res) : res;
}

// ---------------------------------------------------------------- nodes ----
enum Op : int { UNDEF, CF, CI, INP, UF, FADD, FSUB, FMUL, FDIV, FNEG, SQRT, FABS, FMIN, FMAX, COPYSIGN,
  SEL, FCMP, ICMP, AND, OR, XOR, ADD, SUB, MUL, SHL, LSHR, ASHR, SDIV, UDIV, SREM, UREM, SEXT, ZEXT, TRUNC,
  SITOFP, FPTOSI, PTR, SMIN, SMAX, UMIN, UMAX, FREM, CAT, SUBBITS };
static const char *opn[] = { "undef","const","iconst","input","uf","fadd","fsub","fmul","fdiv","fneg","sqrt","fabs","fmin","fmax","copysign",
  "select","fcmp","icmp","and","or","xor","add","sub","mul","shl","lshr","ashr","sdiv","udiv","srem","urem","sext","zext","trunc",
  "sitofp","fptosi","ptr","smin","smax","umin","umax","frem","cat","subbits" };
struct Node { Op op; long long k; int w; std::vector<int> a; std::string s; int sg; const DILocation *loc; };
// sg: static sign: +1 pos, -1 neg, 2 nonneg, 0 unknown
static std::vector<Node> N;
struct Key { int op; long long k; int w; std::vector<int> a; std::string s;
  bool operator<(const Key &o) const { return std::tie(op, k, w, a, s) < std::tie(o.op, o.k, o.w, o.a, o.s); } };
static std::map<Key, int> cons;
static const DILocation *curLoc = nullptr;

static double asD(long long k) { double d; memcpy(&d, &k, 8); return d; }
static long long asK(double d) { if (d == 0) d = 0; long long k; memcpy(&k, &d, 8); return k; }
static bool ispos(int s) { return s == 1; }
static int sgnOf(Op op, long long k, const std::vector<int> &a, const std::string &s) {
  auto S = [&](int i) { return N[a[i]].sg; };
  auto nn = [&](int i) { return S(i) == 1 || S(i) == 2; };
  switch (op) {
  case CF: { double d = asD(k); return d > 0 ? 1 : d < 0 ? -1 : 2; }
  case INP: return s == "p" ? 1 : 0;
  case FADD: if (nn(0) && nn(1)) return (S(0) == 1 || S(1) == 1) ? 1 : 2; if (S(0) == -1 && S(1) == -1) return -1; return 0;
  case FSUB: if (nn(0) && S(1) == -1) return 1; if (S(0) == -1 && nn(1)) return -1; return 0;
  case FMUL: if (a[0] == a[1]) return S(0) == 1 || S(0) == -1 ? 1 : 2;
    if (S(0) && S(1)) { if (S(0) == 2 || S(1) == 2) return (S(0) != -1 && S(1) != -1) ? 2 : 0; return S(0) * S(1); } return 0;
  case FDIV: if (S(0) && S(1) && S(0) != 2 && S(1) != 2) return S(0) * S(1); if (nn(0) && nn(1)) return 2; return 0;
  case FNEG: return S(0) == 1 ? -1 : S(0) == -1 ? 1 : 0;
  case SQRT: return S(0) == 1 ? 1 : 2;
  case FABS: return S(0) == 1 || S(0) == -1 ? 1 : 2;
  case FMAX: if (S(0) == 1 || S(1) == 1) return 1; if (nn(0) || nn(1)) return 2; if (S(0) == -1 && S(1) == -1) return -1; return 0;
  case FMIN: if (S(0) == 1 && S(1) == 1) return 1; if (nn(0) && nn(1)) return 2; if (S(0) == -1 || S(1) == -1) return -1; return 0;
  case SEL: { // an arm that the condition itself compares has the sign the comparison implies, e.g. x > 0 ? x : 0
    const Node &c = N[a[0]]; int sa[2] = {S(1), S(2)};
    if (c.op == FCMP && (c.k == CmpInst::FCMP_OGT || c.k == CmpInst::FCMP_OGE)) {
      int p = c.a[0], q = c.a[1]; bool gt = c.k == CmpInst::FCMP_OGT;
      auto zero = [&](int n) { return N[n].op == CF && asD(N[n].k) == 0; }; auto nnn = [&](int n) { return N[n].sg == 1 || N[n].sg == 2; };
      if (!sa[0] && a[1] == p && nnn(q)) sa[0] = gt || N[q].sg == 1 ? 1 : 2;      // p > q >= 0
      if (!sa[0] && a[1] == q && gt && (N[p].sg == -1 || zero(p))) sa[0] = -1;    // 0 > q
      if (!sa[1] && a[2] == q && nnn(p)) sa[1] = !gt || N[p].sg == 1 ? 1 : 2;     // !(p > q), q >= p >= 0
      if (!sa[1] && a[2] == p && !gt && zero(q)) sa[1] = -1;                      // !(p >= 0)
    }
    auto n2 = [](int x) { return x == 1 || x == 2; };
    if (sa[0] == sa[1]) return sa[0]; if (n2(sa[0]) && n2(sa[1])) return 2; return 0; }
  case UF: if (s == "exp") return 1; if (s == "pow" && S(0) == 1) return 1; return 0;
  default: return 0;
  }
}
static long long sextw(long long v, int w) { if (w >= 64) return v; if (w == 1) return v & 1; return (v << (64 - w)) >> (64 - w); }
static u64 zextw(long long v, int w) { if (w >= 64) return (u64)v; return (u64)v & ((1ull << w) - 1); }
static int mk(Op op, std::vector<int> a = {}, long long k = 0, int w = 0, const std::string &s = "") {
  Key key{op, k, w, a, s};
  auto it = cons.find(key); if (it != cons.end()) return it->second;
  int id = (int)N.size(); int sg = sgnOf(op, k, a, s);
  N.push_back({op, k, w, a, s, sg, curLoc}); cons[key] = id; return id;
}
static int ci(long long v, int w) { return mk(CI, {}, sextw(v, w), w); }
static int cf(double d) { return mk(CF, {}, asK(d)); }
static bool isCI(int n, long long &v) { if (N[n].op == CI) { v = N[n].k; return true; } return false; }
static int T() { return ci(1, 1); } static int Fa() { return ci(0, 1); }
static int notb(int a) { long long v; if (isCI(a, v)) return ci(!v, 1); if (N[a].op == XOR && N[a].w == 1 && N[a].a[1] == T()) return N[a].a[0]; return mk(XOR, {a, T()}, 0, 1); }
static int sel(int c, int t, int f);
static int andb(int a, int b) { long long v; if (isCI(a, v)) return v ? b : a; if (isCI(b, v)) return v ? a : b; if (a == b) return a; if (notb(a) == b) return Fa(); if (a > b) std::swap(a, b); return mk(AND, {a, b}, 0, 1); }
static int orb(int a, int b) { long long v; if (isCI(a, v)) return v ? a : b; if (isCI(b, v)) return v ? b : a; if (a == b) return a; if (notb(a) == b) return T();
  // (x&c)|(x&!c) -> x
  if (N[a].op == AND && N[b].op == AND && N[a].w == 1 && N[b].w == 1) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
    if (N[a].a[i] == N[b].a[j] && notb(N[a].a[1 - i]) == N[b].a[1 - j]) return N[a].a[i];
  if (a > b) std::swap(a, b); return mk(OR, {a, b}, 0, 1); }
static int sel(int c, int t, int f) {
  long long v; if (isCI(c, v)) return v ? t : f; if (t == f) return t;
  if (N[t].op == UNDEF) return f; if (N[f].op == UNDEF) return t;
  if (N[t].w == 1 && N[t].op == CI && N[f].op == CI) return N[t].k ? c : notb(c);
  if (N[c].op == XOR && N[c].w == 1 && N[c].a[1] == T()) return sel(N[c].a[0], f, t);
  return mk(SEL, {c, t, f}, 0, N[t].w);
}
static long long foldI(Op op, long long a, long long b, int w, bool &ok) {
  ok = true; u64 ua = zextw(a, w), ub = zextw(b, w);
  switch (op) {
  case ADD: return sextw((long long)((u64)a + (u64)b), w); case SUB: return sextw((long long)((u64)a - (u64)b), w);
  case MUL: return sextw((long long)((u64)a * (u64)b), w);
  case AND: return a & b; case OR: return a | b; case XOR: return sextw(a ^ b, w);
  case SHL: if (ub >= (u64)w) { ok = false; return 0; } return sextw((long long)(ua << ub), w);
  case LSHR: if (ub >= (u64)w) { ok = false; return 0; } return sextw((long long)(ua >> ub), w);
  case ASHR: if (ub >= (u64)w) { ok = false; return 0; } return sextw(sextw(a, w) >> ub, w);
  case SDIV: if (!b) { ok = false; return 0; } return a / b; case SREM: if (!b) { ok = false; return 0; } return a % b;
  case UDIV: if (!b) { ok = false; return 0; } return sextw((long long)(ua / ub), w); case UREM: if (!b) { ok = false; return 0; } return sextw((long long)(ua % ub), w);
  case SMIN: return std::min(a, b); case SMAX: return std::max(a, b);
  case UMIN: return ua < ub ? a : b; case UMAX: return ua > ub ? a : b;
  default: ok = false; return 0;
  }
}
static bool icmpEval(int pred, long long a, long long b, int w) {
  u64 ua = zextw(a, w), ub = zextw(b, w); if (w == 1) { a = -(a & 1); b = -(b & 1); }
  switch (pred) {
  case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
  case CmpInst::ICMP_SGT: return a > b; case CmpInst::ICMP_SGE: return a >= b; case CmpInst::ICMP_SLT: return a < b; case CmpInst::ICMP_SLE: return a <= b;
  case CmpInst::ICMP_UGT: return ua > ub; case CmpInst::ICMP_UGE: return ua >= ub; case CmpInst::ICMP_ULT: return ua < ub; case CmpInst::ICMP_ULE: return ua <= ub;
  } bad("icmp");
}
static bool isFloatNode(int n) {
  switch (N[n].op) { case INP: return N[n].w == 0; case CF: case FADD: case FSUB: case FMUL: case FDIV: case FNEG: case SQRT: case FABS: case FMIN: case FMAX: case COPYSIGN: case SITOFP: case FREM: return true;
  case UF: return N[n].w == 0; case SEL: return isFloatNode(N[n].a[1]) ; default: return false; }
}
static bool constTree(int n, int d) { return N[n].op == CI || (d > 0 && N[n].op == SEL && constTree(N[n].a[1], d - 1) && constTree(N[n].a[2], d - 1)); }
static int bin(Op op, int a, int b, int w) {
  long long x, y; bool ca = isCI(a, x), cb = isCI(b, y);
  if (N[a].op == CF && cb && asD(N[a].k) == 0) { a = ci(0, w); ca = true; x = 0; }
  if (ca && cb) { bool ok; long long r = foldI(op, x, y, w, ok); if (ok) return ci(r, w); return mk(UNDEF); }
  if (w == 1) { if (op == AND) return andb(a, b); if (op == OR) return orb(a, b); if (op == XOR) { if (cb && (y & 1)) return notb(a); if (cb) return a; if (ca && (x & 1)) return notb(b); } }
  if (ca && (op == ADD || op == MUL || op == AND || op == OR || op == XOR)) { std::swap(a, b); std::swap(x, y); std::swap(ca, cb); }
  if (cb) {
    if (y == 0) { if (op == ADD || op == SUB || op == OR || op == XOR || op == SHL || op == LSHR || op == ASHR) return a; if (op == MUL || op == AND) return b; }
    if (y == 1 && (op == MUL || op == SDIV || op == UDIV)) return a;
    if (y == -1 && op == AND) return a;
    if (w == 64 && isFloatNode(a)) { // bit tricks on doubles
      if (op == AND && y == 0x7fffffffffffffffLL) return mk(FABS, {a});
      if (op == XOR && (u64)y == 0x8000000000000000ULL) return mk(FNEG, {a});
    }
    if (N[a].op == SEL && w > 1 && (N[N[a].a[1]].op == CI || N[N[a].a[2]].op == CI)) { int c = N[a].a[0]; return sel(c, bin(op, N[a].a[1], b, w), bin(op, N[a].a[2], b, w)); }
  }
  // finite choices of constants stay finite choices
  if (w > 1 && constTree(a, 5) && constTree(b, 5) && !ca && !cb) {
    if (N[a].op == SEL) { int c = N[a].a[0], p = N[a].a[1], q = N[a].a[2]; return sel(c, bin(op, p, b, w), bin(op, q, b, w)); }
    if (N[b].op == SEL) { int c = N[b].a[0], p = N[b].a[1], q = N[b].a[2]; return sel(c, bin(op, a, p, w), bin(op, a, q, w)); }
  }
  // mask logic: and(sext(c), x) = select(c, x, 0)
  if (op == AND && w > 1) {
    for (int i = 0; i < 2; i++) { int m = i ? b : a, x2 = i ? a : b;
      if (N[m].op == SEXT && N[N[m].a[0]].w == 1) return sel(N[m].a[0], x2, ci(0, w)); 
      if (N[m].op == XOR && N[m].a[1] == ci(-1, w) && N[N[m].a[0]].op == SEXT) return sel(N[N[m].a[0]].a[0], ci(0, w), x2); }
  }
  if (op == OR && w > 1 && N[a].op == SEL && N[b].op == SEL && N[a].a[0] == N[b].a[0]) return sel(N[a].a[0], bin(OR, N[a].a[1], N[b].a[1], w), bin(OR, N[a].a[2], N[b].a[2], w));
  return mk(op, {a, b}, 0, w);
}
static int fb(Op op, int a, int b) {
  if (N[a].op == CF && N[b].op == CF) { double x = asD(N[a].k), y = asD(N[b].k);
    if (op == FADD) return cf(x + y); if (op == FSUB) return cf(x - y); if (op == FMUL) return cf(x * y); if (op == FDIV && y != 0) return cf(x / y); if (op == FMIN) return cf(std::min(x, y)); if (op == FMAX) return cf(std::max(x, y)); }
  if (op == FADD && N[b].op == CF && asD(N[b].k) == 0) return a; if (op == FADD && N[a].op == CF && asD(N[a].k) == 0) return b;
  if (op == FSUB && N[b].op == CF && asD(N[b].k) == 0) return a;
  if (op == FMUL) { for (int i = 0; i < 2; i++) { int c = i ? b : a, o = i ? a : b; if (N[c].op == CF) { if (asD(N[c].k) == 1) return o; if (asD(N[c].k) == 0) return cf(0); } } }
  if (op == FDIV && N[b].op == CF && asD(N[b].k) == 1) return a;
  if ((op == FADD || op == FMUL || op == FMIN || op == FMAX) && a > b) std::swap(a, b);
  return mk(op, {a, b});
}

// --------------------------------------------------------------- memory ----
struct Cell { int n; int size; };
struct Obj { std::map<long long, Cell> c; bool zero = false; std::vector<std::pair<long long,long long>> zr; const GlobalVariable *gv = nullptr; std::string name; int base = -1; };
typedef std::shared_ptr<Obj> ObjP;
struct Mem { std::map<int, ObjP> o; };
typedef std::vector<int> Vals;
static int nextObj = 1;
static std::map<const GlobalVariable*, int> gobj; static std::map<int, const GlobalVariable*> objg;
static std::map<const Function*, int> fobj;
static const DataLayout *DL;

static void scalarTypes(Type *t, std::vector<std::pair<Type*, long long>> &out, long long off = 0) {
  if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) scalarTypes(s->getElementType(i), out, off + sl->getElementOffset(i)); return; }
  if (auto *a = dyn_cast<ArrayType>(t)) { long long sz = (long long)DL->getTypeAllocSize(a->getElementType()).getFixedValue(); for (u64 i = 0; i < a->getNumElements(); i++) scalarTypes(a->getElementType(), out, off + i * sz); return; }
  if (auto *v = dyn_cast<FixedVectorType>(t)) { auto bits = DL->getTypeSizeInBits(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) out.push_back({v->getElementType(), off + (long long)(i * (bits.getFixedValue()) / 8)}); return; }
  out.push_back({t, off});
}
static int width(Type *t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; return 0; }


struct In { int p; Mem m; std::vector<Vals> phi; };
struct Stats { long calls = 0; int loopBound = -1, cut = 0, blocks = 0, gates = 0, unrolled = 0; std::set<std::string> fns; };
static std::vector<std::pair<int,int>> assumed; static std::set<std::string> opaqueOk; // opaque calls modelled as no-ops
struct Build {
  Function &F; Stats &S; DenseMap<const Value*, Vals> env; std::map<const BasicBlock*, std::vector<In>> inc; Mem cur; int P0; int thrown; int dropped; int thrownTy = -1; Mem finalMem; Vals retVal; bool haveFinal = false; int retPred; int depth; int &gates;
  std::map<const Function*, std::unique_ptr<DominatorTree>> dts;
  int &seq;
  Build(Function &f, Stats &st, int &sq, int d = 0) : F(f), S(st), depth(d), gates(st.gates), seq(sq) { thrown = Fa(); dropped = Fa(); retPred = Fa(); }

  int objFor(const GlobalVariable *g) { auto it = gobj.find(g); if (it != gobj.end()) return it->second; int id = nextObj++; gobj[g] = id; objg[id] = g; return id; }
  Obj &wr(int id) { auto &p = cur.o[id]; if (!p) { p = std::make_shared<Obj>(); } else if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return *p; }
  static int ptr(int o, long long off) { return mk(PTR, {}, off, o); }
  int constNode(const Constant *c) {
    if (auto *f = dyn_cast<ConstantFP>(c)) { if (f->getType()->isDoubleTy()) return cf(f->getValueAPF().convertToDouble()); if (f->getType()->isFloatTy()) return cf(f->getValueAPF().convertToFloat()); 
      if (f->getType()->isX86_FP80Ty()) { APFloat v = f->getValueAPF(); bool l; v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); return cf(v.convertToDouble()); } bad("fp const type"); }
    if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) { if (i->getValue().getActiveBits() <= 64 && i->isZero()) return ci(0, 64); bad("wide int const"); } return ci(i->getSExtValue(), i->getBitWidth()); }
    if (isa<ConstantPointerNull>(c)) return ptr(0, 0);
    if (isa<UndefValue>(c)) return mk(UNDEF);
    if (auto *g = dyn_cast<GlobalVariable>(c)) return ptr(objFor(g), 0);
    if (auto *f = dyn_cast<Function>(c)) { auto it = fobj.find(f); int id; if (it == fobj.end()) { id = nextObj++; fobj[f] = id; } else id = it->second; return ptr(id, 0); }
    if (auto *ga = dyn_cast<GlobalAlias>(c)) return constNode(ga->getAliasee());
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (ce->getOpcode() == Instruction::GetElementPtr) { APInt off(64, 0); if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { int b = constNode(ce->getOperand(0)); return ptr(N[b].w, N[b].k + off.getSExtValue()); } }
      if (ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::IntToPtr || ce->isCast()) return constNode(ce->getOperand(0));
      if (ce->getOpcode() == Instruction::ICmp && (ce->getPredicate() == CmpInst::ICMP_EQ || ce->getPredicate() == CmpInst::ICMP_NE)) { int a = constNode(ce->getOperand(0)), b = constNode(ce->getOperand(1)); if (N[a].op == PTR && N[b].op == PTR && (a == b || N[a].w != N[b].w)) return ci((a == b) == (ce->getPredicate() == CmpInst::ICMP_EQ), 1); } // addresses of different objects
    }
    std::string s; raw_string_ostream os(s); c->print(os); bad("constant " + os.str());
  }
  void constVals(const Constant *c, Vals &out) {
    Type *t = c->getType();
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
      for (unsigned i = 0; i < n; i++) { Constant *e = c->getAggregateElement(i); if (!e) bad("aggregate const"); constVals(e, out); }
      return;
    }
    out.push_back(constNode(c));
  }
  Vals get(const Value *v) {
    auto it = env.find(v); if (it != env.end()) return it->second;
    if (auto *c = dyn_cast<Constant>(v)) { Vals r; constVals(c, r); return r; }
    std::string s; raw_string_ostream os(s); v->print(os); bad("no value for " + os.str());
  }
  int get1(const Value *v) { Vals r = get(v); if (r.size() != 1) bad("not scalar"); return r[0]; }

  // ---- loads and stores
  bool initLookup(int obj, long long off, int size, Type *t, int &res) {
    auto it = objg.find(obj); if (it == objg.end()) return false;
    const GlobalVariable *g = it->second; if (!g->hasInitializer()) return false;
    Vals v; const Constant *init = g->getInitializer();
    if (init->isNullValue()) { res = t->isFloatingPointTy() ? cf(0) : t->isPointerTy() ? ptr(0, 0) : ci(0, width(t)); return true; }
    std::vector<std::pair<Type*, long long>> ts; scalarTypes(init->getType(), ts); constVals(init, v);
    for (size_t i = 0; i < ts.size(); i++) if (ts[i].second == off && (long long)DL->getTypeStoreSize(ts[i].first) == size) { res = v[i]; return true; }
    if (size == 8) { // string-like: combine bytes
    }
    return false;
  }
  int load1(int obj, long long off, Type *t) {
    int size = DL->getTypeStoreSize(t);
    if (obj == 0) return mk(UNDEF);
    auto oi = cur.o.find(obj);
    if (oi != cur.o.end()) {
      Obj &o = *oi->second; auto it = o.c.find(off);
      if (it != o.c.end() && it->second.size == size) return conv(it->second.n, t);
      if (it != o.c.end() && it->second.size > size && t->isIntegerTy()) { long long v; if (isCI(it->second.n, v)) return ci(v, width(t)); if (!isFloatNode(it->second.n)) return mk(TRUNC, {it->second.n}, 0, width(t)); }
      // overlap with something else?
      auto lo = o.c.upper_bound(off); if (lo != o.c.begin()) { auto pr = std::prev(lo); if (pr->first != off && pr->first + pr->second.size > off) {
          long long v; if (isCI(pr->second.n, v) && t->isIntegerTy() && pr->first + pr->second.size >= off + size) return ci(v >> (8 * (off - pr->first)), width(t)); bad("partial overlap load " + std::to_string(off) + "/" + std::to_string(size)); } }
      auto nx = o.c.lower_bound(off); if (nx != o.c.end() && nx->first < off + size) {
        // combine smaller cells
        if (t->isIntegerTy()) { long long acc = 0; bool allc = true; long long p = off; std::vector<Cell> cs; while (p < off + size) { auto q = o.c.find(p); if (q == o.c.end()) { bool z=false; for (auto &r : o.zr) if (r.first<=p && p<r.second) z=true; if (!z) { allc=false; break; } p++; continue; } long long v; if (!isCI(q->second.n, v)) { allc = false; break; } acc |= (long long)(zextw(v, 8 * q->second.size) << (8 * (p - off))); p += q->second.size; }
          if (allc) return ci(acc, width(t)); }
        if (t->isIntegerTy() || t->isDoubleTy()) { long long p = off;
          std::vector<int> a; std::string shape; p = off; bool ok = true; while (p < off + size) { auto q = o.c.find(p); if (q == o.c.end()) { long long e = p + 1; while (e < off + size && !o.c.count(e)) e++; a.push_back(mk(UNDEF)); shape += std::to_string(e - p) + ","; p = e; continue; } if (p + q->second.size > off + size) { ok = false; break; } a.push_back(q->second.n); shape += std::to_string(q->second.size) + ","; p += q->second.size; }
          if (ok) return mk(CAT, a, size, size * 8, shape); }
        std::string cells; for (long long p = off; p < off + size; p++) { auto q = o.c.find(p); if (q != o.c.end()) cells += " " + std::to_string(p) + ":" + std::to_string(q->second.size) + opn[N[q->second.n].op]; }
        bad("partial load " + std::to_string(off) + "/" + std::to_string(size) + (t->isIntegerTy() ? " int" : "") + cells); }
      for (auto &r : o.zr) if (r.first <= off && off + size <= r.second) return t->isFloatingPointTy() ? cf(0) : t->isPointerTy() ? ptr(0, 0) : ci(0, width(t));
      if (o.base >= 0) return symLoad(o.base, off, t);
    }
    int res; if (initLookup(obj, off, size, t, res)) return res;
    return mk(UNDEF);
  }
  int symLoad(int, long long, Type *) { return mk(UNDEF); }
  int conv(int n, Type *t) {
    long long v; if (isCI(n, v)) { if (t->isDoubleTy()) { if (N[n].w == 64 || v == 0) return cf(asD(v)); } if (t->isPointerTy() && v == 0) return ptr(0, 0); if (t->isIntegerTy()) return ci(v, width(t)); }
    if (t->isIntegerTy(64) && N[n].op == CF) return ci(N[n].k, 64);
    return n;
  }
  int loadP(int p, long long add, Type *t) {
    if (N[p].op == PTR) return load1(N[p].w, N[p].k + add, t);
    if (N[p].op == SEL) { int c = N[p].a[0]; int x = loadP(N[p].a[1], add, t), y = loadP(N[p].a[2], add, t); return sel(c, x, y); }
    if (N[p].op == UNDEF) return mk(UNDEF);
    bad(std::string("load through symbolic pointer ") + opn[N[p].op]);
  }
  void eraseRange(Obj &o, long long off, long long size) {
    auto it = o.c.lower_bound(off);
    if (it != o.c.begin()) { auto pr = std::prev(it); if (pr->first + pr->second.size > off) { 
        long long v; long long ps = pr->first, pe = ps + pr->second.size; if (isCI(pr->second.n, v)) { // split into bytes
          int keep = pr->second.size; o.c.erase(pr); for (int i = 0; i < keep; i++) if (ps + i < off || ps + i >= off + size) o.c[ps + i] = {ci(v >> (8 * i), 8), 1}; } else { (void)pe; o.c.erase(pr); o.c[ps] = {mk(UNDEF), (int)(off - ps)}; } } }
    it = o.c.lower_bound(off);
    while (it != o.c.end() && it->first < off + size) {
      long long ps = it->first; int sz = it->second.size; int n = it->second.n; it = o.c.erase(it);
      if (ps + sz > off + size) { long long v; if (isCI(n, v)) { for (int i = 0; i < sz; i++) if (ps + i >= off + size) o.c[ps + i] = {ci(v >> (8 * i), 8), 1}; } else o.c[off + size] = {mk(UNDEF), (int)(ps + sz - off - size)}; it = o.c.lower_bound(off + size); break; }
    }
  }
  void unzero(Obj &o, long long off, long long size) {
    std::vector<std::pair<long long,long long>> z; for (auto &r : o.zr) { if (r.second <= off || r.first >= off + size) { z.push_back(r); continue; } if (r.first < off) z.push_back({r.first, off}); if (r.second > off + size) z.push_back({off + size, r.second}); } o.zr = z;
  }
  void store1(int obj, long long off, int n, int size) { if (obj == 0) return; Obj &o = wr(obj); eraseRange(o, off, size); unzero(o, off, size);
    if (N[n].op == CAT && N[n].k == size) { long long p = off; const char *c = N[n].s.c_str(); for (int e : std::vector<int>(N[n].a)) { char *q; int z = strtol(c, &q, 10); o.c[p] = {e, z}; p += z; c = q + 1; } return; }
    o.c[off] = {n, size}; }
  void storeP(int p, long long add, int n, Type *t, int cond) {
    int size = DL->getTypeStoreSize(t);
    if (N[p].op == PTR) { if (cond == T()) store1(N[p].w, N[p].k + add, n, size); else { int old = load1(N[p].w, N[p].k + add, t); store1(N[p].w, N[p].k + add, sel(cond, n, old), size); } return; }
    if (N[p].op == SEL) { int c = N[p].a[0]; storeP(N[p].a[1], add, n, t, andb(cond, c)); storeP(N[p].a[2], add, n, t, andb(cond, notb(c))); return; }
    if (N[p].op == UNDEF) return;
    bad("store through symbolic pointer");
  }
  /// an unsigned byte of memory, if it is known
  bool constByte(int obj, long long off, long long &v) {
    if (obj == 0) return false;
    auto oi = cur.o.find(obj);
    if (oi != cur.o.end()) { auto &c = oi->second->c; auto it = c.upper_bound(off);
      if (it != c.begin()) { auto pr = std::prev(it); if (pr->first + pr->second.size > off) { if (!isCI(pr->second.n, v) || off - pr->first >= 8) return false; v = (v >> (8 * (off - pr->first))) & 255; return true; } }
      for (auto &r : oi->second->zr) if (r.first <= off && off < r.second) { v = 0; return true; } }
    int res; if (!initLookup(obj, off, 1, IntegerType::get(F.getContext(), 8), res) || !isCI(res, v)) return false;
    v &= 255; return true;
  }
  /// known numbers which a copy would cut are cut before
  void splitAt(int obj, long long off) {
    auto oi = cur.o.find(obj); if (oi == cur.o.end()) return;
    auto it = oi->second->c.lower_bound(off); if (it == oi->second->c.begin()) return; --it;
    long long v, b = it->first; int sz = it->second.size; if (b + sz <= off || !isCI(it->second.n, v) || sz > 8) return;
    Obj &o = wr(obj); o.c.erase(b); for (int i = 0; i < sz; i++) o.c[b + i] = {ci(v >> (8 * i), 8), 1};
  }
  void memcpyP(int d, int s, long long len) {
    if (N[d].op == SEL) bad("memcpy dst select");
    if (N[s].op == SEL) { // merge copies
      int c = N[s].a[0]; Mem save = cur; memcpyP(d, N[s].a[1], len); Mem m1 = cur; cur = save; memcpyP(d, N[s].a[2], len); Mem m2 = cur; cur = mergeMem(c, m1, m2); return; }
    if (N[d].op == UNDEF || N[s].op == UNDEF) return;
    if (N[d].op != PTR || N[s].op != PTR) bad("memcpy symbolic");
    if (N[d].w == 0 || N[s].w == 0) return;
    std::map<long long, Cell> cells; std::vector<std::pair<long long,long long>> zr; long long so = N[s].k, dof = N[d].k;
    if (len > 0) { splitAt(N[s].w, so); splitAt(N[s].w, so + len); }
    auto oi = cur.o.find(N[s].w);
    if (oi != cur.o.end()) { for (auto it = oi->second->c.lower_bound(so); it != oi->second->c.end() && it->first < so + len; ++it) { if (it->first + it->second.size > so + len) bad("memcpy splits cell"); cells[it->first - so] = it->second; }
      auto it = oi->second->c.lower_bound(so); if (it != oi->second->c.begin()) { auto pr = std::prev(it); if (pr->first + pr->second.size > so) bad("memcpy splits cell"); }
      for (auto &r : oi->second->zr) { long long a = std::max(r.first, so), b = std::min(r.second, so + len); if (a < b) zr.push_back({a - so, b - so}); } }
    else { auto gi = objg.find(N[s].w); if (gi != objg.end() && gi->second->hasInitializer()) { std::vector<std::pair<Type*, long long>> ts; const Constant *init = gi->second->getInitializer(); 
        if (init->isNullValue()) zr.push_back({0, len}); else { scalarTypes(init->getType(), ts); Vals v; constVals(init, v); for (size_t i = 0; i < ts.size(); i++) if (ts[i].second >= so && ts[i].second < so + len) cells[ts[i].second - so] = {v[i], (int)DL->getTypeStoreSize(ts[i].first)}; } } }
    Obj &o = wr(N[d].w); eraseRange(o, dof, len); unzero(o, dof, len);
    for (auto &x : cells) o.c[dof + x.first] = x.second; for (auto &z : zr) o.zr.push_back({z.first + dof, z.second + dof});
  }
  int cellAt(ObjP o, int id, long long off, const Cell &like) {
    if (o) { auto it = o->c.find(off); if (it != o->c.end() && it->second.size == like.size) return it->second.n;
      if (it != o->c.end()) return -1;
      auto nx = o->c.lower_bound(off); if (nx != o->c.end() && nx->first < off + like.size) return -1; if (nx != o->c.begin()) { auto pr = std::prev(nx); if (pr->first + pr->second.size > off) return -1; }
      for (auto &r : o->zr) if (r.first <= off && off + like.size <= r.second) return isFloatNode(like.n) ? cf(0) : N[like.n].op == PTR ? ptr(0,0) : ci(0, like.size == 1 && N[like.n].w == 1 ? 1 : 8 * like.size); }
    else { auto gi = objg.find(id); if (gi != objg.end()) { Mem save = cur; cur.o.erase(id); Type *t = isFloatNode(like.n) ? Type::getDoubleTy(F.getContext()) : N[like.n].op == PTR ? (Type*)PointerType::get(F.getContext(), 0) : Type::getIntNTy(F.getContext(), 8 * like.size); int r = load1(id, off, t); cur = save; return r; } }
    return mk(UNDEF);
  }
  Mem mergeMem(int c, const Mem &a, const Mem &b) {
    long long v; if (isCI(c, v)) return v ? a : b;
    Mem r; std::set<int> ids; for (auto &x : a.o) ids.insert(x.first); for (auto &x : b.o) ids.insert(x.first);
    for (int id : ids) {
      auto ia = a.o.find(id), ib = b.o.find(id); ObjP pa = ia == a.o.end() ? nullptr : ia->second, pb = ib == b.o.end() ? nullptr : ib->second;
      if (pa == pb) { r.o[id] = pa; continue; }
      if (!pa && !objg.count(id)) { r.o[id] = pb; continue; } if (!pb && !objg.count(id)) { r.o[id] = pa; continue; }
      auto o = std::make_shared<Obj>(); std::set<long long> offs; if (pa) for (auto &x : pa->c) offs.insert(x.first); if (pb) for (auto &x : pb->c) offs.insert(x.first);
      for (long long off : offs) {
        Cell ca{-1, 0}, cb{-1, 0}; if (pa) { auto it = pa->c.find(off); if (it != pa->c.end()) ca = it->second; } if (pb) { auto it = pb->c.find(off); if (it != pb->c.end()) cb = it->second; }
        Cell like = ca.n >= 0 && (cb.n < 0 || (N[ca.n].op != UNDEF)) ? ca : cb;
        if (ca.n >= 0 && cb.n >= 0 && ca.size != cb.size) { o->c[off] = {mk(UNDEF), std::min(ca.size, cb.size)}; continue; }
        int x = ca.n >= 0 ? ca.n : cellAt(pa, id, off, like), y = cb.n >= 0 ? cb.n : cellAt(pb, id, off, like);
        if (x < 0 || y < 0) { o->c[off] = {mk(UNDEF), like.size}; continue; }
        if (x != y) gates++;
        o->c[off] = {sel(c, x, y), like.size};
      }
      // zero ranges: intersection not covered by cells
      if (pa && pb) for (auto &x : pa->zr) for (auto &y : pb->zr) { long long l = std::max(x.first, y.first), h = std::min(x.second, y.second); if (l < h) o->zr.push_back({l, h}); }
      r.o[id] = o;
    }
    return r;
  }

  // ---- gep
  int gep(int base, long long coff, const std::vector<std::pair<int, long long>> &var) {
    if (N[base].op == UNDEF) return base;
    if (N[base].op == SEL) { int x = gep(N[base].a[1], coff, var), y = gep(N[base].a[2], coff, var); return sel(N[base].a[0], x, y); }
    if (N[base].op != PTR) bad(std::string("gep on ") + opn[N[base].op]);
    int p = ptr(N[base].w, N[base].k + coff);
    for (auto &v : var) p = gepIdx(p, v.first, v.second);
    return p;
  }
  int gepIdx(int p, int idx, long long scale) {
    long long v; if (isCI(idx, v)) { if (N[p].op == SEL) return sel(N[p].a[0], gepIdx(N[p].a[1], idx, scale), gepIdx(N[p].a[2], idx, scale)); return ptr(N[p].w, N[p].k + v * scale); }
    if (N[idx].op == SEL) return sel(N[idx].a[0], gepIdx(p, N[idx].a[1], scale), gepIdx(p, N[idx].a[2], scale));
    if (N[idx].op == UNDEF) return idx;
    if (N[idx].w == 1) return sel(idx, gepIdx(p, ci(1, 64), scale), p);
    if ((N[idx].op == ZEXT || N[idx].op == SEXT) && N[N[idx].a[0]].w == 1) return sel(N[idx].a[0], gepIdx(p, ci(N[idx].op == ZEXT ? 1 : -1, 64), scale), p);
    bad(std::string("symbolic index ") + opn[N[idx].op]);
  }
  int icmpN(int pr, int a, int b, int w) {
    long long x, y; if (isCI(a, x) && isCI(b, y)) return ci(icmpEval(pr, x, y, w), 1);
    if (N[a].op == PTR && N[b].op == PTR) { if (N[a].w == N[b].w) return ci(icmpEval(pr, N[a].k, N[b].k, 64), 1); if (pr == CmpInst::ICMP_EQ) return Fa(); if (pr == CmpInst::ICMP_NE) return T(); 
      if (N[a].w == 0 || N[b].w == 0) return ci(icmpEval(pr, N[a].w ? 4096 : 0, N[b].w ? 4096 : 0, 64), 1); }
    if (a == b) return ci(icmpEval(pr, 0, 0, w), 1);
    if (w == 1) { long long v; if (pr == CmpInst::ICMP_EQ && isCI(b, v)) return v ? a : notb(a); if (pr == CmpInst::ICMP_NE && isCI(b, v)) return v ? notb(a) : a; }
    if (N[a].op == SEL && (N[b].op == CI || N[b].op == PTR) ) return sel(N[a].a[0], icmpN(pr, N[a].a[1], b, w), icmpN(pr, N[a].a[2], b, w));
    if (N[b].op == SEL && (N[a].op == CI || N[a].op == PTR) ) return sel(N[b].a[0], icmpN(pr, a, N[b].a[1], w), icmpN(pr, a, N[b].a[2], w));
    if ((N[a].op == ZEXT || N[a].op == SEXT) && N[N[a].a[0]].w == 1 && N[b].op == CI) { long long t = N[a].op == ZEXT ? 1 : -1; int x1 = ci(icmpEval(pr, t, N[b].k, w), 1), x0 = ci(icmpEval(pr, 0, N[b].k, w), 1); return sel(N[a].a[0], x1, x0); }
    if (N[a].op == SEXT && N[b].op == SEXT && N[N[a].a[0]].w == 1 && N[N[b].a[0]].w == 1 && (pr == CmpInst::ICMP_EQ)) return notb(mk(XOR, {N[a].a[0], N[b].a[0]}, 0, 1));
    if (N[a].op == UNDEF || N[b].op == UNDEF) return mk(UNDEF);
    return mk(ICMP, {a, b}, pr, 1, std::to_string(w));
  }
  int castI(Op op, int a, int w, int sw) {
    long long v; if (isCI(a, v)) { if (op == ZEXT) return ci((long long)zextw(v, sw), w); if (op == SEXT && sw == 1) return ci(-(v & 1), w); return ci(v, w); }
    if (N[a].op == SEL) return sel(N[a].a[0], castI(op, N[a].a[1], w, sw), castI(op, N[a].a[2], w, sw));
    if (N[a].op == UNDEF) return a;
    if (op == TRUNC && (N[a].op == ZEXT || N[a].op == SEXT)) { int in = N[a].a[0]; if (N[in].w == w) return in; if (N[in].w < w) return mk(N[a].op, {in}, 0, w); }
    if (op == TRUNC && N[a].op == ASHR && 0) return a;
    if (op == TRUNC && w == 1) return icmpN(CmpInst::ICMP_NE, bin(AND, a, ci(1, sw), sw), ci(0, sw), sw);
    return mk(op, {a}, 0, w);
  }
  static std::string base(const Function *f) { return f->getName().str(); }

  Vals call(CallBase *cb) {
    Function *f = cb->getCalledFunction(); Type *rt = cb->getType();
    if (!f) { Value *cv = cb->getCalledOperand()->stripPointerCasts(); f = dyn_cast<Function>(cv); if (!f) { auto it = env.find(cb->getCalledOperand()); if (it != env.end()) return callNode(it->second[0], cb); bad("indirect call"); } }
    return callFn(f, cb);
  }
  Vals callNode(int p, CallBase *cb) {
    if (N[p].op == PTR) { for (auto &x : fobj) if (x.second == N[p].w) return callFn(const_cast<Function*>(x.first), cb); bad("indirect call to unknown object"); }
    if (N[p].op == SEL) { // call both targets under their condition
      int c = N[p].a[0]; Mem save = cur; int sp = P0; P0 = andb(sp, c); Vals r1 = callNode(N[p].a[1], cb); Mem m1 = cur; int p1 = P0; bool d1 = dead; dead = false; cur = save; P0 = andb(sp, notb(c)); Vals r2 = callNode(N[p].a[2], cb); Mem m2 = cur; int p2 = P0; bool d2 = dead; dead = false;
      if (d1 && d2) { dead = true; return r1; } if (d1) { cur = m2; P0 = p2; return r2; } if (d2) { cur = m1; P0 = p1; return r1; }
      cur = mergeMem(c, m1, m2); P0 = orb(p1, p2); Vals r; for (size_t i = 0; i < r1.size(); i++) r.push_back(sel(c, r1[i], r2[i])); return r; }
    bad(std::string("indirect call through ") + opn[N[p].op]);
  }
  Vals callFn(Function *f, CallBase *cb) {
    Type *rt = cb->getType(); S.calls++;
    auto A = [&](int i) { return get1(cb->getArgOperand(i)); };
    auto map1 = [&](auto fn) { Vals r; for (int x : get(cb->getArgOperand(0))) r.push_back(fn(x)); return r; };
    auto map2 = [&](auto fn) { Vals r, x = get(cb->getArgOperand(0)), y = get(cb->getArgOperand(1)); for (size_t i = 0; i < x.size(); i++) r.push_back(fn(x[i], y[i])); return r; };
    if (f->isIntrinsic()) {
      int w = rt->isVoidTy() ? 0 : width(rt->getScalarType());
      switch (f->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::trap: case Intrinsic::pseudoprobe:
        if (!rt->isVoidTy()) return {ptr(0, 0)}; return {};
      case Intrinsic::sqrt: return map1([](int x) { return mk(SQRT, {x}); });
      case Intrinsic::fabs: return map1([](int x) { return N[x].op == CF ? cf(std::fabs(asD(N[x].k))) : mk(FABS, {x}); });
      case Intrinsic::minnum: case Intrinsic::minimum: return map2([](int x, int y) { return fb(FMIN, x, y); });
      case Intrinsic::maxnum: case Intrinsic::maximum: return map2([](int x, int y) { return fb(FMAX, x, y); });
      case Intrinsic::copysign: return map2([](int x, int y) { return mk(COPYSIGN, {x, y}); });
      case Intrinsic::fma: case Intrinsic::fmuladd: { Vals x = get(cb->getArgOperand(0)), y = get(cb->getArgOperand(1)), z = get(cb->getArgOperand(2)), r; for (size_t i = 0; i < x.size(); i++) r.push_back(fb(FADD, fb(FMUL, x[i], y[i]), z[i])); return r; }
      case Intrinsic::smin: return map2([w](int x, int y) { return bin(SMIN, x, y, w); }); case Intrinsic::smax: return map2([w](int x, int y) { return bin(SMAX, x, y, w); });
      case Intrinsic::umin: return map2([w](int x, int y) { return bin(UMIN, x, y, w); }); case Intrinsic::umax: return map2([w](int x, int y) { return bin(UMAX, x, y, w); });
      case Intrinsic::abs: return map1([&](int x) { return sel(icmpN(CmpInst::ICMP_SLT, x, ci(0, w), w), bin(SUB, ci(0, w), x, w), x); });
      case Intrinsic::usub_sat: return map2([&](int x, int y) { return sel(icmpN(CmpInst::ICMP_UGT, x, y, w), bin(SUB, x, y, w), ci(0, w)); });
      case Intrinsic::umul_with_overflow: { long long x, y; if (isCI(A(0), x) && isCI(A(1), y)) { int ww = N[A(0)].w; return {ci(x * y, ww), Fa()}; } bad("umul.with.overflow"); }
      case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: { Vals x = get(cb->getArgOperand(0)); int r = x[0]; for (size_t i = 1; i < x.size(); i++) r = bin(f->getIntrinsicID() == Intrinsic::vector_reduce_and ? AND : OR, r, x[i], w); return {r}; }
      case Intrinsic::powi: { return {mk(UF, {A(0), A(1)}, 0, 0, "powi")}; }
      case Intrinsic::pow: case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::log: case Intrinsic::log10: case Intrinsic::log2: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: {
        std::string nm = f->getName().split('.').second.split('.').first.str(); size_t n = get(cb->getArgOperand(0)).size(); Vals r; for (size_t i = 0; i < n; i++) { std::vector<int> a; for (unsigned j = 0; j < cb->arg_size(); j++) a.push_back(get(cb->getArgOperand(j))[i]); r.push_back(mk(UF, a, 0, 0, nm)); } return r; }
      case Intrinsic::memcpy: case Intrinsic::memmove: { long long n; if (!isCI(A(2), n)) bad("memcpy length"); memcpyP(A(0), A(1), n); return {}; }
      case Intrinsic::memset: { long long n, v; if (!isCI(A(2), n) || !isCI(A(1), v)) { bad("memset args"); } int d = A(0); if (N[d].op == UNDEF) return {}; if (N[d].op != PTR) bad("memset symbolic"); if (n == 0) return {}; Obj &o = wr(N[d].w); eraseRange(o, N[d].k, n); unzero(o, N[d].k, n); if (v == 0) o.zr.push_back({N[d].k, N[d].k + n}); else for (int i = 0; i < n; i++) o.c[N[d].k + i] = {ci(v, 8), 1}; return {}; }
      case Intrinsic::is_constant: return {Fa()};
      case Intrinsic::expect: return get(cb->getArgOperand(0));
      case Intrinsic::is_fpclass: return {Fa()};
      case Intrinsic::objectsize: return {ci(-1, w)};
      case Intrinsic::eh_typeid_for: return {ci(1, 32)};
      case Intrinsic::x86_sse2_min_pd: return map2([](int x, int y) { return fb(FMIN, x, y); });
      case Intrinsic::x86_sse2_max_pd: return map2([](int x, int y) { return fb(FMAX, x, y); });
      case Intrinsic::x86_sse2_movmsk_pd: { Vals x = get(cb->getArgOperand(0)); int r = ci(0, 32); for (size_t i = 0; i < x.size(); i++) { int c = maskBit(x[i]); r = bin(OR, r, sel(c, ci(1 << i, 32), ci(0, 32)), 32); } return {r}; }
      case Intrinsic::x86_sse2_maskmov_dqu: { Vals x = get(cb->getArgOperand(0)), m = get(cb->getArgOperand(1)); int p = A(2); Type *D = Type::getDoubleTy(F.getContext());
        for (int g = 0; g < 2; g++) { Vals ps(x.begin() + 8 * g, x.begin() + 8 * g + 8); int c = maskBit(m[8 * g]); for (int j = 1; j < 8; j++) if (maskBit(m[8 * g + j]) != c) bad("maskmov byte mask"); if (c == Fa()) continue; storeP(p, 8 * g, conv(join(ps, 8, 64), D), D, c); } return {}; }
      default: bad("intrinsic " + f->getName().str());
      }
    }
    std::string nm = base(f);
    if (nm == "vg_in" || nm == "vg_pos") { long long k; int a = A(0); return {inputN(a, nm == "vg_pos" ? "p" : "s")}; }
    if (nm == "vg_num") return {mk(UF, {A(0)}, 0, 0, nm)}; // a number the compiler does not know
    if (nm == "vg_loop_bound") { long long k; if (!isCI(A(0), k)) bad("vg_loop_bound"); S.loopBound = (int)k; return {}; }
    if (nm == "vg_int" || nm == "vg_long") { return {mk(INP, {A(0)}, N[A(0)].k, width(rt), "i")}; }
    if (nm == "vg_bool") { return {mk(UF, {A(0)}, 0, 1, "vg_bool")}; }
    if (nm == "vg_assume_pos") { assumed.push_back({P0, A(0)}); return {}; }
    if (nm.rfind("vg_uf", 0) == 0) { std::vector<int> a; for (unsigned j = 0; j < cb->arg_size(); j++) a.push_back(A(j)); return {mk(UF, a, 0, width(rt), nm)}; }
    if (nm == "_Znwm" || nm == "_Znam" || nm == "malloc" || nm == "calloc" || nm == "_ZnwmSt11align_val_t" || nm == "_ZnamSt11align_val_t" || nm == "aligned_alloc" || nm == "_ZnwmRKSt9nothrow_t") { int id = nextObj++; auto o = std::make_shared<Obj>(); o->name = "heap"; if (nm == "calloc") o->zr.push_back({0, 1LL << 40}); cur.o[id] = o; return {ptr(id, 0)}; }
    if (nm == "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm") { int id = nextObj++; auto o = std::make_shared<Obj>(); o->name = "string"; cur.o[id] = o; return {ptr(id, 0)}; } // room for the requested size
    if (nm == "_ZdlPv" || nm == "_ZdlPvm" || nm == "_ZdaPv" || nm == "_ZdaPvm" || nm == "free" || nm == "_ZdlPvSt11align_val_t" || nm == "_ZdlPvmSt11align_val_t") return {};
    if (nm == "posix_memalign") { int id = nextObj++; auto o = std::make_shared<Obj>(); cur.o[id] = o; storeP(A(0), 0, ptr(id, 0), PointerType::get(F.getContext(), 0), T()); return {ci(0, 32)}; }
    if (nm == "sqrt") return {mk(SQRT, {A(0)})};
    if (nm == "hypot") return {mk(SQRT, {fb(FADD, fb(FMUL, A(0), A(0)), fb(FMUL, A(1), A(1)))})};
    if (nm == "fma") return {fb(FADD, fb(FMUL, A(0), A(1)), A(2))};
    if (nm == "pow" && N[A(1)].op == CF && asD(N[A(1)].k) == 0.5) return {mk(SQRT, {A(0)})};
    static const std::set<std::string> libm = {"pow","exp","log","sin","cos","tan","asin","acos","atan","atan2","sinh","cosh","tanh","floor","ceil","cbrt","exp2","log10","log2","expm1","log1p","hypot","fmod","round","exp10"};
    if (libm.count(nm)) { std::vector<int> a; for (unsigned j = 0; j < cb->arg_size(); j++) a.push_back(A(j)); return {mk(UF, a, 0, 0, nm)}; }
    if (nm == "fmin") return {fb(FMIN, A(0), A(1))}; if (nm == "fmax") return {fb(FMAX, A(0), A(1))}; if (nm == "fabs") return {mk(FABS, {A(0)})};
    if (nm == "strlen" && N[A(0)].op == PTR) { long long n = 0, v; while (n < 4096 && constByte(N[A(0)].w, N[A(0)].k + n, v) && v) n++; if (!constByte(N[A(0)].w, N[A(0)].k + n, v) || v) bad("strlen of unknown text"); return {ci(n, 64)}; }
    if (nm == "bcmp" || nm == "memcmp") {
      long long n; if (!isCI(A(2), n) || n > 4096) bad(nm + " of unknown length");
      { // known bytes
        bool known = N[A(0)].op == PTR && N[A(1)].op == PTR; int sign = 0;
        for (long long o = 0; known && o < n; o++) { long long x, y; if (!constByte(N[A(0)].w, N[A(0)].k + o, x) || !constByte(N[A(1)].w, N[A(1)].k + o, y)) known = false; else if (x != y) { sign = x < y ? -1 : 1; break; } }
        if (known) return {ci(sign, width(rt))}; }
      int eq = T(), p = A(0), q = A(1); std::vector<int> all;
      for (long long o = 0; o < n;) { long long sz = 0; for (int r : {p, q}) if (!sz && N[r].op == PTR) { auto oi = cur.o.find(N[r].w); if (oi != cur.o.end()) { auto c = oi->second->c.find(N[r].k + o); if (c != oi->second->c.end()) sz = c->second.size; } }
        if (!sz) sz = n - o >= 8 ? 8 : 1; if (sz > n - o || (sz & (sz - 1))) sz = 1; Type *t = IntegerType::get(F.getContext(), 8 * sz); int x = loadP(p, o, t), y = loadP(q, o, t); eq = andb(eq, icmpN(CmpInst::ICMP_EQ, x, y, 8 * sz)); all.push_back(x); all.push_back(y); o += sz; }
      return {sel(eq, ci(0, width(rt)), nm == "bcmp" ? ci(1, width(rt)) : mk(UF, all, 0, width(rt), nm))}; }
    if (!f->isDeclaration()) return inlineCall(f, cb);
    if (f->doesNotAccessMemory() && !rt->isVoidTy()) { std::vector<int> a; for (unsigned j = 0; j < cb->arg_size(); j++) for (int x : get(cb->getArgOperand(j))) a.push_back(x); std::vector<std::pair<Type*, long long>> ts; scalarTypes(rt, ts); Vals r; for (size_t i = 0; i < ts.size(); i++) r.push_back(mk(UF, a, i, width(ts[i].first), nm)); return r; }
    if (cb->doesNotReturn()) { thrown = orb(thrown, P0); dead = true; return Vals(leafCount(rt), mk(UNDEF)); }
    for (auto &o : opaqueOk) if (nm.find(o) != std::string::npos) return Vals(rt->isVoidTy() ? 0 : leafCount(rt), mk(UNDEF));
    bad("opaque call " + demangle(nm));
  }
  int maskBit(int x) { if (N[x].op == SEXT) return N[x].a[0]; long long v; if (isCI(x, v)) return ci(v < 0, 1); if (N[x].op == CF) return ci(std::signbit(asD(N[x].k)), 1); if (N[x].op == SEL) return sel(N[x].a[0], maskBit(N[x].a[1]), maskBit(N[x].a[2])); bad(std::string("maskBit of ") + opn[N[x].op]); }

  static unsigned leafCount(Type *t) { if (t->isVoidTy()) return 0; std::vector<std::pair<Type*, long long>> ts; scalarTypes(t, ts); return ts.size(); }
  static unsigned leafIndex(Type *t, ArrayRef<unsigned> idx) {
    unsigned r = 0; for (unsigned i : idx) { if (auto *s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) r += leafCount(s->getElementType(j)); t = s->getElementType(i); } else { Type *e = t->getArrayElementType(); r += i * leafCount(e); t = e; } } return r;
  }
  void inst(Instruction &I) {
    curLoc = I.getDebugLoc().get();
    if (curLoc) for (const DILocation *l = curLoc; l; l = l->getInlinedAt()) { std::string fl = l->getFilename().str(); size_t q = fl.find("/repo/"); if (q == std::string::npos) continue; if (auto *sp = l->getScope()->getSubprogram()) S.fns.insert(fl.substr(q + 6) + ":" + sp->getName().str()); }
    Type *t = I.getType();
    auto ew = [&](auto fn) { Vals a = get(I.getOperand(0)), b = get(I.getOperand(1)), r; for (size_t i = 0; i < a.size(); i++) r.push_back(N[a[i]].op == UNDEF || N[b[i]].op == UNDEF ? mk(UNDEF) : fn(a[i], b[i])); env[&I] = r; };
    auto e1 = [&](auto fn) { Vals a = get(I.getOperand(0)), r; for (int x : a) r.push_back(N[x].op == UNDEF ? x : fn(x)); env[&I] = r; };
    int w = t->isVoidTy() ? 0 : width(t->getScalarType());
    switch (I.getOpcode()) {
    case Instruction::FAdd: ew([](int a, int b) { return fb(FADD, a, b); }); break;
    case Instruction::FSub: ew([](int a, int b) { return fb(FSUB, a, b); }); break;
    case Instruction::FMul: ew([](int a, int b) { return fb(FMUL, a, b); }); break;
    case Instruction::FDiv: ew([](int a, int b) { return fb(FDIV, a, b); }); break;
    case Instruction::FRem: ew([](int a, int b) { return mk(UF, {a, b}, 0, 0, "fmod"); }); break;
    case Instruction::FNeg: e1([](int a) { return N[a].op == CF ? cf(-asD(N[a].k)) : mk(FNEG, {a}); }); break;
    case Instruction::Add: ew([w](int a, int b) { return bin(ADD, a, b, w); }); break;
    case Instruction::Sub: ew([w](int a, int b) { if (N[a].op == PTR && N[b].op == PTR && N[a].w == N[b].w) return ci(N[a].k - N[b].k, 64); return bin(SUB, a, b, w); }); break;
    case Instruction::Mul: ew([w](int a, int b) { return bin(MUL, a, b, w); }); break;
    case Instruction::SDiv: ew([w](int a, int b) { return bin(SDIV, a, b, w); }); break;
    case Instruction::UDiv: ew([w](int a, int b) { return bin(UDIV, a, b, w); }); break;
    case Instruction::SRem: ew([w](int a, int b) { return bin(SREM, a, b, w); }); break;
    case Instruction::URem: ew([w](int a, int b) { return bin(UREM, a, b, w); }); break;
    case Instruction::Shl: ew([w](int a, int b) { return bin(SHL, a, b, w); }); break;
    case Instruction::LShr: ew([w](int a, int b) { return bin(LSHR, a, b, w); }); break;
    case Instruction::AShr: ew([w](int a, int b) { return bin(ASHR, a, b, w); }); break;
    case Instruction::And: ew([w](int a, int b) { return bin(AND, a, b, w); }); break;
    case Instruction::Or: if (cast<PossiblyDisjointInst>(I).isDisjoint()) { ew([w](int a, int b) { return bin(w == 1 ? OR : ADD, a, b, w); }); break; } ew([w](int a, int b) { return bin(OR, a, b, w); }); break;
    case Instruction::Xor: ew([w](int a, int b) { return bin(XOR, a, b, w); }); break;
    case Instruction::FCmp: { int pr = cast<FCmpInst>(I).getPredicate(); ew([pr](int a, int b) {
        if (pr == CmpInst::FCMP_ORD || pr == CmpInst::FCMP_TRUE) return T(); if (pr == CmpInst::FCMP_UNO || pr == CmpInst::FCMP_FALSE) return Fa();
        int p = pr; if (p >= CmpInst::FCMP_UNO) p -= 8; // unordered -> ordered
        // canonicalise to OGT/OGE/OEQ/ONE
        if (p == CmpInst::FCMP_OLT) { std::swap(a, b); p = CmpInst::FCMP_OGT; } if (p == CmpInst::FCMP_OLE) { std::swap(a, b); p = CmpInst::FCMP_OGE; }
        if (N[a].op == CF && N[b].op == CF) { double x = asD(N[a].k), y = asD(N[b].k); bool r = p == CmpInst::FCMP_OGT ? x > y : p == CmpInst::FCMP_OGE ? x >= y : p == CmpInst::FCMP_OEQ ? x == y : x != y; return ci(r, 1); }
        return mk(FCMP, {a, b}, p, 1); }); break; }
    case Instruction::ICmp: { int pr = cast<ICmpInst>(I).getPredicate(); int sw = width(I.getOperand(0)->getType()->getScalarType()); ew([&](int a, int b) { return icmpN(pr, a, b, sw); }); break; }
    case Instruction::Select: { Vals c = get(I.getOperand(0)), a = get(I.getOperand(1)), b = get(I.getOperand(2)), r; for (size_t i = 0; i < a.size(); i++) r.push_back(sel(c.size() == 1 ? c[0] : c[i], a[i], b[i])); env[&I] = r; gates++; break; }
    case Instruction::SExt: { int sw = width(I.getOperand(0)->getType()->getScalarType()); e1([&](int a) { return castI(SEXT, a, w, sw); }); break; }
    case Instruction::ZExt: { int sw = width(I.getOperand(0)->getType()->getScalarType()); e1([&](int a) { return castI(ZEXT, a, w, sw); }); break; }
    case Instruction::Trunc: { int sw = width(I.getOperand(0)->getType()->getScalarType()); e1([&](int a) { return castI(TRUNC, a, w, sw); }); break; }
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::Freeze: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: e1([&](int a) { return conv(a, t->getScalarType()->isFloatingPointTy() ? Type::getDoubleTy(F.getContext()) : t->getScalarType()); }); break;
    case Instruction::UIToFP: { int sw = width(I.getOperand(0)->getType()->getScalarType()); e1([sw](int a) { long long v; if (isCI(a, v)) return cf((double)zextw(v, sw)); if (N[a].op == SEL && N[N[a].a[1]].op == CI && N[N[a].a[2]].op == CI) return sel(N[a].a[0], cf((double)zextw(N[N[a].a[1]].k, sw)), cf((double)zextw(N[N[a].a[2]].k, sw))); return mk(SITOFP, {a}, 1); }); break; }
    case Instruction::SIToFP: e1([](int a) { long long v; if (isCI(a, v)) return cf((double)v); if (N[a].op == SEL && N[N[a].a[1]].op == CI && N[N[a].a[2]].op == CI) return sel(N[a].a[0], cf((double)N[N[a].a[1]].k), cf((double)N[N[a].a[2]].k)); return mk(SITOFP, {a}); }); break;
    case Instruction::FPToSI: case Instruction::FPToUI: e1([w](int a) { if (N[a].op == CF) return ci((long long)asD(N[a].k), w); if (N[a].op == SITOFP) return N[a].a[0]; return mk(FPTOSI, {a}, 0, w); }); break;
    case Instruction::BitCast: {
      Vals a = get(I.getOperand(0)); unsigned n = leafCount(t); Type *st = I.getOperand(0)->getType();
      if (n == a.size()) { for (int &x : a) x = conv(x, t->getScalarType()); env[&I] = a; break; }
      // <n x i1> -> iN
      if (n == 1 && st->getScalarSizeInBits() == 1) { int r = ci(0, w); for (size_t i = 0; i < a.size(); i++) r = bin(OR, r, sel(a[i], ci(1LL << i, w), ci(0, w)), w); env[&I] = {r}; break; }
      if (DL->getTypeSizeInBits(st) == DL->getTypeSizeInBits(t)) { // same bits, different lanes
        unsigned from = st->getScalarSizeInBits(), to = t->getScalarSizeInBits(); Vals r;
        if (from > to) { unsigned m = from / to; for (int x : a) for (unsigned j = 0; j < m; j++) r.push_back(part(x, j, m, to)); }
        else { unsigned m = to / from; for (size_t i = 0; i < a.size(); i += m) { Vals ps(a.begin() + i, a.begin() + i + m); r.push_back(conv(join(ps, from, to), t->getScalarType())); } }
        env[&I] = r; break; }
      bad("bitcast shape"); }
    case Instruction::Alloca: { int id = nextObj++; auto o = std::make_shared<Obj>(); o->name = "alloca"; cur.o[id] = o; env[&I] = {ptr(id, 0)}; break; }
    case Instruction::Load: { int p = get1(I.getOperand(0)); std::vector<std::pair<Type*, long long>> ts; scalarTypes(t, ts); Vals r; for (auto &x : ts) r.push_back(loadP(p, x.second, x.first)); env[&I] = r; break; }
    case Instruction::Store: { int p = get1(I.getOperand(1)); Type *vt = I.getOperand(0)->getType(); std::vector<std::pair<Type*, long long>> ts; scalarTypes(vt, ts); Vals v = get(I.getOperand(0));
      for (size_t i = 0; i < ts.size(); i++) storeP(p, ts[i].second, v[i], ts[i].first, T()); break; }
    case Instruction::GetElementPtr: {
      auto *G = cast<GEPOperator>(&I); long long coff = 0; std::vector<std::pair<int, long long>> var;
      if (G->getType()->isVectorTy()) bad("vector gep");
      for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
        Value *ix = gti.getOperand(); if (StructType *st = gti.getStructTypeOrNull()) { coff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
        long long sc = DL->getTypeAllocSize(gti.getIndexedType()); int n = get1(ix); long long v; if (isCI(n, v)) coff += v * sc; else var.push_back({n, sc}); }
      env[&I] = {gep(get1(G->getPointerOperand()), coff, var)}; break; }
    case Instruction::ExtractValue: { auto &E = cast<ExtractValueInst>(I); Vals a = get(E.getAggregateOperand()); unsigned s = leafIndex(E.getAggregateOperand()->getType(), E.getIndices()), n = leafCount(t); env[&I] = Vals(a.begin() + s, a.begin() + s + n); break; }
    case Instruction::InsertValue: { auto &E = cast<InsertValueInst>(I); Vals a = get(E.getAggregateOperand()), v = get(E.getInsertedValueOperand()); unsigned s = leafIndex(t, E.getIndices()); for (size_t i = 0; i < v.size(); i++) a[s + i] = v[i]; env[&I] = a; break; }
    case Instruction::ExtractElement: { Vals a = get(I.getOperand(0)); long long k; if (!isCI(get1(I.getOperand(1)), k)) bad("extractelement index"); env[&I] = {a[k]}; break; }
    case Instruction::InsertElement: { Vals a = get(I.getOperand(0)); long long k; if (!isCI(get1(I.getOperand(2)), k)) bad("insertelement index"); a[k] = get1(I.getOperand(1)); env[&I] = a; break; }
    case Instruction::ShuffleVector: { auto &S = cast<ShuffleVectorInst>(I); Vals a = get(S.getOperand(0)), b = get(S.getOperand(1)), r; for (int m : S.getShuffleMask()) r.push_back(m < 0 ? mk(UNDEF) : m < (int)a.size() ? a[m] : b[m - a.size()]); env[&I] = r; break; }
    case Instruction::Call: case Instruction::Invoke: { Vals r = call(cast<CallBase>(&I)); if (!t->isVoidTy()) env[&I] = r; break; }
    case Instruction::LandingPad: env[&I] = Vals(leafCount(t), mk(UNDEF)); break;
    case Instruction::Br: case Instruction::Switch: case Instruction::Ret: case Instruction::Unreachable: case Instruction::Resume: break;
    case Instruction::AtomicRMW: { auto &R = cast<AtomicRMWInst>(I); int p = get1(R.getPointerOperand()); int old = loadP(p, 0, t); int v = get1(R.getValOperand()); int nv; if (R.getOperation() == AtomicRMWInst::Add) nv = bin(ADD, old, v, w); else if (R.getOperation() == AtomicRMWInst::Sub) nv = bin(SUB, old, v, w); else if (R.getOperation() == AtomicRMWInst::Xchg) nv = v; else bad("atomicrmw"); storeP(p, 0, nv, t, T()); env[&I] = {old}; break; }
    default: bad(std::string("instruction ") + I.getOpcodeName());
    }
  }
  int inputN(int a, const char *kind) { long long k; if (isCI(a, k)) return mk(INP, {}, k, 0, kind); if (N[a].op == SEL) { int c = N[a].a[0], x = N[a].a[1], y = N[a].a[2]; int tx = inputN(x, kind), ty = inputN(y, kind); return sel(c, tx, ty); } bad("vg_in index not constant"); return 0; }
  int part(int x, unsigned j, unsigned m, unsigned to) {
    long long v; if (isCI(x, v)) return ci(v >> (to * j), to); if (N[x].op == CF) return ci(N[x].k >> (to * j), to);
    if (N[x].op == SEXT && N[N[x].a[0]].w == 1) return mk(SEXT, {N[x].a[0]}, 0, to);
    if (N[x].op == SEL) return sel(N[x].a[0], part(N[x].a[1], j, m, to), part(N[x].a[2], j, m, to));
    return mk(SUBBITS, {x}, j, to); }
  int join(const Vals &p, unsigned from, unsigned to) {
    bool allc = true; u64 acc = 0; for (size_t i = 0; i < p.size(); i++) { long long v; if (isCI(p[i], v)) acc |= zextw(v, from) << (from * i); else allc = false; } if (allc) return ci((long long)acc, to);
    bool sx = true; for (int x : p) sx = sx && N[x].op == SEXT && N[x].a == N[p[0]].a; if (sx) return mk(SEXT, N[p[0]].a, 0, to);
    bool sb = true; for (size_t i = 0; i < p.size(); i++) sb = sb && N[p[i]].op == SUBBITS && N[p[i]].a == N[p[0]].a && N[p[i]].k == (long long)i; if (sb) return N[p[0]].a[0];
    if (N[p[0]].op == SEL) { bool same = true; for (int x : p) same = same && (N[x].op == SEL && N[x].a[0] == N[p[0]].a[0]); if (same) { Vals t, f; for (int x : p) { t.push_back(N[x].a[1]); f.push_back(N[x].a[2]); } return sel(N[p[0]].a[0], join(t, from, to), join(f, from, to)); } }
    std::string shape; for (size_t i = 0; i < p.size(); i++) shape += std::to_string(from / 8) + ","; return mk(CAT, p, to / 8, to, shape); }

  LoopInfo *LI = nullptr; std::map<const BasicBlock*, int> rpoIdx; std::vector<BasicBlock*> rpo;
  void addEdge(BasicBlock *B, BasicBlock *Sx, int p) {
    if (p == Fa()) return; In in; in.p = p; in.m = cur;
    for (PHINode &ph : Sx->phis()) in.phi.push_back(get(ph.getIncomingValueForBlock(B)));
    inc[Sx].push_back(std::move(in));
    for (Loop *l = LI->getLoopFor(B); l && !l->contains(Sx); l = l->getParentLoop()) exits[l]++;
  }
  int gateCond(std::vector<In> &ps, size_t i) {
    if (ps.size() == 2) { int a = ps[0].p, b = ps[1].p; if (notb(a) == b) return i == 0 ? a : b; if (N[a].op == AND && N[b].op == AND) { for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) if (N[a].a[x] == N[b].a[y] && notb(N[a].a[1 - x]) == N[b].a[1 - y]) return i == 0 ? N[a].a[1 - x] : N[b].a[1 - y]; } }
    return ps[i].p;
  }
  void block(BasicBlock *B) {
    auto it = inc.find(B); if (it == inc.end() || it->second.empty()) return;
    std::vector<In> ps = std::move(it->second); inc.erase(it); curLoc = nullptr;
    int p = Fa(); for (auto &x : ps) p = orb(p, x.p); if (p == Fa()) return;
    if (!returns.count(B)) { thrown = orb(thrown, p); return; } // every path from here throws or aborts
    Mem m = std::move(ps.back().m); for (int i = (int)ps.size() - 2; i >= 0; i--) m = mergeMem(gateCond(ps, i), ps[i].m, m);
    std::vector<std::pair<const Value*, Vals>> phis; size_t k = 0;
    for (PHINode &ph : B->phis()) { Vals r = ps.back().phi[k]; for (int i = (int)ps.size() - 2; i >= 0; i--) { int c = gateCond(ps, i); for (size_t j = 0; j < r.size(); j++) { int o = r[j]; r[j] = sel(c, ps[i].phi[k][j], r[j]); if (o != r[j]) gates++; } } phis.push_back({&ph, r}); k++; }
    for (auto &x : phis) env[x.first] = x.second;
    P0 = p; cur = std::move(m); S.blocks++;
    if (S.blocks > 400000 || N.size() > 6000000) bad("graph too large");
    for (Instruction &I : *B) { if (isa<PHINode>(I)) continue; inst(I); if (dead) break; }
    if (dead) { dead = false; return; }
    p = P0;
    Instruction *t = B->getTerminator(); curLoc = t->getDebugLoc().get();
    if (auto *br = dyn_cast<BranchInst>(t)) { if (br->isUnconditional()) addEdge(B, br->getSuccessor(0), p); else { int c = get1(br->getCondition()); if (N[c].op == UNDEF) c = Fa(); if (br->getSuccessor(0) == br->getSuccessor(1)) addEdge(B, br->getSuccessor(0), p); else { addEdge(B, br->getSuccessor(0), andb(p, c)); addEdge(B, br->getSuccessor(1), andb(p, notb(c))); } } }
    else if (auto *sw = dyn_cast<SwitchInst>(t)) { int v = get1(sw->getCondition()); int rest = p; int wd = width(sw->getCondition()->getType()); std::map<BasicBlock*, int> es; std::vector<BasicBlock*> ord; if (N[v].op == UNDEF) { addEdge(B, sw->getDefaultDest(), p); return; }
      auto ae = [&](BasicBlock *d, int c) { if (!es.count(d)) { es[d] = c; ord.push_back(d); } else es[d] = orb(es[d], c); };
      for (auto &cs : sw->cases()) { int c = icmpN(CmpInst::ICMP_EQ, v, ci(cs.getCaseValue()->getSExtValue(), wd), wd); ae(cs.getCaseSuccessor(), andb(p, c)); rest = andb(rest, notb(c)); } ae(sw->getDefaultDest(), rest); for (auto *d : ord) addEdge(B, d, es[d]); }
    else if (auto *iv = dyn_cast<InvokeInst>(t)) { addEdge(B, iv->getNormalDest(), p); }
    else if (auto *ri = dyn_cast<ReturnInst>(t)) { Vals rv; if (ri->getReturnValue()) rv = get(ri->getReturnValue()); if (!haveFinal) { finalMem = cur; retVal = rv; haveFinal = true; } else { finalMem = mergeMem(p, cur, finalMem); for (size_t i = 0; i < rv.size(); i++) retVal[i] = sel(p, rv[i], retVal[i]); } retPred = orb(retPred, p); }
    else if (isa<UnreachableInst>(t) || isa<ResumeInst>(t)) { thrown = orb(thrown, p); }
    else bad(std::string("terminator ") + t->getOpcodeName());
  }
  bool dead = false;
  std::set<BasicBlock*> returns; // blocks from which the function can return
  // loops whose exit depends on the inputs are followed for S.loopBound
  // input dependent decisions when the witness asked for that
  std::map<const Loop*, int> exits;
  bool boundLoop(const Loop *l, int iter, int &prev, int &sym) {
    if (S.loopBound < 0) return false;
    if (iter > 0 && exits[l] != prev) sym++;
    prev = exits[l];
    if (sym > S.loopBound) { S.cut++; return true; }
    return false;
  }
  void region(Loop *L, size_t from) {
    for (size_t i = from; i < rpo.size(); i++) {
      BasicBlock *B = rpo[i]; if (L && !L->contains(B)) continue;
      Loop *l = LI->getLoopFor(B);
      if (l == L) { block(B); continue; }
      // find the child loop of L containing B
      while (l->getParentLoop() != L) l = l->getParentLoop();
      if (l->getHeader() != B) continue; // handled with its header
      int prev = -1, sym = 0;
      for (int iter = 0; ; iter++) {
        auto it = inc.find(B); if (it == inc.end() || it->second.empty()) break;
        if (iter > 20000) bad("loop does not terminate statically");
        if (boundLoop(l, iter, prev, sym)) { for (In &e : it->second) dropped = orb(dropped, e.p); inc.erase(it); break; }
        if (iter > 0) S.unrolled++;
        regionLoop(l, i);
      }
    }
  }
  void regionLoop(Loop *l, size_t hi) {
    // process header first with the pending edges, then the body; back edges
    // become the pending edges of the next iteration
    BasicBlock *H = l->getHeader(); block(H);
    region2(l, hi + 1);
  }
  void region2(Loop *L, size_t from) {
    for (size_t i = from; i < rpo.size(); i++) {
      BasicBlock *B = rpo[i]; if (!L->contains(B) || B == L->getHeader()) continue;
      Loop *l = LI->getLoopFor(B);
      if (l == L) { block(B); continue; }
      while (l->getParentLoop() != L) l = l->getParentLoop();
      if (l->getHeader() != B) continue;
      int prev = -1, sym = 0; for (int iter = 0; ; iter++) { auto it = inc.find(B); if (it == inc.end() || it->second.empty()) break; if (iter > 20000) bad("loop does not terminate statically"); if (boundLoop(l, iter, prev, sym)) { for (In &e : it->second) dropped = orb(dropped, e.p); inc.erase(it); break; } if (iter > 0) S.unrolled++; regionLoop(l, i); }
    }
  }
  void run(const std::vector<Vals> &args, const Mem &m0) {
    if (depth > 120) bad("recursion too deep in " + demangle(F.getName().str()));
    DominatorTree DT(F); LoopInfo li(DT); LI = &li;
    ReversePostOrderTraversal<Function*> RPO(&F); for (BasicBlock *B : RPO) rpo.push_back(B);
    size_t ai = 0; for (Argument &a : F.args()) { if (ai >= args.size()) bad("argument count"); env[&a] = args[ai++]; }
    std::vector<BasicBlock*> wl; for (BasicBlock *B : rpo) if (isa<ReturnInst>(B->getTerminator())) { returns.insert(B); wl.push_back(B); }
    while (!wl.empty()) { BasicBlock *B = wl.back(); wl.pop_back(); for (BasicBlock *Q : predecessors(B)) if (returns.insert(Q).second) wl.push_back(Q); }
    In in; in.p = T(); in.m = m0; inc[&F.getEntryBlock()].push_back(in);
    region(nullptr, 0);
    curLoc = nullptr;
  }
  // inline a defined function at a call site
  Vals inlineCall(Function *f, CallBase *cb) {
    const DILocation *saved = curLoc; Build b(*f, S, seq, depth + 1); std::vector<Vals> args; for (unsigned i = 0; i < f->arg_size(); i++) args.push_back(get(cb->getArgOperand(i)));
    // byval
    for (unsigned i = 0; i < f->arg_size(); i++) if (cb->isByValArgument(i)) { int id = nextObj++; cur.o[id] = std::make_shared<Obj>(); memcpyP(ptr(id, 0), args[i][0], DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue()); args[i] = {ptr(id, 0)}; }
    b.run(args, cur); curLoc = saved;
    if (b.thrown != Fa()) { thrown = orb(thrown, andb(P0, b.thrown)); P0 = andb(P0, notb(b.thrown)); }
    if (b.dropped != Fa()) { dropped = orb(dropped, andb(P0, b.dropped)); P0 = andb(P0, notb(b.dropped)); }
    if (!b.haveFinal) { dead = true; return Vals(leafCount(f->getReturnType()), mk(UNDEF)); }
    cur = b.finalMem; return b.retVal;
  }
};

// ---------------------------------------------------------- fingerprint ----
struct V { char k = 0; u64 f = 0; long long i = 0; V() {} V(char k_, u64 f_, long long i_) : k(k_), f(f_), i(i_) {} }; // k: 'F' field, 'I' int, 'U' undefined, 'H' +huge, 'h' -huge
static u64 mix(u64 x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; x ^= x >> 31; return x; }
struct Retry {};
static std::vector<u64> lam; static bool algSqrt = true;
struct Trial {
  // the set of values known to be positive: open addressing, zero marks an empty slot (zero is never positive)
  struct FlatSet { std::vector<u64> t = std::vector<u64>(1024, 0); size_t n = 0;
    static size_t h(u64 x) { return (x * 0x9e3779b97f4a7c15ULL) >> 20; }
    bool count(u64 x) const { if (!x) return false; size_t m = t.size() - 1; for (size_t i = h(x) & m;; i = (i + 1) & m) { if (t[i] == x) return true; if (!t[i]) return false; } }
    std::pair<int, bool> emplace(u64 x, int) { if (!x || count(x)) return {0, false}; if (3 * ++n > t.size()) { std::vector<u64> o(t.size() * 4, 0); o.swap(t); for (u64 v : o) if (v) put(v); } put(x); return {0, true}; }
    void put(u64 x) { size_t m = t.size() - 1, i = h(x) & m; while (t[i]) i = (i + 1) & m; t[i] = x; } };
  u64 seed; FlatSet pos; std::vector<u64> posList; std::vector<V> val; std::mt19937_64 rng; long atoms = 0;
  std::set<int> must; int ties = 0;
  explicit Trial(u64 s) : seed(s), rng(s) { addPos(1); addPos(invm(2)); for (int i = 2; i <= 24; i++) addPos(i); }
  bool inPos(u64 v) { if (pos.count(v)) return true; for (u64 l : lam) if (pos.count(mulm(v, l))) return true; return false; }
  void addPos(u64 v) { if (v && pos.emplace(v, 1).second) posList.push_back(v); }
  int signVal(u64 d) {
    if (d == 0) return 0;
    if (inPos(d)) return 1; u64 nd = subm(0, d); if (inPos(nd)) return -1;
    size_t n = posList.size();
    for (size_t i = 0; i < n; i++) { if (inPos(subm(d, posList[i]))) { addPos(d); return 1; } if (inPos(subm(nd, posList[i]))) { addPos(nd); return -1; } }
    if (n <= 160) for (size_t i = 0; i < n; i++) for (size_t j = i; j < n; j++) { u64 s = addm(posList[i], posList[j]); if (pos.count(subm(d, s))) { addPos(d); return 1; } if (pos.count(subm(nd, s))) { addPos(nd); return -1; } }
    atoms++; bool p = rng() & 1; addPos(p ? d : nd); return p ? 1 : -1;
  }
  // the sign of a node as far as it follows without a new assumption (9: it does not)
  int known(int n, int depth = 6) {
    const V &v = val[n]; if (v.k == 'H') return 1; if (v.k == 'h') return -1; if (v.k != 'F') return 9; if (v.f == 0) return 0;
    if (N[n].sg == 1 || N[n].sg == 2) return 1; if (N[n].sg == -1) return -1; if (inPos(v.f)) return 1; if (inPos(subm(0, v.f))) return -1; if (!depth) return 9;
    const Node &x = N[n];
    switch (x.op) {
      case FMUL: case FDIV: { int s = known(x.a[0], depth - 1), t = known(x.a[1], depth - 1); return s == 9 || t == 9 ? 9 : s * t; }
      case FNEG: { int s = known(x.a[0], depth - 1); return s == 9 ? 9 : -s; }
      case SQRT: case FABS: return 1;
      case FADD: case FSUB: { int s = known(x.a[0], depth - 1), t = known(x.a[1], depth - 1); if (t != 9 && x.op == FSUB) t = -t; if (s == 9 || t == 9) return 9; return s == 0 ? t : t == 0 || s == t ? s : 9; }
      default: return 9; } }
  int signNode(int n) {
    const V &v = val[n]; if (v.k == 'H') return 1; if (v.k == 'h') return -1; if (v.k != 'F') return 0; if (v.f == 0) return 0;
    if (N[n].sg == 1) { return 1; } if (N[n].sg == -1) return -1; if (N[n].sg == 2) return 1;
    if (inPos(v.f)) return 1; if (inPos(subm(0, v.f))) return -1;
    int s = 0; const Node &x = N[n];
    switch (x.op) { case FADD: case FSUB: s = known(n); if (s == 9) return signVal(v.f); break; case FMUL: case FDIV: s = signNode(x.a[0]) * signNode(x.a[1]); break; case FNEG: s = -signNode(x.a[0]); break; case SEL: { s = signNode(val[x.a[0]].i ? x.a[1] : x.a[2]); break; }
      case FMIN: case FMAX: { const V &p = val[x.a[0]]; s = signNode(asF(p).k == 'F' && asF(p).f == v.f ? x.a[0] : x.a[1]); break; } default: return signVal(v.f); }
    if (s) addPos(s > 0 ? v.f : subm(0, v.f)); return s;
  }
  static V Fv(u64 f) { return {'F', f, 0}; } static V Iv(long long i) { return {'I', 0, i}; } static V U() { return {'U', 0, 0}; }
  V asF(const V &v) { if (v.k == 'I') { if (v.i == 0) return Fv(0); double d = asD(v.i); return Fv(fromDouble(d)); } return v; }
  int cmpSign(int a, int b, bool &undef) {
    V x = asF(val[a]), y = asF(val[b]); undef = false; if (x.k == 'U' || y.k == 'U') { undef = true; return 0; }
    auto h = [](const V &v) { return v.k == 'H' ? 1 : v.k == 'h' ? -1 : 0; };
    if (h(x) != h(y)) return h(x) > h(y) ? 1 : -1; if (h(x)) return 0;
    if (y.f == 0 && x.k == 'F') return signNode(a); if (x.f == 0) return -signNode(b);
    u64 d = subm(x.f, y.f); if (!d) return 0;
    int sa = N[a].sg, sb = N[b].sg; if ((sa == 1 || sa == 2) && sb == -1) return 1; if (sa == -1 && (sb == 1 || sb == 2)) return -1;
    if (atomNode(a) && atomNode(b)) {
      // free values are totally ordered by a rank, such that comparisons are transitive
      auto rank = [&](int n, u64 f) { int s = signNode(n); return s * (1e-3 + double(mix(f ^ mix(seed + 17)) >> 12)); };
      int s = rank(a, x.f) > rank(b, y.f) ? 1 : -1; u64 nd = subm(0, d);
      if (inPos(s > 0 ? nd : d)) throw Retry{};
      pos.emplace(s > 0 ? d : nd, 1); return s;
    }
    return signVal(d);
  }
  // does the taken arm of the selections at n end in a free value?
  bool atomNode(int n) {
    for (int i = 0; i < 10000; i++) { const Node &x = N[n];
      switch (x.op) { case SEL: n = val[x.a[0]].i & 1 ? x.a[1] : x.a[2]; break;
      case FMIN: case FMAX: { if (val[n].k != 'F') return false; const V &p = val[x.a[0]]; n = asF(p).k == 'F' && asF(p).f == val[n].f ? x.a[0] : x.a[1]; break; }
      case UF: case SQRT: return true; case INP: return x.s != "i"; default: return false; } }
    return false; }
  // sign of the integer d (+1/2): le(a,b) <=> b-a+1/2 > 0
  // consistent for d and -d: an integer that is not zero is at least one away from it
  int intSign(u64 d, int x) { int s = intSign0(d, x); if (d) { u64 e = s > 0 ? d : subm(0, d), half = invm(2); addPos(e); addPos(addm(e, half)); addPos(subm(e, half)); } return s; }
  int intSign0(u64 d, int) { u64 half = invm(2); u64 v = addm(d, half); if (inPos(v)) return 1; u64 nv = subm(0, v); if (inPos(nv)) return -1;
    long long sm = d <= P / 2 ? (long long)d : -(long long)(P - d); if (sm > -1000000 && sm < 1000000) return sm >= 0 ? 1 : -1;
    size_t n = posList.size(); if (n <= 400) for (size_t i = 0; i < n; i++) for (size_t j = i; j < n; j++) { u64 s = addm(posList[i], posList[j]); if (addm(v, half) == s) { addPos(v); return 1; } if (addm(nv, half) == s) { addPos(nv); return -1; } }
    return signVal(v); }
  bool intCmp(int pr, u64 a, u64 b) {
    auto le = [&](u64 x, u64 y) { return intSign(subm(y, x), 1) > 0; };
    switch (pr) { case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: return le(a, b); case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: return !le(b, a); case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: return le(b, a); case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: return !le(a, b); case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; }
    return false; }
  V eval(int n) {
    const Node &x = N[n]; auto A = [&](int i) -> const V & { return val[x.a[i]]; };
    auto fbin = [&](auto op) -> V { V a = asF(A(0)), b = asF(A(1)); if (a.k == 'U' || b.k == 'U') return U(); if (a.k != 'F' || b.k != 'F') return a.k != 'F' ? a : b; return op(a.f, b.f); };
    switch (x.op) {
    case UNDEF: return U();
    case CF: { double d = asD(x.k); if (std::isnan(d)) return U(); if (d > 1e290) return {'H', 0, 0}; if (d < -1e290) return {'h', 0, 0}; return Fv(fromDouble(d)); }
    case CI: return Iv(x.k);
    case INP: if (x.s == "i") { u64 v = mix(mix(seed * 77 + x.k) + 5) % P; return Fv(v); }
      if (ties) { u64 h = mix(mix(seed * 99 + x.k * 3 + (x.s == "p")) + 11); if (h % 8 < (u64)ties) { h /= 8; u64 q = mix(mix(seed * 55 + x.k % 50) + 3) % P; q = mulm(q, q); if (x.s == "p") { addPos(q); return Fv(q); } int w = h / 2 % 5; if (w < 1) return Fv(0); addPos(q); return Fv(w < 4 ? q : subm(0, q)); } }
      { u64 v = mix(mix(seed * 77 + x.k + (x.s == "p" ? 0x1000000 : 0)) ^ 0x9e3779b97f4a7c15ULL) % P; if (x.s == "p") { v = mulm(v, v); addPos(v); } return Fv(v); }
    case FADD: return fbin([](u64 a, u64 b) { return Fv(addm(a, b)); });
    case FSUB: return fbin([](u64 a, u64 b) { return Fv(subm(a, b)); });
    case FMUL: return fbin([](u64 a, u64 b) { return Fv(mulm(a, b)); });
    case FDIV: { V a = asF(A(0)), b = asF(A(1)); if (a.k == 'U' || b.k == 'U') return U(); if (b.k != 'F') return Fv(0); if (b.f == 0) return U(); if (a.k != 'F') return a; return Fv(mulm(a.f, invm(b.f))); }
    case FNEG: { V a = asF(A(0)); if (a.k == 'F') return Fv(subm(0, a.f)); if (a.k == 'H') return {'h', 0, 0}; if (a.k == 'h') return {'H', 0, 0}; return a; }
    case SQRT: { V a = asF(A(0)); if (a.k != 'F') return a; if (a.f == 0) return a; if (!algSqrt) { u64 v = mix(a.f ^ mix(seed + 91)) % P; v = mulm(v, v); addPos(v); return Fv(v); }
      if (!isQR(a.f)) throw Retry{}; u64 r = powm(a.f, (P + 1) / 4); if (!isQR(r)) r = subm(0, r); { u64 q = subm(0, r); if (inPos(q) && !inPos(r)) r = q; } addPos(r); return Fv(r); }
    case FABS: { V a = asF(A(0)); if (a.k == 'h') return {'H', 0, 0}; if (a.k != 'F') return a; int s = signNode(x.a[0]); return Fv(s < 0 ? subm(0, a.f) : a.f); }
    case FMIN: case FMAX: { bool u; int s = cmpSign(x.a[0], x.a[1], u); if (u) return U(); bool first = x.op == FMIN ? s <= 0 : s >= 0; return first ? asF(A(0)) : asF(A(1)); }
    case COPYSIGN: { V a = asF(A(0)); if (a.k != 'F' || asF(A(1)).k == 'U') return U(); int s0 = signNode(x.a[0]); int s1 = signNode(x.a[1]); if (s1 == 0) s1 = 1; u64 m = s0 < 0 ? subm(0, a.f) : a.f; return Fv(s1 < 0 ? subm(0, m) : m); }
    case SEL: { const V &c = A(0); if (c.k == 'U') { V p = asF(A(1)), q = asF(A(2)); return p.k == q.k && p.f == q.f && p.i == q.i ? A(1) : U(); } return c.i & 1 ? A(1) : A(2); }
    case FCMP: { bool u; int s = cmpSign(x.a[0], x.a[1], u); if (u) return U(); switch (x.k) { case CmpInst::FCMP_OGT: return Iv(s > 0); case CmpInst::FCMP_OGE: return Iv(s >= 0); case CmpInst::FCMP_OEQ: return Iv(s == 0); case CmpInst::FCMP_ONE: return Iv(s != 0); } return U(); }
    case ICMP: { V a = A(0), b = A(1); if (a.k == 'U' || b.k == 'U') return U(); if ((a.k == 'F' || b.k == 'F') && !isFloatNode(x.a[0]) && !isFloatNode(x.a[1])) { u64 p = a.k == 'F' ? a.f : fromInt(a.i), q = b.k == 'F' ? b.f : fromInt(b.i); return Iv(intCmp(x.k, p, q)); }
      if (a.k == 'F' || b.k == 'F') { u64 p = a.k == 'F' ? a.f : (u64)a.i, q = b.k == 'F' ? b.f : (u64)b.i; if (x.k == CmpInst::ICMP_EQ) return Iv(a.k == b.k && p == q); if (x.k == CmpInst::ICMP_NE) return Iv(!(a.k == b.k && p == q)); if (x.k == CmpInst::ICMP_SLT && b.k == 'I' && b.i == 0) return Iv(signNode(x.a[0]) < 0); if (x.k == CmpInst::ICMP_SGT && b.k == 'I' && b.i == -1) return Iv(signNode(x.a[0]) >= 0); return U(); } return Iv(icmpEval(x.k, a.i, b.i, atoi(x.s.c_str()))); }
    case AND: case OR: case XOR: { V a = A(0), b = A(1); if (x.w == 1) { if (x.op == AND) { if ((a.k == 'I' && !(a.i & 1)) || (b.k == 'I' && !(b.i & 1))) return Iv(0); } if (x.op == OR) { if ((a.k == 'I' && (a.i & 1)) || (b.k == 'I' && (b.i & 1))) return Iv(1); } if (a.k == 'U' || b.k == 'U') return U(); long long r = x.op == AND ? a.i & b.i : x.op == OR ? a.i | b.i : a.i ^ b.i; return Iv(r & 1); }
      if (a.k == 'U' || b.k == 'U') return U(); if (a.k == 'I' && b.k == 'I') { bool ok; return Iv(foldI(x.op, a.i, b.i, x.w, ok)); }
      for (int i = 0; i < 2; i++) { V m = i ? b : a, o = i ? a : b; if (m.k != 'I') continue; if (x.op == AND) { if (m.i == 0) return Iv(0); if (m.i == -1) return o; if (m.i == 0x7fffffffffffffffLL && o.k == 'F') return Fv(signNode(x.a[i ? 0 : 1]) < 0 ? subm(0, o.f) : o.f); } if (x.op == OR && m.i == 0) return o; if (x.op == XOR && m.i == 0) return o; if (x.op == XOR && m.i == -1 && o.k == 'F') return Fv(subm(P - 1, o.f)); if (x.op == XOR && (u64)m.i == 0x8000000000000000ULL && o.k == 'F') return Fv(subm(0, o.f)); }
      return U(); }
    case ADD: case SUB: case MUL: case SHL: case LSHR: case ASHR: case SDIV: case UDIV: case SREM: case UREM: case SMIN: case SMAX: case UMIN: case UMAX: {
      V a = A(0), b = A(1); if (a.k == 'U' || b.k == 'U') return U();
      if (a.k == 'F' || b.k == 'F') { u64 p = a.k == 'F' ? a.f : fromInt(a.i), q = b.k == 'F' ? b.f : fromInt(b.i);
        if (x.op == ADD) return Fv(addm(p, q)); if (x.op == SUB) return Fv(subm(p, q)); if (x.op == MUL) return Fv(mulm(p, q));
        if (x.op == SHL && b.k == 'I' && b.i >= 0 && b.i < 62) return Fv(mulm(p, (1ull << b.i) % P));
        if (x.op == SMIN || x.op == UMIN) return intSign(subm(q, p), 1) > 0 ? Fv(p) : Fv(q); if (x.op == SMAX || x.op == UMAX) return intSign(subm(q, p), 1) > 0 ? Fv(q) : Fv(p);
        u64 h = mix(seed * 31 + 1234 + x.op); h = mix(h ^ p); h = mix(h ^ q); return Fv(h % P); }
      bool ok; long long r = foldI(x.op, a.i, b.i, x.w, ok); return ok ? Iv(r) : U(); }
    case SEXT: { V a = A(0); if (a.k != 'I') return a; int sw = N[x.a[0]].w; return Iv(sw == 1 ? -(a.i & 1) : a.i); }
    case ZEXT: { V a = A(0); if (a.k != 'I') return a; return Iv((long long)zextw(a.i, N[x.a[0]].w)); }
    case TRUNC: { V a = A(0); if (a.k == 'F') return a; if (a.k != 'I') return U(); return Iv(sextw(a.i, x.w)); }
    case SITOFP: { V a = A(0); if (a.k != 'I') return a.k == 'F' ? a : U(); return Fv(fromInt(a.i)); }
    case FPTOSI: { V a = asF(A(0)); if (a.k != 'F') return U(); return Iv(sextw((long long)(mix(a.f ^ mix(seed + 17)) >> 34), 31)); }
    case UF: { bool powGeneral = false; // a real power of a non-zero base is positive
      if (x.s == "pow" && x.a.size() == 2) { V b = asF(A(0)), e = asF(A(1)); if (b.k == 'F' && b.f == 1) return Fv(1); if (e.k == 'F' && b.k == 'F') { if (e.f == 0) return Fv(1); if (e.f == 1) return b; if (e.f == 2) return Fv(mulm(b.f, b.f)); if (e.f == P - 1 && b.f) return Fv(invm(b.f)); if (e.f <= 16) return Fv(powm(b.f, e.f)); if (P - e.f <= 16 && b.f) return Fv(powm(invm(b.f), P - e.f)); powGeneral = b.f != 0; } }
      if (x.a.size() == 1) { V b = asF(A(0)); if (x.s == "vg_num") return b; if (b.k == 'F' && b.f == 0 && (x.s == "exp" || x.s == "cos" || x.s == "cosh")) return Fv(1); if (b.k == 'F' && b.f == 0 && (x.s == "sin" || x.s == "tan" || x.s == "sinh" || x.s == "tanh" || x.s == "atan" || x.s == "asin")) return Fv(0); if (b.k == 'F' && b.f == 1 && (x.s == "log" || x.s == "log10" || x.s == "log2" || x.s == "acos")) return Fv(0); }
      u64 h = mix(seed * 31 + 7); for (char c : x.s) h = mix(h ^ (u64)(unsigned char)c); h = mix(h ^ (u64)x.k); for (size_t i = 0; i < x.a.size(); i++) { const V &v = A(i); if (v.k == 'U') return U(); V y = v; if (y.k == 'I' && isFloatNode(x.a[i])) y = asF(y); h = mix(h ^ (y.k == 'F' ? y.f : y.k == 'I' ? mix((u64)y.i + 3) : (u64)y.k * 0x9e3779b97f4a7c15ULL)); }
      if (x.w == 0) { u64 v = h % P; if (x.sg == 1 || powGeneral) { v = mulm(v, v); addPos(v); } return Fv(v); } if (x.w == 1) return Iv(h & 1); return Iv(sextw((long long)(h >> 3), x.w)); }
    case PTR: return Iv((long long)mix(x.w * 1000003ULL + x.k));
    case CAT: case SUBBITS: { u64 h = mix(x.k * 13 + x.w); for (char c : x.s) h = mix(h ^ (u64)(unsigned char)c); for (size_t i = 0; i < x.a.size(); i++) { const V &v = A(i); if (v.k == 'U') return U(); h = mix(h ^ (v.k == 'F' ? v.f : mix((u64)v.i + 3))); } return Fv(h % P); }
    default: return U();
    }
  }
  // demand driven: only the arm a select takes is evaluated (so a square root
  // of an arm not taken does not constrain the inputs)
  void demand(int root) {
    if (val[root].k) return; stk.clear(); stk.push_back(root);
    while (!stk.empty()) {
      int n = stk.back(); if (val[n].k) { stk.pop_back(); continue; }
      const Node &x = N[n]; bool wait = false;
      auto req = [&](int a) { if (!val[a].k) { stk.push_back(a); wait = true; } };
      if (x.op == SEL) { req(x.a[0]); if (!wait) { const V &c = val[x.a[0]]; if (c.k == 'I') req(c.i & 1 ? x.a[1] : x.a[2]); else { req(x.a[1]); req(x.a[2]); } } }
      else if ((x.op == AND || x.op == OR) && x.w == 1) { req(x.a[0]); if (!wait) { const V &c = val[x.a[0]]; if (!(c.k == 'I' && ((c.i & 1) == (x.op == OR)))) req(x.a[1]); } }
      else for (int a : x.a) req(a);
      if (wait) continue;
      V v = eval(n); val[n] = v;
      if (v.k == 'F' && v.f) { if (must.count(n) || x.sg == 1) { if (pos.count(subm(0, v.f))) throw Retry{}; addPos(v.f); } else if (x.sg == -1) { if (pos.count(v.f)) throw Retry{}; addPos(subm(0, v.f)); } }
      stk.pop_back();
    }
  }
  std::vector<int> stk;
};

static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else r += c; } return r; }
static std::string locStr(const DILocation *l) {
  if (!l) return "?"; std::string r; int d = 0; const DILocation *prev = nullptr; 
  for (; l && d < 6; l = l->getInlinedAt(), d++) { std::string f = l->getFilename().str(); auto *sp = l->getScope()->getSubprogram(); std::string fn = sp ? sp->getName().str() : ""; if (f.find("/repo/") == std::string::npos && f.find("repo/") != 0 && f.find("/verif") == std::string::npos) { continue; } if (!r.empty()) r += " <- "; r += f + ":" + std::to_string(l->getLine()) + " (" + fn + ")"; if (r.size() > 500) break; prev = l; }
  (void)prev; return r.empty() ? "?" : r;
}
static std::string expr(int n, int depth = 3) {
  const Node &x = N[n]; if (x.op == CF) { char b[40]; snprintf(b, 40, "%.9g", asD(x.k)); return b; } if (x.op == CI) return std::to_string(x.k); if (x.op == INP) return (x.s == "p" ? "p" : "x") + std::to_string(x.k); if (depth == 0) return "#" + std::to_string(n);
  std::string r = x.op == UF ? x.s : opn[x.op]; if (x.op == FCMP) r += x.k == CmpInst::FCMP_OGT ? ">" : x.k == CmpInst::FCMP_OGE ? ">=" : "=="; r += "("; for (size_t i = 0; i < x.a.size(); i++) { if (i) r += ","; r += expr(x.a[i], depth - 1); } return r + ")";
}

// ------------------------------------------------- order assumptions ----
// A trial decides comparisons one by one. Before two values are reported as
// different, the decisions are checked together: every decided comparison is a
// linear inequality between monomials of the values that the code leaves opaque.
// A nonnegative combination of the inequalities that vanishes identically
// (Farkas) shows that no real input takes these decisions.
struct OrderCheck {
  using Form = std::map<u64, double>; Trial &tr; std::unordered_map<int, Form> memo;
  explicit OrderCheck(Trial &t) : tr(t) {}
  static void add(Form &f, u64 key, double c) { double &x = f[key]; x += c; if (std::fabs(x) < 1e-13 * std::fabs(c)) f.erase(key); }
  static Form mono(u64 v, double c) { Form f; if (!v) return f; u64 nv = subm(0, v); if (nv < v) { v = nv; c = -c; } f[v] = c; return f; }
  static Form plus(const Form &a, const Form &b, double s) { Form r = a; for (auto &kv : b) add(r, kv.first, s * kv.second); return r; }
  static Form times(const Form &a, const Form &b) { Form r; for (auto &x : a) for (auto &y : b) { Form m = mono(mulm(x.first, y.first), x.second * y.second); for (auto &kv : m) add(r, kv.first, kv.second); } return r; }
  static bool constant(const Form &f, double &c) { if (f.empty()) { c = 0; return true; } if (f.size() == 1 && f.begin()->first == 1) { c = f.begin()->second; return true; } return false; }
  Form form(int n, int depth = 0) {
    auto it = memo.find(n); if (it != memo.end()) return it->second;
    const V v = tr.asF(tr.val[n]); Form r; if (v.k != 'F') return r; if (v.f == 0) return r;
    const Node &x = N[n]; bool done = false; auto F = [&](int i) { return form(x.a[i], depth + 1); }; auto ok = [&](int i) { return tr.asF(tr.val[x.a[i]]).k == 'F'; };
    if (depth < 200) switch (x.op) {
      case CF: r[1] = asD(x.k); done = true; break;
      case CI: r[1] = double(x.k); done = true; break;
      case FADD: case FSUB: if (ok(0) && ok(1)) { r = plus(F(0), F(1), x.op == FADD ? 1 : -1); done = r.size() <= 64; } break;
      case FNEG: if (ok(0)) { r = plus(Form(), F(0), -1); done = true; } break;
      case FMUL: if (ok(0) && ok(1)) { Form a = F(0), b = F(1); if (a.size() * b.size() <= 64) { r = times(a, b); done = true; } } break;
      case FDIV: if (ok(0) && ok(1)) { Form a = F(0), b = F(1); double c; if (constant(b, c) && c != 0) { for (auto &kv : a) r[kv.first] = kv.second / c; done = true; } else { u64 q = tr.asF(tr.val[x.a[1]]).f; if (b.size() == 1) { r = times(a, mono(invm(b.begin()->first), 1 / b.begin()->second)); done = true; } else if (q && a.size() <= 64) { r = times(a, mono(invm(q), 1)); done = true; } } } break;
      case SEL: { int a = x.a[tr.val[x.a[0]].i & 1 ? 1 : 2]; if (tr.val[a].k) { r = form(a, depth + 1); done = true; } break; }
      case FMIN: case FMAX: for (int i = 0; i < 2 && !done; i++) if (ok(i) && tr.asF(tr.val[x.a[i]]).f == v.f) { r = F(i); done = true; } break;
      case FABS: if (ok(0)) { r = plus(Form(), F(0), tr.asF(tr.val[x.a[0]]).f == v.f ? 1 : -1); done = true; } break;
      default: break; }
    if (!done) r = mono(v.f, 1);
    return memo[n] = r;
  }
  // true: the decisions of this trial contradict each other
  bool contradictory(const std::vector<int> &order) {
    std::vector<Form> rows; std::set<u64> keys; std::set<std::vector<std::pair<u64, double>>> seen;
    auto row = [&](Form f) { double m = 0; for (auto &kv : f) m = std::max(m, std::fabs(kv.second)); if (m == 0) return; for (auto &kv : f) kv.second /= m; if (!seen.insert(std::vector<std::pair<u64, double>>(f.begin(), f.end())).second) return; for (auto &kv : f) keys.insert(kv.first); rows.push_back(f); };
    auto rel = [&](int a, int b, int s) { V p = tr.asF(tr.val[a]), q = tr.asF(tr.val[b]); if (p.k != 'F' || q.k != 'F' || p.f == q.f) return; Form f = plus(form(a), form(b), -1); if (s < 0) f = plus(Form(), f, -1); row(f); };
    for (int n : order) { const V &v = tr.val[n]; if (!v.k) continue; const Node &x = N[n];
      if (x.op == FCMP && v.k == 'I' && (x.k == CmpInst::FCMP_OGT || x.k == CmpInst::FCMP_OGE)) rel(x.a[0], x.a[1], v.i & 1 ? 1 : -1);
      if ((x.op == FMIN || x.op == FMAX) && v.k == 'F') { bool first = tr.asF(tr.val[x.a[0]]).f == v.f; rel(x.a[0], x.a[1], first == (x.op == FMAX) ? 1 : -1); }
      if (v.k == 'F' && v.f && (x.op == FABS || x.op == SQRT || x.sg == 1 || x.sg == 2)) row(form(n)); if (v.k == 'F' && v.f && x.sg == -1) row(plus(Form(), form(n), -1)); 
      if (rows.size() > 1500) return false; }
    for (u64 k : std::vector<u64>(keys.begin(), keys.end())) { if (k == 1 || tr.inPos(k)) row(mono(k, 1)); else if (tr.inPos(subm(0, k))) row(plus(Form(), mono(k, 1), -1)); }
    size_t m = rows.size(), n = keys.size() + 1; if (!m || m > 2000 || n > 800) return false;
    std::map<u64, size_t> col; std::vector<double> scale; for (u64 k : keys) { size_t c = col.size(); col[k] = c; double mx = 0; for (auto &r : rows) { auto i = r.find(k); if (i != r.end()) mx = std::max(mx, std::fabs(i->second)); } scale.push_back(mx > 0 ? mx : 1); }
    // phase one of the simplex method for: A^T y = 0, sum y = 1, y >= 0
    std::vector<std::vector<double>> A(n, std::vector<double>(m + 1, 0)); for (size_t j = 0; j < m; j++) { for (auto &kv : rows[j]) A[col[kv.first]][j] = kv.second / scale[col[kv.first]]; A[n - 1][j] = 1; } A[n - 1][m] = 1;
    std::vector<std::vector<double>> B = A; std::vector<long> base(n, -1); std::vector<double> z(m + 1, 0); for (size_t j = 0; j <= m; j++) for (size_t i = 0; i < n; i++) z[j] += B[i][j];
    for (long iter = 0; iter < 20000; iter++) {
      long e = -1; if (iter < 2000) { double best = 1e-9; for (size_t j = 0; j < m; j++) if (z[j] > best) { best = z[j]; e = j; } } else for (size_t j = 0; j < m && e < 0; j++) if (z[j] > 1e-9) e = j;
      if (e < 0) break; long l = -1; double q = 0; for (size_t i = 0; i < n; i++) if (B[i][e] > 1e-9) { double t = B[i][m] / B[i][e]; if (l < 0 || t < q - 1e-12 || (t < q + 1e-12 && base[i] < base[l])) { l = i; q = t; } }
      if (l < 0) break; double pv = B[l][e]; for (double &t : B[l]) t /= pv; for (size_t i = 0; i < n; i++) if ((long)i != l && B[i][e] != 0) { double f = B[i][e]; for (size_t j = 0; j <= m; j++) B[i][j] -= f * B[l][j]; } { double f = z[e]; for (size_t j = 0; j <= m; j++) z[j] -= f * B[l][j]; } base[l] = e; }
    std::vector<double> y(m, 0); for (size_t i = 0; i < n; i++) if (base[i] >= 0) y[base[i]] = std::max(0.0, B[i][m]);
    double sum = 0; for (double t : y) sum += t; if (std::fabs(sum - 1) > 1e-6) return false;
    for (size_t i = 0; i + 1 < n; i++) { double s = 0; for (size_t j = 0; j < m; j++) s += A[i][j] * y[j]; if (std::fabs(s) > 1e-9) return false; }
    return true;
  }
};

int main(int argc, char **argv) {
  int trials = 64, most = 2000; double work = 0; u64 seed0 = 1; std::string only, tiesOff; const char *file = nullptr;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--trials") trials = atoi(argv[++i]); else if (a == "--work") work = atof(argv[++i]); else if (a == "--most") most = atoi(argv[++i]); else if (a == "--seed") seed0 = strtoull(argv[++i], 0, 10); else if (a == "--ties-off") tiesOff = argv[++i]; else if (a == "--only") only = argv[++i]; else file = argv[i]; }
  initPrime(); { for (u64 a : {2, 3, 4, 5, 6, 8, 10, 16, 32}) { lam.push_back(a); lam.push_back(invm(a)); } lam.push_back(mulm(2, invm(3))); lam.push_back(mulm(3, invm(2))); lam.push_back(mulm(4, invm(3))); lam.push_back(mulm(3, invm(4))); }
  LLVMContext C; SMDiagnostic E; auto M = parseIRFile(file, E, C); if (!M) { E.print("vg", errs()); return 2; }
  DL = &M->getDataLayout();
  std::map<std::string, Function*> L, R; for (Function &f : *M) { if (f.isDeclaration()) continue; StringRef n = f.getName(); if (n.ends_with("__L")) L[n.drop_back(3).str()] = &f; if (n.ends_with("__R")) R[n.drop_back(3).str()] = &f; }
  printf("[\n"); bool firstOut = true; int rc = 0;
  for (auto &lr : L) {
    const std::string &law = lr.first; if (!only.empty() && law != only) continue; if (!firstOut) printf(",\n"); firstOut = false;
    if (!R.count(law)) { printf("{\"law\":\"%s\",\"status\":\"undecided\",\"why\":\"missing R side\"}", law.c_str()); rc = 2; continue; }
    N.clear(); cons.clear(); gobj.clear(); objg.clear(); assumed.clear(); fobj.clear(); nextObj = 1; 
    try {
      int oid = nextObj++; int oid2 = nextObj++; int sq1 = 0, sq2 = 0; Stats S1, S2; Build bl(*lr.second, S1, sq1), br(*R[law], S2, sq2); auto go = [&](Build &b, int id) { Mem m; auto oo = std::make_shared<Obj>(); oo->name = "out"; m.o[id] = oo; b.run({{Build::ptr(id, 0)}}, m); };
      try { go(bl, oid); } catch (Unsupported &u) { bad("L: " + u.why + " at " + locStr(curLoc)); } try { go(br, oid2); } catch (Unsupported &u) { bad("R: " + u.why + " at " + locStr(curLoc)); }
      if (!bl.haveFinal && br.haveFinal && bl.dropped == Fa() && br.dropped == Fa() && br.thrown == Fa()) {
        printf("{\"law\":\"%s\",\"status\":\"differ\",\"why\":\"the code never returns: it leaves a function without a value or always throws\",\"output\":-1,\"outputs\":0,\"nodes\":%zu,\"functions\":[],\"left_only\":[{\"at\":\"%s\",\"op\":\"never returns\"}],\"right_only\":[]}", law.c_str(), N.size(), esc(locStr(curLoc)).c_str()); rc = 1; continue; }
      if (!bl.haveFinal || !br.haveFinal) bad("a side never returns");
      auto collect = [&](Build &b, int id) { std::map<long long, int> r; auto it = b.finalMem.o.find(id); if (it != b.finalMem.o.end()) { for (auto &c : it->second->c) r[c.first] = c.second.n; for (auto &z : it->second->zr) for (long long o = z.first; o < z.second; o += 8) if (!r.count(o)) r[o] = cf(0); } return r; };
      auto ol = collect(bl, oid), orr = collect(br, oid2);
      std::vector<long long> offs; for (auto &x : ol) offs.push_back(x.first); 
      std::string shape; if (ol.size() != orr.size()) shape = "different number of outputs " + std::to_string(ol.size()) + " vs " + std::to_string(orr.size());
      if (!shape.empty()) bad(shape); if (offs.empty()) bad("no outputs");
      std::vector<std::pair<int,int>> pairs; for (long long o : offs) { if (!orr.count(o)) bad("output offsets differ"); pairs.push_back({ol[o], orr[o]}); }
      pairs.push_back({bl.thrown, br.thrown}); int drop = orb(bl.dropped, br.dropped); // trials that leave through a cut loop are not used
      // cone
      std::vector<char> need(N.size(), 0), inL(N.size(), 0), inR(N.size(), 0); 
      for (auto &as : assumed) { for (int r : {as.first, as.second}) { std::vector<int> st{r}; while (!st.empty()) { int n = st.back(); st.pop_back(); if (need[n]) continue; need[n] = 1; for (int a : N[n].a) st.push_back(a); } } }
      std::vector<char> needA = need;
      auto cone = [&](std::vector<char> &in, bool left) { std::vector<int> st; for (auto &p : pairs) st.push_back(left ? p.first : p.second); while (!st.empty()) { int n = st.back(); st.pop_back(); if (in[n]) continue; in[n] = 1; need[n] = 1; for (int a : N[n].a) st.push_back(a); } };
      cone(inL, true); cone(inR, false); { std::vector<int> st{drop}; while (!st.empty()) { int n = st.back(); st.pop_back(); if (need[n]) continue; need[n] = 1; for (int a : N[n].a) st.push_back(a); } } std::vector<int> order; int sq = 0, nsel = 0, ncmp = 0; for (size_t i = 0; i < N.size(); i++) if (need[i]) { order.push_back(i); if (N[i].op == SQRT && !(N[N[i].a[0]].op == INP)) sq++; if (N[i].op == SEL) nsel++; if (N[i].op == FCMP) ncmp++; }
      algSqrt = true;
      int structural = 0; std::vector<int> undec; for (auto &p : pairs) if (p.first == p.second) structural++; 
      int done = 0, failOut = -1; long totalAtoms = 0, retries = 0; std::vector<int> defined(pairs.size(), 0); std::string why; 
      u64 s = seed0 * 1000003; bool mismatch = false; std::string detail; long maxRetry = 400000;
      int tieMiss = 0, tied = 0, spurious = 0; const bool ties = tiesOff.empty() || !std::regex_search(law, std::regex(tiesOff)); bool allStruct = structural == (int)pairs.size();
      // at least `trials` evaluations, more (up to `most`) of laws that are cheap to evaluate
      auto more = [&](int t) { return t < trials || (t < most && double(done + retries) * double(order.size()) < work); };
      for (int t = 0; !allStruct && more(t) && !mismatch; ) {
        s++; Trial tr(mix(s)); tr.val.resize(N.size()); if (ties && s % 4 == 1) tr.ties = 2 + s / 4 % 2 * 4; for (auto &as : assumed) if (as.first == T()) tr.must.insert(as.second);
        try { for (auto &as : assumed) { tr.demand(as.first); const V &c = tr.val[as.first]; if (c.k == 'I' && (c.i & 1)) tr.demand(as.second); } tr.demand(drop); if (tr.val[drop].k == 'I' && (tr.val[drop].i & 1)) throw Retry{}; tr.demand(pairs.back().first); tr.demand(pairs.back().second);
          V tl = tr.val[pairs.back().first], trr = tr.val[pairs.back().second]; if (tl.k == 'I' && trr.k == 'I' && tl.i == 0 && trr.i == 0) for (size_t i = 0; i + 1 < pairs.size(); i++) { tr.demand(pairs[i].first); tr.demand(pairs[i].second); } } catch (Retry &) { if (algSqrt && retries > 8000L * (done + 1)) { algSqrt = false; } if (++retries > maxRetry) { if (algSqrt && done < trials / 4) { algSqrt = false; retries = 0; continue; } break; } continue; }
        { bool bad_ = false; for (auto &as : assumed) { const V &c = tr.val[as.first]; if (!(c.k == 'I' && (c.i & 1))) continue; V v = tr.asF(tr.val[as.second]); if (v.k == 'F' && tr.signNode(as.second) <= 0) bad_ = true; } if (bad_) { if (++retries > maxRetry) break; continue; } }
        t++; done++; if (tr.ties) tied++; totalAtoms += tr.atoms;
        V tl = tr.val[pairs.back().first], trr = tr.val[pairs.back().second]; bool skip = false; if (tl.k == 'I' && trr.k == 'I') { if (tl.i != trr.i) { mismatch = true; failOut = (int)pairs.size() - 1; } if (tl.i) skip = true; } else skip = true;
        if (!mismatch && !skip) for (size_t i = 0; i + 1 < pairs.size(); i++) { V a = tr.val[pairs[i].first], b = tr.val[pairs[i].second]; if (a.k == 'U' || b.k == 'U') continue; if (a.k != b.k) { a = tr.asF(a); b = tr.asF(b); } defined[i]++; if (a.k != b.k || a.f != b.f || a.i != b.i) { mismatch = true; failOut = i; break; } }
        if (mismatch && OrderCheck(tr).contradictory(order)) { mismatch = false; spurious++; }
        if (mismatch && tr.ties && ++tieMiss < 3) mismatch = false; // the order assumed among tied values can be infeasible: more than one trial must disagree
        if (mismatch) { // localise
          if (getenv("VG_DEBUG")) for (int side = 0; side < 2; side++) { std::vector<int> st{side ? pairs[failOut].second : pairs[failOut].first, side ? pairs.back().second : pairs.back().first}; std::set<int> seen; { int rt = side ? pairs[failOut].second : pairs[failOut].first; fprintf(stderr, "== %s side %c out %d value %c %016llx expr %s\n", law.c_str(), side ? (char)82 : (char)76, failOut, tr.val[rt].k, (unsigned long long)tr.val[rt].f, expr(rt, 5).c_str()); if (getenv("VG_VALUES")) { std::vector<int> q{rt}; std::set<int> sn; for (size_t i = 0; i < q.size() && i < 60; i++) { int n = q[i]; fprintf(stderr, "   #%d = %c %016llx i%lld %s\n", n, tr.val[n].k ? tr.val[n].k : '-', (unsigned long long)tr.val[n].f, tr.val[n].i, expr(n, 1).c_str()); for (int a : N[n].a) if (sn.insert(a).second) q.push_back(a); } } for (int n = rt, d = 0; d < 40; d++) { if (N[n].op == FNEG) { n = N[n].a[0]; continue; } if (N[n].op != SEL) break; int c = N[n].a[0]; fprintf(stderr, "   sel #%d on #%d=%c%lld %s\n", n, c, tr.val[c].k ? tr.val[c].k : '-', tr.val[c].i, expr(c, 4).c_str()); n = N[n].a[tr.val[c].i & 1 ? 1 : 2]; } } std::vector<int> v; while (!st.empty()) { int n = st.back(); st.pop_back(); if (!seen.insert(n).second || !tr.val[n].k) continue; if (N[n].op == FCMP) v.push_back(n); for (int a : N[n].a) st.push_back(a); } std::sort(v.begin(), v.end());
            for (int n : v) { u64 a = tr.asF(tr.val[N[n].a[0]]).f, b = tr.asF(tr.val[N[n].a[1]]).f, d = subm(a, b); fprintf(stderr, "  #%d |d|=%016llx %s -> %lld  %s   %s\n", n, (unsigned long long)std::min(d, subm(0, d)), d <= P / 2 ? "+" : "-", tr.val[n].i, expr(n, 3).c_str(), locStr(N[n].loc).c_str()); } }
          std::set<u64> fr, fl; for (int n : order) if (tr.val[n].k == 'F') { if (inR[n]) { fr.insert(tr.val[n].f); fr.insert(subm(0, tr.val[n].f)); } if (inL[n]) { fl.insert(tr.val[n].f); fl.insert(subm(0, tr.val[n].f)); } }
          auto div = [&](std::vector<char> &in, std::set<u64> &other, int root) { std::vector<char> c(N.size(), 0); std::vector<int> st{root}; while (!st.empty()) { int n = st.back(); st.pop_back(); if (c[n]) continue; c[n] = 1; if (N[n].op == SEL && tr.val[N[n].a[0]].k == 'I') { st.push_back(tr.val[N[n].a[0]].i & 1 ? N[n].a[1] : N[n].a[2]); continue; } for (int a : N[n].a) st.push_back(a); }
            std::string r; int cnt = 0; for (int n : order) if (c[n] && in[n] && tr.val[n].k == 'F' && !other.count(tr.val[n].f) && N[n].op != SEL) { bool ok = true; for (int a : N[n].a) if (tr.val[a].k == 'F' && !other.count(tr.val[a].f) && N[a].op != CF) ok = false; if (!ok) continue; if (cnt++ >= 4) break; if (!r.empty()) r += ", "; r += "{\"at\":\"" + esc(locStr(N[n].loc)) + "\",\"op\":\"" + esc(expr(n, 2)) + "\"}"; } return r; };
          detail = ",\"left_only\":[" + div(inL, fr, pairs[failOut].first) + "],\"right_only\":[" + div(inR, fl, pairs[failOut].second) + "],\"left_root\":\"" + esc(locStr(N[pairs[failOut].first].loc)) + "\",\"right_root\":\"" + esc(locStr(N[pairs[failOut].second].loc)) + "\"";
        }
      }
      int nodef = 0; for (size_t i = 0; i + 1 < pairs.size(); i++) if (!defined[i] && pairs[i].first != pairs[i].second) nodef++;
      int undefOut = 0; for (size_t i = 0; i + 1 < pairs.size(); i++) if (N[pairs[i].first].op == UNDEF || N[pairs[i].second].op == UNDEF) undefOut++;
      std::string st = mismatch ? "differ" : (nodef || undefOut || (!allStruct && done < trials / 4)) ? "undecided" : "equal"; if (st == "undecided") { why = undefOut ? "undefined output value" : nodef ? "output never defined" : "too few trials"; }
      printf("{\"law\":\"%s\",\"status\":\"%s\",\"why\":\"%s\",\"outputs\":%zu,\"structural\":%d,\"nodes\":%zu,\"selects\":%d,\"compares\":%d,\"sqrts\":%d,\"algebraic_sqrt\":%d,\"trials\":%d,\"tied\":%d,\"atoms\":%ld,\"retries\":%ld,\"blocks\":%d,\"loops_cut\":%d,\"functions\":[", law.c_str(), st.c_str(), why.c_str(), pairs.size() - 1, structural, order.size(), nsel, ncmp, sq, (int)algSqrt, done, tied, totalAtoms, retries, S1.blocks + S2.blocks, S1.cut + S2.cut);
      bool ff = true; std::set<std::string> fns = S1.fns; fns.insert(S2.fns.begin(), S2.fns.end()); for (auto &f : fns) { printf("%s\"%s\"", ff ? "" : ",", esc(f).c_str()); ff = false; } printf("]");
      if (mismatch) printf(",\"output\":%d%s", failOut + 1 == (int)pairs.size() ? -1 : failOut, detail.c_str()); printf("}"); if (mismatch && rc == 0) rc = 1; if (st == "undecided") rc = 2;
    } catch (Unsupported &u) { printf("{\"law\":\"%s\",\"status\":\"undecided\",\"why\":\"%s\"}", law.c_str(), esc(u.why).c_str()); rc = 2; }
    fflush(stdout);
  }
  printf("\n]\n"); return rc;
}
