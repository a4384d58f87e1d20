// Hash-consed bit-vector expressions with local simplification, range and known-bit analysis.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <cmath>

typedef uint64_t u64; typedef int64_t s64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;

enum K : u8 { K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
  K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FREM, K_FEQ, K_FLT, K_FLE, K_FUNO, K_FP2SI, K_FP2UI, K_SI2FP, K_UI2FP, K_FPEXT, K_FPTRUNC, K_FSQRT };

struct VarSet { std::vector<u64> b; };
struct Expr {
  u8 k, w; u32 id; u64 c;           // c: constant, var index, extract offset, or source width for conversions
  Expr *a, *b, *d; u64 lo, hi, kz, ko; VarSet* vs; void* z; void* zb; u64 epoch, ev; u32 size; bool fp;
};
struct VarInfo { std::string name; u8 w; u64 lo, hi; Expr* e; };

static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline s64 sx(u64 v, unsigned w) { return w >= 64 ? (s64)v : ((s64)(v << (64 - w)) >> (64 - w)); }

struct EKey { u8 k, w; u64 c; Expr *a, *b, *d;
  bool operator==(const EKey& o) const { return k == o.k && w == o.w && c == o.c && a == o.a && b == o.b && d == o.d; } };
struct EHash { size_t operator()(const EKey& e) const { u64 h = e.k * 0x9e3779b97f4a7c15ull + e.w; auto mix = [&](u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix(e.c); mix((u64)e.a); mix((u64)e.b); mix((u64)e.d); return h; } };

extern std::unordered_map<EKey, Expr*, EHash> g_tab;
extern std::vector<VarInfo> g_vars;
extern std::map<std::vector<u64>, VarSet*> g_vsets;
extern u32 g_nexpr; extern u64 g_epoch;

static inline double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static inline float asF(u64 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
static inline u64 fromD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static inline u64 fromF(float f) { u32 v; memcpy(&v, &f, 4); return v; }

u64 evalOp(u8 k, u8 w, u64 c, u64 a, u64 b, u64 d, u8 wa);
Expr* mkConst(u64 v, unsigned w);
Expr* mk(u8 k, unsigned w, Expr* a, Expr* b = nullptr, Expr* d = nullptr, u64 c = 0); // simplifying
Expr* mkVar(const std::string& name, unsigned w, u64 lo, u64 hi);
Expr* mkExtract(Expr* a, unsigned off, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZExt(Expr* a, unsigned w);
Expr* mkSExt(Expr* a, unsigned w);
Expr* mkNot(Expr* a); Expr* mkRel(Expr* a, u64 base);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
static inline bool isC(Expr* e) { return e->k == K_CONST; }
static inline bool isC(Expr* e, u64 v) { return e->k == K_CONST && e->c == v; }
std::string estr(Expr* e, int depth = 6);
