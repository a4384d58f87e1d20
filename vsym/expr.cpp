#include "expr.h"
std::unordered_map<EKey, Expr*, EHash> g_tab;
std::vector<VarInfo> g_vars;
std::map<std::vector<u64>, VarSet*> g_vsets;
u32 g_nexpr = 0; u64 g_epoch = 0;

static VarSet* internVS(std::vector<u64>&& b) {
  while (!b.empty() && !b.back()) b.pop_back();
  if (b.empty()) return nullptr;
  auto it = g_vsets.find(b);
  if (it != g_vsets.end()) return it->second;
  VarSet* v = new VarSet{b}; g_vsets[b] = v; return v;
}
static VarSet* unionVS(VarSet* a, VarSet* b) {
  if (!a || a == b) return b;
  if (!b) return a;
  std::vector<u64> r = a->b; if (r.size() < b->b.size()) r.resize(b->b.size());
  for (size_t i = 0; i < b->b.size(); i++) r[i] |= b->b[i];
  if (r == a->b) return a;
  if (r == b->b) return b;
  return internVS(std::move(r));
}

template <class T> static u64 fpbin(u8 k, T x, T y) {
  switch (k) { case K_FADD: x = x + y; break; case K_FSUB: x = x - y; break; case K_FMUL: x = x * y; break; case K_FDIV: x = x / y; break;
    case K_FREM: x = (T)std::fmod(x, y); break; case K_FSQRT: x = (T)std::sqrt(x); break;
    case K_FEQ: return x == y; case K_FLT: return x < y; case K_FLE: return x <= y; case K_FUNO: return x != x || y != y; }
  if (sizeof(T) == 4) return fromF((float)x); return fromD((double)x);
}

u64 evalOp(u8 k, u8 w, u64 c, u64 a, u64 b, u64 d, u8 wa) {
  u64 m = mask(w);
  switch (k) {
  case K_ADD: return (a + b) & m; case K_SUB: return (a - b) & m; case K_MUL: return (a * b) & m;
  case K_UDIV: return b ? a / b : m; case K_UREM: return b ? a % b : a;
  case K_SDIV: { s64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (u64)x) & m; return (u64)(x / y) & m; }
  case K_SREM: { s64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
  case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
  case K_SHL: return b >= w ? 0 : (a << b) & m; case K_LSHR: return b >= w ? 0 : a >> b;
  case K_ASHR: return (u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
  case K_EQ: return a == b; case K_ULT: return a < b; case K_ULE: return a <= b;
  case K_SLT: return sx(a, wa) < sx(b, wa); case K_SLE: return sx(a, wa) <= sx(b, wa);
  case K_ITE: return a ? b : d;
  case K_EXTRACT: return (a >> c) & m;
  case K_ZEXT: return a; case K_SEXT: return (u64)sx(a, wa) & m;
  case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FREM: case K_FSQRT: case K_FEQ: case K_FLT: case K_FLE: case K_FUNO:
    return wa == 32 ? fpbin<float>(k, asF(a), asF(b)) : fpbin<double>(k, asD(a), asD(b));
  case K_FP2SI: { double x = wa == 32 ? asF(a) : asD(a); double L = std::ldexp(1.0, w - 1);
    if (!(x > -L - 1 && x < L)) return 1ull << (w - 1); return (u64)(s64)x & m; }
  case K_FP2UI: { double x = wa == 32 ? asF(a) : asD(a); double L = std::ldexp(1.0, w);
    if (!(x > -1 && x < L)) return m; return (u64)x & m; }
  case K_SI2FP: return w == 32 ? fromF((float)sx(a, wa)) : fromD((double)sx(a, wa));
  case K_UI2FP: return w == 32 ? fromF((float)a) : fromD((double)a);
  case K_FPEXT: return fromD((double)asF(a)); case K_FPTRUNC: return fromF((float)asD(a));
  }
  fprintf(stderr, "evalOp: bad kind %d\n", k); abort();
}

static void ranges(Expr* e) {
  u64 m = mask(e->w); Expr *a = e->a, *b = e->b;
  e->lo = 0; e->hi = m; e->kz = 0; e->ko = 0;
  switch (e->k) {
  case K_CONST: e->lo = e->hi = e->c; e->kz = ~e->c & m; e->ko = e->c; return;
  case K_VAR: { e->lo = g_vars[e->c].lo; e->hi = g_vars[e->c].hi; break; }
  case K_ADD: { unsigned __int128 l = (unsigned __int128)a->lo + b->lo, h = (unsigned __int128)a->hi + b->hi; if (h <= m) { e->lo = (u64)l; e->hi = (u64)h; } else if (l > m) { e->lo = (u64)l & m; e->hi = (u64)h & m; }
      u64 tz = ~(~a->kz & m); u64 t2 = ~(~b->kz & m); u64 z = tz & t2; unsigned n = 0; while (n < e->w && ((z >> n) & 1)) n++; e->kz |= mask(n) & (n ? ~0ull : 0); if (!n) e->kz = 0; break; }
  case K_SUB: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } else if (a->hi < b->lo) { e->lo = (a->lo - b->hi) & m; e->hi = (a->hi - b->lo) & m; } break;
  case K_MUL: { unsigned __int128 h = (unsigned __int128)a->hi * b->hi; if (h <= m) { e->lo = a->lo * b->lo; e->hi = (u64)h; }
      unsigned n = 0, n2 = 0; while (n < e->w && ((a->kz >> n) & 1)) n++; while (n2 < e->w && ((b->kz >> n2) & 1)) n2++; n += n2; if (n > e->w) n = e->w; if (n) e->kz |= mask(n); break; }
  case K_UDIV: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
  case K_UREM: if (b->lo > 0) { e->hi = std::min(a->hi, b->hi - 1); } break;
  case K_AND: e->kz = a->kz | b->kz; e->ko = a->ko & b->ko; e->hi = std::min(a->hi, b->hi); break;
  case K_OR: e->kz = a->kz & b->kz; e->ko = a->ko | b->ko; e->lo = std::max(a->lo, b->lo); break;
  case K_XOR: e->kz = (a->kz & b->kz) | (a->ko & b->ko); e->ko = (a->kz & b->ko) | (a->ko & b->kz); break;
  case K_LSHR: e->hi = a->hi; if (isC(b) && b->c < e->w) { e->lo = a->lo >> b->c; e->hi = a->hi >> b->c; } break;
  case K_ITE: { Expr* d = e->d; e->lo = std::min(b->lo, d->lo); e->hi = std::max(b->hi, d->hi); e->kz = b->kz & d->kz; e->ko = b->ko & d->ko; break; }
  case K_CONCAT: e->lo = a->lo << b->w | b->lo; e->hi = a->hi << b->w | b->hi; e->kz = a->kz << b->w | b->kz; e->ko = a->ko << b->w | b->ko; break;
  case K_EXTRACT: e->kz = (a->kz >> e->c) & m; e->ko = (a->ko >> e->c) & m; if ((a->hi >> e->c) <= m) { e->hi = a->hi >> e->c; e->lo = a->lo >> e->c; } break;
  case K_ZEXT: e->lo = a->lo; e->hi = a->hi; e->kz = a->kz | (m & ~mask(a->w)); e->ko = a->ko; break;
  case K_SEXT: { u64 s = 1ull << (a->w - 1); if (a->hi < s) { e->lo = a->lo; e->hi = a->hi; e->kz = a->kz | (m & ~mask(a->w)); e->ko = a->ko; }
      else { u64 low = mask(a->w - 1); e->kz = a->kz & low; e->ko = a->ko & low; if (a->lo >= s) { e->ko |= m & ~low; e->lo = (u64)sx(a->lo, a->w) & m; e->hi = (u64)sx(a->hi, a->w) & m; } } break; }
  default: break;
  }
  // cross-derive
  if (e->hi != ~0ull) { unsigned n = 64; while (n > 0 && !((e->hi >> (n - 1)) & 1)) n--; e->kz |= m & ~(n ? mask(n) : 0); }
  e->hi = std::min(e->hi, m & ~e->kz); e->lo = std::max(e->lo, e->ko);
}

static Expr* raw(u8 k, unsigned w, Expr* a, Expr* b, Expr* d, u64 c) {
  EKey key{k, (u8)w, c, a, b, d};
  auto it = g_tab.find(key);
  if (it != g_tab.end()) return it->second;
  Expr* e = new Expr(); e->k = k; e->w = w; e->c = c; e->a = a; e->b = b; e->d = d; e->id = ++g_nexpr; e->z = e->zb = nullptr; e->epoch = 0;
  e->vs = nullptr; e->size = 1;
  if (k == K_VAR) { std::vector<u64> bb(c / 64 + 1); bb[c / 64] = 1ull << (c % 64); e->vs = internVS(std::move(bb)); }
  if (a) { e->vs = unionVS(e->vs, a->vs); e->size += a->size; } if (b) { e->vs = unionVS(e->vs, b->vs); e->size += b->size; } if (d) { e->vs = unionVS(e->vs, d->vs); e->size += d->size; }
  e->fp = (k >= K_FADD) || (a && a->fp) || (b && b->fp) || (d && d->fp);
  if (e->size > 1000000000u) e->size = 1000000000u;
  ranges(e);
  g_tab[key] = e;
  return e;
}
Expr* mkConst(u64 v, unsigned w) { return raw(K_CONST, w, 0, 0, 0, v & mask(w)); }
Expr* mkVar(const std::string& name, unsigned w, u64 lo, u64 hi) {
  u64 idx = g_vars.size(); g_vars.push_back({name, (u8)w, lo, hi, nullptr});
  Expr* e = raw(K_VAR, w, 0, 0, 0, idx); g_vars[idx].e = e; return e;
}
static unsigned nbits(u64 v) { return v ? 64 - __builtin_clzll(v) : 1; }
Expr* mkNot(Expr* a) {
  if (isC(a)) return mkConst(!a->c, 1);
  if (a->k == K_XOR && isC(a->b, 1)) return a->a;
  if (a->k == K_ULT) return mk(K_ULE, 1, a->b, a->a); if (a->k == K_ULE) return mk(K_ULT, 1, a->b, a->a);
  if (a->k == K_SLT) return mk(K_SLE, 1, a->b, a->a); if (a->k == K_SLE) return mk(K_SLT, 1, a->b, a->a);
  return raw(K_XOR, 1, a, mkConst(1, 1), nullptr, 0);
}
Expr* mkZExt(Expr* a, unsigned w) {
  if (w == a->w) return a; if (isC(a)) return mkConst(a->c, w);
  if (a->k == K_ZEXT) return mkZExt(a->a, w);
  return raw(K_ZEXT, w, a, 0, 0, 0);
}
Expr* mkSExt(Expr* a, unsigned w) {
  if (w == a->w) return a; if (isC(a)) return mkConst((u64)sx(a->c, a->w), w);
  if (a->k == K_SEXT) return mkSExt(a->a, w);
  if (a->k == K_ZEXT) return mkZExt(a->a, w);
  if (a->hi < (1ull << (a->w - 1))) return mkZExt(a, w);
  return raw(K_SEXT, w, a, 0, 0, 0);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (w > 64) { fprintf(stderr, "concat too wide %u\n", w); abort(); }
  if (isC(hi) && isC(lo)) return mkConst(hi->c << lo->w | lo->c, w);
  if (isC(hi, 0)) return mkZExt(lo, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return mkExtract(hi->a, lo->c, w);
  if (hi->k == K_CONCAT) { // try to fuse hi's low half with lo
    Expr* t = hi->b; 
    if ((isC(t) && isC(lo)) || (t->k == K_EXTRACT && lo->k == K_EXTRACT && t->a == lo->a && t->c == lo->c + lo->w)) return mkConcat(hi->a, mkConcat(t, lo)); }
  if (lo->k == K_CONCAT) { Expr* t = lo->a;
    if ((isC(t) && isC(hi)) || (t->k == K_EXTRACT && hi->k == K_EXTRACT && t->a == hi->a && hi->c == t->c + t->w)) return mkConcat(mkConcat(hi, t), lo->b); }
  if (hi->k == K_ITE && lo->k == K_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->d, lo->d));
  if (hi->k == K_ZEXT) return mkZExt(mkConcat(hi->a, lo), w);
  // sign-extension pattern: hi is replicated sign of lo
  if (hi->k == K_EXTRACT && hi->a->k == K_SEXT && hi->a->a == lo && hi->c == lo->w) return mkSExt(lo, w);
  // low part is the untruncated low bits of an extension
  if (hi->k == K_EXTRACT && lo->w == hi->c && mkExtract(hi->a, 0, lo->w) == lo) return mkExtract(hi->a, 0, w);
  return raw(K_CONCAT, w, hi, lo, 0, 0);
}
Expr* mkExtract(Expr* a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->c >> off, w);
  u64 km = mask(w); { unsigned nb = nbits(a->hi); if (a->hi && nb > off && nb < off + w) return mkZExt(mkExtract(a, off, nb - off), w); }
  if ((((a->kz | a->ko) >> off) & km) == km) return mkConst(a->ko >> off, w);
  switch (a->k) {
  case K_EXTRACT: return mkExtract(a->a, off + a->c, w);
  case K_CONCAT: { unsigned lw = a->b->w; if (off + w <= lw) return mkExtract(a->b, off, w); if (off >= lw) return mkExtract(a->a, off - lw, w);
      return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off)); }
  case K_ZEXT: if (off + w <= a->a->w) return mkExtract(a->a, off, w); if (off >= a->a->w) return mkConst(0, w); return mkZExt(mkExtract(a->a, off, a->a->w - off), w);
  case K_SEXT: if (off + w <= a->a->w) return mkExtract(a->a, off, w); if (off < a->a->w) return mkSExt(mkExtract(a->a, off, a->a->w - off), w); break;
  case K_ITE: if ((isC(a->b) && isC(a->d)) || w == 1) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->d, off, w));
      if (isC(a->b) || isC(a->d) || a->b->k == K_CONCAT || a->d->k == K_CONCAT || a->b->k == K_ZEXT || a->d->k == K_ZEXT || a->b->k == K_SEXT || a->d->k == K_SEXT) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->d, off, w)); break;
  case K_AND: case K_OR: case K_XOR: if (isC(a->b) || w == 1 || a->a->k == K_CONCAT || a->b->k == K_CONCAT || a->a->k == K_ZEXT || a->b->k == K_ZEXT) return mk(a->k, w, mkExtract(a->a, off, w), mkExtract(a->b, off, w)); break;
  case K_ADD: case K_SUB: case K_MUL:
      if (off == 0 && w >= 32) return mk(a->k, w, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      if (off == 0 && (a->a->k == K_ZEXT || a->a->k == K_SEXT) && a->a->a->w <= w && (isC(a->b) || ((a->b->k == K_ZEXT || a->b->k == K_SEXT) && a->b->a->w <= w)))
        return mk(a->k, w, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
  case K_SHL: break;
  default: break;
  }
  return raw(K_EXTRACT, w, a, 0, 0, off);
}
Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->k == K_XOR && isC(c->b, 1)) return mkIte(c->a, b, a);
  unsigned w = a->w;
  if (w == 1) {
    if (isC(a, 1) && isC(b, 0)) return c; if (isC(a, 0) && isC(b, 1)) return mkNot(c);
    if (isC(a, 1)) return mk(K_OR, 1, c, b); if (isC(b, 0)) return mk(K_AND, 1, c, a);
    if (isC(a, 0)) return mk(K_AND, 1, mkNot(c), b); if (isC(b, 1)) return mk(K_OR, 1, mkNot(c), a);
  } else if (isC(a, 1) && isC(b, 0)) return mkZExt(c, w);
  else if (isC(a, 0) && isC(b, 1)) return mkZExt(mkNot(c), w);
  if (a->k == K_ITE && a->a == c) a = a->b;
  if (b->k == K_ITE && b->a == c) b = b->d;
  if (a == b) return a;
  if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZExt(mkIte(c, a->a, b->a), w);
  return raw(K_ITE, w, c, a, b, 0);
}
static Expr* narrow(u8 k, unsigned w, Expr* a, Expr* b) { // the exact result fits in fewer bits: compute it there
  u64 m = mask(w); unsigned __int128 h; unsigned n;
  if (k == K_ADD) { h = (unsigned __int128)a->hi + b->hi; if (h > m) { if ((unsigned __int128)a->lo + b->lo <= m) return nullptr; Expr* t = a->k == K_ZEXT ? a->a : a; if (t->k == K_MUL || t->k == K_ADD || t->k == K_SUB) return nullptr; h &= m; } }
  else { h = (unsigned __int128)a->hi * b->hi; if (h > m) return nullptr; }
  n = nbits((u64)h); if (n + 1 > w) return nullptr;
  return mkZExt(mk(k, n, mkExtract(a, 0, n), mkExtract(b, 0, n)), w); }
// linear forms modulo 2^w: sum of coef * atom + k
struct Lin { std::vector<std::pair<Expr*, u64>> t; u64 k = 0; int budget = 96; };
static void linAdd(Lin& L, Expr* e, u64 c, unsigned w) { for (auto& p : L.t) if (p.first == e) { p.second = (p.second + c) & mask(w); return; } L.t.push_back({e, c & mask(w)}); }
static void linGo(Lin& L, Expr* e, u64 c, unsigned w) {   // e->w <= w, contributes c * zext(e)
  if (--L.budget < 0) { linAdd(L, mkZExt(e, w), c, w); return; }
  bool full = e->w == w; u64 m = mask(e->w);
  switch (e->k) {
  case K_CONST: L.k += c * e->c; return;
  case K_ADD: if (!full && isC(e->b) && e->b->c && e->a->lo >= ((0 - e->b->c) & m)) { linGo(L, e->a, c, w); L.k -= c * ((0 - e->b->c) & m); return; }
    if (full || (unsigned __int128)e->a->hi + e->b->hi <= m) { linGo(L, e->a, c, w); linGo(L, e->b, c, w); return; } break;
  case K_OR: if (!(~e->a->kz & ~e->b->kz & m)) { linGo(L, e->a, c, w); linGo(L, e->b, c, w); return; } break;
  case K_SUB: if (full || e->a->lo >= e->b->hi) { linGo(L, e->a, c, w); linGo(L, e->b, 0 - c, w); return; } break;
  case K_MUL: if (isC(e->b) && (full || (unsigned __int128)e->a->hi * e->b->c <= m)) { linGo(L, e->a, c * e->b->c, w); return; } break;
  case K_ZEXT: linGo(L, e->a, c, w); return;
  case K_CONCAT: linGo(L, e->b, c, w); if (e->b->w < 64) linGo(L, e->a, c << e->b->w, w); return;
  default: break;
  }
  linAdd(L, mkZExt(e, w), c, w);
}
static void linFin(Lin& L, unsigned w) { L.k &= mask(w); size_t j = 0; for (auto& p : L.t) if (p.second) L.t[j++] = p; L.t.resize(j); std::sort(L.t.begin(), L.t.end(), [](const std::pair<Expr*, u64>& x, const std::pair<Expr*, u64>& y) { return x.first->id < y.first->id; }); }
static bool linCand(Expr* e) { for (;;) { if (e->k == K_ZEXT) e = e->a; else return e->k == K_ADD || e->k == K_SUB || e->k == K_MUL || e->k == K_CONCAT || e->k == K_OR; } }
static Expr* linBuild(Lin& L, unsigned w) { Expr* r = nullptr; // sums the positive terms, then subtracts the negative ones
  for (auto& p : L.t) if (!(p.second >> (w - 1))) { Expr* x = mk(K_MUL, w, p.first, mkConst(p.second, w)); r = r ? mk(K_ADD, w, r, x) : x; }
  if (L.k) { r = r ? mk(K_ADD, w, r, mkConst(L.k, w)) : mkConst(L.k, w); }
  for (auto& p : L.t) if (p.second >> (w - 1)) { Expr* x = mk(K_MUL, w, p.first, mkConst(0 - p.second, w)); r = mk(K_SUB, w, r ? r : mkConst(0, w), x); }
  return r ? r : mkConst(0, w); }
static int g_lin = 0;
struct LinGuard { LinGuard() { g_lin++; } ~LinGuard() { g_lin--; } };
static u64 inv(u64 a) { u64 x = a; for (int i = 0; i < 6; i++) x *= 2 - a * x; return x; }
static Expr* linEq(Expr* a, Expr* b) { if (g_lin > 2 || a->w < 8 || !(linCand(a) && (linCand(b) || b->k != K_CONST))) return nullptr; LinGuard g; unsigned w = a->w; Lin L; linGo(L, a, 1, w); size_t n1 = L.t.size(); linGo(L, b, ~0ull, w); (void)n1; linFin(L, w); if (L.budget < 0) return nullptr;
  if (L.t.empty()) return mkConst(L.k == 0, 1);
  if (L.t.size() == 1 && (L.t[0].second & 1)) { Expr* t = L.t[0].first; if (t == a || t == b) return nullptr; return mk(K_EQ, 1, t, mkConst((0 - L.k) * inv(L.t[0].second), w)); }
  return nullptr; }
static Expr* linSub(Expr* a, Expr* b) { if (g_lin > 2 || a->w < 8 || !(linCand(a) || linCand(b))) return nullptr; LinGuard g; unsigned w = a->w; Lin A, B, L; linGo(A, a, 1, w); linGo(B, b, 1, w); if (A.budget < 0 || B.budget < 0) return nullptr; linFin(A, w); linFin(B, w); L = A; for (auto& p : B.t) linAdd(L, p.first, 0 - p.second, w); L.k = A.k - B.k; linFin(L, w);
  if (L.t.size() < A.t.size() || L.t.size() < B.t.size() || L.t.empty()) { if (L.t.size() + 1 < A.t.size() + B.t.size() && L.t.size() <= 4) return linBuild(L, w); }
  return nullptr; }
static bool negMul(Expr* e, int d) { while (e->k == K_ZEXT) e = e->a; if (e->k == K_MUL) return isC(e->b) && (e->b->c >> (e->w - 1)); if (e->k == K_ADD && d) return negMul(e->a, d - 1) || negMul(e->b, d - 1); return e->k == K_SUB; }
static Expr* linSum(Expr* a, Expr* b) { if (g_lin > 2 || a->w < 8 || !(negMul(a, 3) || negMul(b, 3))) return nullptr; LinGuard g; unsigned w = a->w; Lin A, B, L; linGo(A, a, 1, w); linGo(B, b, 1, w); if (A.budget < 0 || B.budget < 0) return nullptr; linFin(A, w); linFin(B, w); L = A; for (auto& p : B.t) linAdd(L, p.first, p.second, w); L.k = A.k + B.k; linFin(L, w);
  if (L.t.size() < A.t.size() + B.t.size() && (L.t.size() < A.t.size() || L.t.size() < B.t.size() || L.t.size() <= 1)) return linBuild(L, w); return nullptr; }
static Expr* linDiv(Expr* a, u64 c, bool rem) { if (g_lin > 2 || a->w < 8 || !linCand(a) || c < 2) return nullptr; LinGuard g; unsigned w = a->w; Lin L; linGo(L, a, 1, w); if (L.budget < 0) return nullptr; linFin(L, w); unsigned __int128 tot = L.k; Lin q, r; unsigned __int128 rm = L.k % c;
  for (auto& p : L.t) { if (p.second >> (w - 1)) return nullptr; tot += (unsigned __int128)p.second * p.first->hi; if (tot > mask(w)) return nullptr; if (p.second % c == 0) q.t.push_back({p.first, p.second / c}); else { r.t.push_back(p); rm += (unsigned __int128)p.second * p.first->hi; } }
  if (q.t.empty() || rm >= c) return nullptr; q.k = L.k / c; r.k = L.k % c; return linBuild(rem ? r : q, w); }
static bool contig(u64 c, unsigned& lo, unsigned& len) { if (!c) return false; lo = __builtin_ctzll(c); u64 t = c >> lo; if (t & (t + 1)) return false; len = 64 - __builtin_clzll(t); return true; }

static Expr* cmp2(u8 k, Expr* a, Expr* b) { return mk(k, 1, a, b, nullptr, 0); }
static Expr* cmp(u8 k, Expr* a, Expr* b) {
  unsigned w = a->w; u64 sb = 1ull << (w - 1);
  if (k == K_EQ) {
    if (a == b) return mkConst(1, 1);
    if (isC(a)) std::swap(a, b);
    if (a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1);
    if ((a->kz & b->ko) || (a->ko & b->kz)) return mkConst(0, 1);
    if (w == 1) { if (isC(b)) return b->c ? a : mkNot(a); }
    if (isC(b)) {
      u64 v = b->c;
      switch (a->k) {
      case K_ZEXT: return v > mask(a->a->w) ? mkConst(0, 1) : cmp(K_EQ, a->a, mkConst(v, a->a->w));
      case K_SEXT: { u64 t = v & mask(a->a->w); if (((u64)sx(t, a->a->w) & mask(w)) != v) return mkConst(0, 1); return cmp(K_EQ, a->a, mkConst(t, a->a->w)); }
      case K_CONCAT: return mk(K_AND, 1, cmp(K_EQ, a->a, mkConst(v >> a->b->w, a->a->w)), cmp(K_EQ, a->b, mkConst(v, a->b->w)));
      case K_ADD: if (isC(a->b)) return cmp(K_EQ, a->a, mkConst(v - a->b->c, w)); break;
      case K_UDIV: if (v == 0 && isC(a->b) && a->b->c) return cmp(K_ULT, a->a, a->b); break;
      case K_XOR: if (isC(a->b)) return cmp(K_EQ, a->a, mkConst(v ^ a->b->c, w)); break;
      case K_SUB: if (v == 0) return cmp(K_EQ, a->a, a->b); if (isC(a->a)) return cmp(K_EQ, a->b, mkConst(a->a->c - v, w)); break;
      case K_ITE: { if (isC(a->b) || isC(a->d)) { Expr* x = cmp(K_EQ, a->b, b); Expr* y = cmp(K_EQ, a->d, b); if (isC(x) || isC(y)) return mkIte(a->a, x, y); } break; }
      default: break;
      }
    } else {
      // x * C / C == x exactly when the product does not wrap
      for (int q = 0; q < 2; q++) { Expr* u = q ? b : a; Expr* x = q ? a : b; if (u->k == K_UDIV && isC(u->b) && u->b->c && mk(K_MUL, w, x, u->b) == u->a) return mk(K_ULE, 1, x, mkConst(mask(w) / u->b->c, w));
        if (u->k == K_LSHR && isC(u->b) && u->b->c < w && mk(K_MUL, w, x, mkConst(1ull << u->b->c, w)) == u->a) return mk(K_ULE, 1, x, mkConst(mask(w) >> u->b->c, w)); }
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return cmp(K_EQ, a->a, b->a);
      if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return cmp(K_EQ, a->a, b->a);
      if (a->k == K_ADD && b->k == K_ADD) { if (a->a == b->a) return cmp(K_EQ, a->b, b->b); if (a->b == b->b) return cmp(K_EQ, a->a, b->a); }
      if (a->k == K_ADD && a->a == b) return cmp(K_EQ, a->b, mkConst(0, w));
      if (b->k == K_ADD && b->a == a) return cmp(K_EQ, b->b, mkConst(0, w));
      for (int t = 0; t < 2; t++, std::swap(a, b)) if (b->k == K_ZEXT && b->a->k == K_EXTRACT && b->a->a == a && b->a->c == 0 && a->hi <= mask(b->a->w)) return mkConst(1, 1);
      if (Expr* r = linEq(a, b)) return r;
      if (a->id > b->id) std::swap(a, b);
    }
    return raw(K_EQ, 1, a, b, 0, 0);
  }
  if (a->k == K_ITE && isC(b) && (isC(a->b) || isC(a->d))) { Expr* x = cmp2(k, a->b, b); Expr* y = cmp2(k, a->d, b); if (isC(x) || isC(y)) return mkIte(a->a, x, y); }
  if (b->k == K_ITE && isC(a) && (isC(b->b) || isC(b->d))) { Expr* x = cmp2(k, a, b->b); Expr* y = cmp2(k, a, b->d); if (isC(x) || isC(y)) return mkIte(b->a, x, y); }
  bool sg = (k == K_SLT || k == K_SLE);
  if (a == b) return mkConst(k == K_ULE || k == K_SLE, 1);
  if (sg) {
    // sign of each side if known
    int sa = a->hi < sb ? 0 : a->lo >= sb ? 1 : -1, s2 = b->hi < sb ? 0 : b->lo >= sb ? 1 : -1;
    if (sa >= 0 && s2 >= 0) { if (sa != s2) return mkConst(sa == 1, 1); k = k == K_SLT ? K_ULT : K_ULE; sg = false; }
    else {
      if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return cmp(k, a->a, b->a);
      if (a->k == K_SEXT && isC(b)) { unsigned n = a->a->w; s64 v = sx(b->c, w), mx = (s64)mask(n - 1), mn = -mx - 1;
        if (v > mx) return mkConst(1, 1); if (v < mn) return mkConst(0, 1); return cmp(k, a->a, mkConst((u64)v, n)); }
      if (b->k == K_SEXT && isC(a)) { unsigned n = b->a->w; s64 v = sx(a->c, w), mx = (s64)mask(n - 1), mn = -mx - 1;
        if (v > mx) return mkConst(0, 1); if (v < mn) return mkConst(1, 1); return cmp(k, mkConst((u64)v, n), b->a); }
      return raw(k, 1, a, b, 0, 0);
    }
  }
  if (k == K_ULT) { if (a->hi < b->lo) return mkConst(1, 1); if (a->lo >= b->hi) return mkConst(0, 1); }
  else { if (a->hi <= b->lo) return mkConst(1, 1); if (a->lo > b->hi) return mkConst(0, 1); }
  if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return cmp(k, a->a, b->a);
  if (a->k == K_ZEXT && isC(b)) { if (b->c > mask(a->a->w)) return mkConst(1, 1); return cmp(k, a->a, mkConst(b->c, a->a->w)); }
  if (b->k == K_ZEXT && isC(a)) { if (a->c > mask(b->a->w)) return mkConst(0, 1); return cmp(k, mkConst(a->c, b->a->w), b->a); }
  if (isC(b) && a->k == K_UDIV && isC(a->b) && a->b->c) { unsigned __int128 p = ((unsigned __int128)b->c + (k == K_ULE)) * a->b->c; if (p <= mask(w)) return cmp(K_ULT, a->a, mkConst((u64)p, w)); return mkConst(1, 1); }
  if (isC(a) && b->k == K_UDIV && isC(b->b) && b->b->c) { unsigned __int128 p = ((unsigned __int128)a->c + (k == K_ULT)) * b->b->c; if (p <= mask(w)) return cmp(K_ULE, mkConst((u64)p, w), b->a); return mkConst(0, 1); }
  if (k == K_ULT && isC(b) && b->c == 1) return cmp(K_EQ, a, mkConst(0, w));
  if (k == K_ULT && isC(a, 0)) return mkNot(cmp(K_EQ, b, a));
  if (k == K_ULE && isC(b, 0)) return cmp(K_EQ, a, b);
  return raw(k, 1, a, b, 0, 0);
}

Expr* mk(u8 k, unsigned w, Expr* a, Expr* b, Expr* d, u64 c) {
  if ((k == K_FADD || k == K_FMUL || k == K_FEQ || k == K_FUNO) && b->id < a->id) std::swap(a, b);
  switch (k) {
  case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE:
    if (isC(a) && isC(b)) return mkConst(evalOp(k, 1, 0, a->c, b->c, 0, a->w), 1);
    return cmp(k, a, b);
  case K_ITE: return mkIte(a, b, d); case K_CONCAT: return mkConcat(a, b); case K_EXTRACT: return mkExtract(a, c, w);
  case K_ZEXT: return mkZExt(a, w); case K_SEXT: return mkSExt(a, w);
  }
  if (isC(a) && (!b || isC(b))) return mkConst(evalOp(k, w, c, a->c, b ? b->c : 0, 0, a->w), w);
  switch (k) {
  case K_ADD: case K_MUL: case K_AND: case K_OR: case K_XOR:
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    break;
  }
  u64 m = mask(w);
  if (w == 1 && (k == K_AND || k == K_OR)) for (int q = 0; q < 2; q++) { Expr *x = q ? b : a, *y = q ? a : b;
    if (k == K_OR && x->k == K_FEQ && y->k == K_FLT && ((x->a == y->a && x->b == y->b) || (x->a == y->b && x->b == y->a))) return raw(K_FLE, 1, y->a, y->b, 0, 0);
    if (k == K_AND && x->k == K_FEQ && y->k == K_XOR && isC(y->b, 1) && y->a->k == K_FLT && ((x->a == y->a->a && x->b == y->a->b) || (x->a == y->a->b && x->b == y->a->a))) return x; }
  switch (k) {
  case K_ADD:
    if (isC(b, 0)) return a;
    if (isC(b) && a->k == K_ADD && isC(a->b)) return mk(K_ADD, w, a->a, mkConst(a->b->c + b->c, w));
    if (isC(b) && (b->c >> (w - 1)) && w > 4) { Expr* t = a->k == K_ZEXT ? a->a : a; u64 nb = (0 - b->c) & m; // sink a negative constant into the operand that absorbs it
      if (t->k == K_ADD && !isC(t->b) && (t != a || 1)) { if (t->a->hi <= mask(t->w) - t->b->hi || t == a) { if (t->b->lo >= nb) { Expr* y = mk(K_ADD, w, mkZExt(t->b, w), b); if (!(y->k == K_ADD && isC(y->b))) return mk(K_ADD, w, mkZExt(t->a, w), y); } if (t->a->lo >= nb) { Expr* y = mk(K_ADD, w, mkZExt(t->a, w), b); if (!(y->k == K_ADD && isC(y->b))) return mk(K_ADD, w, mkZExt(t->b, w), y); } } } }
    if (isC(b) && a->k == K_SUB && isC(a->a)) return mk(K_SUB, w, mkConst(a->a->c + b->c, w), a->b);
    if (!isC(b)) {
      if (a->k == K_ADD && isC(a->b)) return mk(K_ADD, w, mk(K_ADD, w, a->a, b), a->b);
      if (b->k == K_ADD && isC(b->b)) return mk(K_ADD, w, mk(K_ADD, w, a, b->a), b->b);
      if (a->k == K_SUB && a->b == b) return a->a; if (b->k == K_SUB && b->b == a) return b->a;
      if (((~a->kz) & (~b->kz) & m) == 0) return mk(K_OR, w, a, b);
    } else if ((b->c & ~a->kz & m) == 0) return mk(K_OR, w, a, b);
    if (w == 1) return mk(K_XOR, 1, a, b);
    if (!isC(b)) if (Expr* r = linSum(a, b)) return r;
    if (Expr* r = narrow(K_ADD, w, a, b)) return r;
    break;
  case K_SUB:
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mk(K_ADD, w, a, mkConst(0 - b->c, w));
    if (a->k == K_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; if (isC(a->b)) return mk(K_ADD, w, mk(K_SUB, w, a->a, b), a->b); }
    if (b->k == K_ADD && isC(b->b)) return mk(K_ADD, w, mk(K_SUB, w, a, b->a), mkConst(0 - b->b->c, w));
    if (isC(a) && b->k == K_SUB && isC(b->a)) return mk(K_ADD, w, b->b, mkConst(a->c - b->a->c, w));
    if (Expr* r = linSub(a, b)) return r;
    break;
  case K_MUL:
    if (isC(b, 0)) return b; if (isC(b, 1)) return a; if (isC(b, m)) return mk(K_SUB, w, mkConst(0, w), a);
    if (isC(b) && !(b->c & (b->c - 1))) return mk(K_SHL, w, a, mkConst(__builtin_ctzll(b->c), w));
    if (isC(b) && a->k == K_MUL && isC(a->b)) return mk(K_MUL, w, a->a, mkConst(a->b->c * b->c, w));
    if (Expr* r = narrow(K_MUL, w, a, b)) return r;
    break;
  case K_UDIV: if (isC(b, 1)) return a; if (isC(b) && b->c && !(b->c & (b->c - 1))) return mk(K_LSHR, w, a, mkConst(__builtin_ctzll(b->c), w)); 
    if (isC(b) && a->k == K_UDIV && isC(a->b) && b->c && a->b->c && (unsigned __int128)a->b->c * b->c <= m) return mk(K_UDIV, w, a->a, mkConst(a->b->c * b->c, w));
    if (isC(b) && a->k == K_ZEXT && a->a->k == K_UDIV && isC(a->a->b) && b->c && a->a->b->c && (unsigned __int128)a->a->b->c * b->c <= mask(a->a->w)) return mkZExt(mk(K_UDIV, a->a->w, a->a->a, mkConst(a->a->b->c * b->c, a->a->w)), w);
    if (isC(b)) { if (a->hi < b->c && b->c) return mkConst(0, w); if (Expr* r = linDiv(a, b->c, false)) return r; }
    { unsigned n = nbits(a->hi | b->hi); if (n < w && b->lo) return mkZExt(mk(K_UDIV, n, mkExtract(a, 0, n), mkExtract(b, 0, n)), w); }
    if (a->k == K_ZEXT && b->hi <= mask(a->a->w)) return mkZExt(mk(K_UDIV, a->a->w, a->a, mkExtract(b, 0, a->a->w)), w) ; break;
  case K_UREM: if (isC(b, 1)) return mkConst(0, w); if (isC(b) && b->c && !(b->c & (b->c - 1))) return mk(K_AND, w, a, mkConst(b->c - 1, w));
    if (b->lo > a->hi) return a;
    if (isC(b)) if (Expr* r = linDiv(a, b->c, true)) return r;
    { unsigned n = nbits(a->hi | b->hi); if (n < w && b->lo) return mkZExt(mk(K_UREM, n, mkExtract(a, 0, n), mkExtract(b, 0, n)), w); }
    if (a->k == K_ZEXT && b->hi <= mask(a->a->w)) return mkZExt(mk(K_UREM, a->a->w, a->a, mkExtract(b, 0, a->a->w)), w); break;
  case K_SDIV: if (isC(b, 1)) return a; { u64 sb = 1ull << (w - 1); if (a->hi < sb && b->hi < sb) return mk(K_UDIV, w, a, b); } break;
  case K_SREM: { u64 sb = 1ull << (w - 1); if (a->hi < sb && b->hi < sb) return mk(K_UREM, w, a, b); } break;
  case K_AND:
    if (a == b) return a; if (isC(b, 0)) return b; if (isC(b, m)) return a;
    if (w == 1 && (a == mkNot(b))) return mkConst(0, 1);
    if (isC(b)) {
      if ((b->c | a->kz) == m) return a;            // mask keeps everything that can be set
      if (a->k == K_AND && isC(a->b)) return mk(K_AND, w, a->a, mkConst(a->b->c & b->c, w));
      unsigned lo, len; u64 cc = b->c & ~a->kz; 
      if (!cc) return mkConst(0, w);
      if (contig(b->c, lo, len) || contig(cc, lo, len)) { Expr* r = mkExtract(a, lo, len); if (lo) r = mkConcat(r, mkConst(0, lo)); return mkZExt(r, w); }
      if (a->k == K_CONCAT) return mkConcat(mk(K_AND, a->a->w, a->a, mkConst(b->c >> a->b->w, a->a->w)), mk(K_AND, a->b->w, a->b, mkConst(b->c, a->b->w)));
      if (a->k == K_ZEXT) return mkZExt(mk(K_AND, a->a->w, a->a, mkConst(b->c, a->a->w)), w);
    }
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZExt(mk(K_AND, a->a->w, a->a, b->a), w);
    if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return mkConcat(mk(K_AND, a->a->w, a->a, b->a), mk(K_AND, a->b->w, a->b, b->b));
    break;
  case K_OR:
    if (a == b) return a; if (isC(b, 0)) return a; if (isC(b, m)) return b;
    if (w == 1 && (a == mkNot(b))) return mkConst(1, 1);
    if (isC(b) && a->k == K_OR && isC(a->b)) return mk(K_OR, w, a->a, mkConst(a->b->c | b->c, w));
    { // split at a boundary where one operand has a constant half
      Expr *x = a, *y = b;
      for (int t = 0; t < 2; t++, std::swap(x, y)) {
        if (x->k == K_CONCAT) { unsigned lw = x->b->w; 
          bool xl0 = isC(x->b), yh0 = ((y->kz >> lw) == mask(w - lw)) , yl0 = ((y->kz & mask(lw)) == mask(lw));
          if (xl0 || yh0 || yl0 || (y->k == K_CONCAT && y->b->w == lw)) return mkConcat(mk(K_OR, w - lw, x->a, mkExtract(y, lw, w - lw)), mk(K_OR, lw, x->b, mkExtract(y, 0, lw))); }
        if (x->k == K_ZEXT) { unsigned lw = x->a->w; bool yl0 = ((y->kz & mask(lw)) == mask(lw)); bool yh0 = ((y->kz >> lw) == mask(w - lw));
          if (yh0) return mkZExt(mk(K_OR, lw, x->a, mkExtract(y, 0, lw)), w);
          if (yl0) return mkConcat(mkExtract(y, lw, w - lw), x->a);
          if (isC(y)) return mkConcat(mkExtract(y, lw, w - lw), mk(K_OR, lw, x->a, mkExtract(y, 0, lw))); }
      }
    }
    break;
  case K_XOR:
    if (a == b) return mkConst(0, w); if (isC(b, 0)) return a; if (w == 1 && isC(b, 1)) return mkNot(a);
    if (isC(b) && a->k == K_XOR && isC(a->b)) return mk(K_XOR, w, a->a, mkConst(a->b->c ^ b->c, w));
    if (a->k == K_ZEXT && isC(b) && b->c <= mask(a->a->w)) return mkZExt(mk(K_XOR, a->a->w, a->a, mkConst(b->c, a->a->w)), w);
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZExt(mk(K_XOR, a->a->w, a->a, b->a), w);
    break;
  case K_SHL: case K_LSHR: case K_ASHR:
    if (isC(b)) {
      u64 n = b->c; if (n == 0) return a;
      if (n >= w) { if (k != K_ASHR) return mkConst(0, w); n = w - 1; }
      if (k == K_SHL) return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n));
      if (k == K_LSHR) return mkZExt(mkExtract(a, n, w - n), w);
      return mkSExt(mkExtract(a, n, w - n), w);
    }
    if (isC(a, 0)) return a;
    if (k == K_ASHR && a->hi < (1ull << (w - 1))) return mk(K_LSHR, w, a, b);
    break;
  }
  return raw(k, w, a, b, d, c);
}

// a - base, through the linear form (base is a lower bound of a)
Expr* mkRel(Expr* a, u64 base) { unsigned w = a->w; Lin L; linGo(L, a, 1, w); L.k -= base; linFin(L, w); if (L.budget >= 0) { bool ok = true; for (auto& p : L.t) if (p.second >> (w - 1)) ok = false; if (ok && !(L.k >> (w - 1))) return linBuild(L, w); } return mk(K_ADD, w, a, mkConst(0 - base, w)); }
static const char* kn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","frem","feq","flt","fle","funo","fp2si","fp2ui","si2fp","ui2fp","fpext","fptrunc","fsqrt"};
std::string estr(Expr* e, int depth) {
  char buf[64];
  if (e->k == K_CONST) { snprintf(buf, sizeof buf, "0x%llx:%d", (unsigned long long)e->c, e->w); return buf; }
  if (e->k == K_VAR) return g_vars[e->c].name;
  if (!depth) return "...";
  std::string r = "("; r += kn[e->k]; snprintf(buf, sizeof buf, ":%d", e->w); r += buf;
  if (e->k == K_EXTRACT) { snprintf(buf, sizeof buf, "@%d", (int)e->c); r += buf; }
  for (Expr* x : {e->a, e->b, e->d}) if (x) r += " " + estr(x, depth - 1);
  return r + ")";
}
