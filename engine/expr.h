// Hash-consed bit-vector expressions (width 1..64).
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef unsigned __int128 u128;

enum Op : u8 { E_CONST, E_SYM, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_ITE, E_TABLE,
  E_UMULO, E_SMULO, E_NOPS };

struct Expr;
struct SymSet {
  u64 w[4] = {0,0,0,0};
  bool empty() const { return !(w[0]|w[1]|w[2]|w[3]); }
  bool test(u32 i) const { return w[i>>6]>>(i&63)&1; }
  void set(u32 i) { w[i>>6] |= 1ull<<(i&63); }
  void clear(u32 i) { w[i>>6] &= ~(1ull<<(i&63)); }
  SymSet operator|(const SymSet&o) const { SymSet r; for(int i=0;i<4;i++) r.w[i]=w[i]|o.w[i]; return r; }
  bool intersects(const SymSet&o) const { for(int i=0;i<4;i++) if (w[i]&o.w[i]) return true; return false; }
  bool subset(const SymSet&o) const { for(int i=0;i<4;i++) if (w[i]&~o.w[i]) return false; return true; }
  int count() const { int c=0; for(int i=0;i<4;i++) c+=__builtin_popcountll(w[i]); return c; }
  int first() const { for(int i=0;i<4;i++) if (w[i]) return i*64+__builtin_ctzll(w[i]); return -1; }
  bool operator==(const SymSet&o) const { return !memcmp(w,o.w,sizeof w); }
};
struct Bits256 { u64 w[4]; 
  bool empty() const { return !(w[0]|w[1]|w[2]|w[3]); }
  bool test(u32 i) const { return w[i>>6]>>(i&63)&1; }
  void set(u32 i) { w[i>>6] |= 1ull<<(i&63); }
  Bits256 operator&(const Bits256&o) const { Bits256 r; for(int i=0;i<4;i++) r.w[i]=w[i]&o.w[i]; return r; }
  Bits256 operator~() const { Bits256 r; for(int i=0;i<4;i++) r.w[i]=~w[i]; return r; }
  int first() const { for(int i=0;i<4;i++) if (w[i]) return i*64+__builtin_ctzll(w[i]); return -1; }
  int count() const { int c=0; for(int i=0;i<4;i++) c+=__builtin_popcountll(w[i]); return c; }
};
// Read-only table: value of element k (k < n) is el[k].
struct Table { u32 n; u8 width; std::vector<Expr*> el; std::vector<u64> cel; bool allconst; u64 hash; SymSet syms; };

struct Expr {
  Op op; u8 w; u32 id; u64 val; // val: constant, symbol index, extract low bit
  Expr *a,*b,*c; Table *t;
  SymSet syms;
  u64 hash;
  // eval memo
  u64 ev_epoch=0, ev_val=0; u64*vals=0;
  void *z3=nullptr;
  Bits256 *tab=nullptr; // truth table when width 1 and one symbol of <=8 bits
};
struct SymInfo { std::string name; u8 w; };
extern std::vector<SymInfo> g_syms;         // interned by (name index, width)
extern std::vector<Expr*> g_symexpr;
u32 new_sym(const std::string&name, u8 w);

inline u64 mask(u8 w) { return w>=64? ~0ull : ((1ull<<w)-1); }
inline i64 sext(u64 v, u8 w) { if (w>=64) return (i64)v; u64 m=1ull<<(w-1); v&=mask(w); return (i64)((v^m)-m); }

Expr *mk_const(u64 v, u8 w);
Expr *mk_sym(u32 idx);
Expr *mk_bin(Op op, Expr*a, Expr*b);
Expr *mk_ext(Op op, Expr*a, u8 w);
Expr *mk_extract(Expr*a, u8 lo, u8 w);
Expr *mk_concat(Expr*hi, Expr*lo);
Expr *mk_ite(Expr*c, Expr*a, Expr*b);
Expr *mk_table(Table*t, Expr*idx);
Expr *mk_not(Expr*a);
Table *intern_table(std::vector<Expr*>&el, u8 width);
bool fold_bin(Op op, u8 w, u64 a, u64 b, u64 &r);
inline bool is_c(Expr*e) { return e->op==E_CONST; }
inline bool is_true(Expr*e) { return is_c(e)&&e->val; }
inline bool is_false(Expr*e) { return is_c(e)&&!e->val; }

struct Model { std::vector<u64> v; };
u64 eval(Expr*e, const std::vector<u64>&m);
Bits256 *truth_table(Expr*e); // requires single symbol of width<=8
bool single_narrow(Expr*e, int &sym);
std::string expr_str(Expr*e, int depth=6);
extern u64 g_nexpr;
