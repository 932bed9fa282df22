// Text streams: a stream is a sequence of characters and of whole numbers
// written by operator<<; numbers survive exactly (natively: 17 digits).
#include <string>
extern "C" { void sx_unsupported(const char* m); }
namespace {
enum { CH, DBL, INT };
struct Item { int kind; char c; double d; long i; };
struct Text { Item it[400]; int n, pos; unsigned st; };
Text T;
struct Fake { const long* vptr; long pad[40]; };
const long tab[4] = {16, 0, 0, 0};  // offset of the virtual base at vptr[-3]
Fake out, in;
bool mine(const void* p) { return p == &out || p == &in || p == (const char*)&out + 16 || p == (const char*)&in + 16; }
void put(int k, char c, double d, long i) {
  if (T.n >= 400) { sx_unsupported("stream model full"); return; }
  Item& x = T.it[T.n++]; x.kind = k; x.c = c; x.d = d; x.i = i;
}
bool space(const Item& x) { return x.kind == CH && (x.c == ' ' || x.c == '\n' || x.c == '\t'); }
enum { EOFB = 2, FAILB = 4, BADB = 1 };
bool skip() {
  if (T.st) { T.st |= FAILB; return false; }
  while (T.pos < T.n && space(T.it[T.pos])) ++T.pos;
  if (T.pos == T.n) { T.st |= EOFB | FAILB; return false; }
  return true;
}
// the text of a number in characters: digits, '-', one '.'
bool parse(double& v, bool fraction) {
  double x = 0, q = 1; bool neg = false, dot = false, any = false;
  if (T.it[T.pos].c == '-') { neg = true; ++T.pos; }
  while (T.pos < T.n && T.it[T.pos].kind == CH) {
    char c = T.it[T.pos].c;
    if (c >= '0' && c <= '9') { any = true; if (dot) { q /= 10; x += q * (c - '0'); } else x = 10 * x + (c - '0'); }
    else if (c == '.' && !dot && fraction) dot = true;
    else break;
    ++T.pos;
  }
  v = neg ? -x : x;
  if (T.pos == T.n) T.st |= EOFB;
  else if (T.it[T.pos].kind != CH) any = false;
  if (!any) { v = 0; T.st |= FAILB; }
  return any;
}
void getd(double& v) {
  if (!skip()) return;
  Item& x = T.it[T.pos];
  if (x.kind == CH) { parse(v, true); return; }
  v = x.kind == DBL ? x.d : (double)x.i;
  ++T.pos;
  if (T.pos == T.n) T.st |= EOFB;
  else if (T.it[T.pos].kind != CH) { v = 0; T.st |= FAILB; }  // two numbers run together
}
void geti(int& v) {
  if (!skip()) return;
  Item& x = T.it[T.pos];
  if (x.kind == CH) { double d = 0; parse(d, false); v = (int)d; return; }
  if (x.kind == DBL) { v = 0; T.st |= FAILB; return; }  // a fraction's digits would remain
  v = (int)x.i;
  ++T.pos;
  if (T.pos == T.n) T.st |= EOFB;
  else if (T.it[T.pos].kind != CH) { v = 0; T.st |= FAILB; }
}
void gets(std::string& s) {
  s.clear();
  if (!skip()) return;
  while (T.pos < T.n && !space(T.it[T.pos])) { s.push_back(T.it[T.pos].kind == CH ? T.it[T.pos].c : '#'); ++T.pos; }
  if (T.pos == T.n) T.st |= EOFB;
}
}  // namespace
extern "C" {
void* sx_stream_out() { out.vptr = tab + 3; T.n = T.pos = 0; T.st = 0; return &out; }
void* sx_stream_in() { in.vptr = tab + 3; T.pos = 0; T.st = 0; return &in; }
unsigned sx_stream_rest() { while (T.pos < T.n && space(T.it[T.pos])) ++T.pos; return T.n - T.pos; }
void* m1(void* s, double v) __asm__("_ZNSolsEd");
void* m1(void* s, double v) { if (mine(s)) put(DBL, 0, v, 0); return s; }
void* m1f(void* s, float v) __asm__("_ZNSolsEf");
void* m1f(void* s, float v) { if (mine(s)) put(DBL, 0, v, 0); return s; }
void* m2(void* s, int v) __asm__("_ZNSolsEi");
void* m2(void* s, int v) { if (mine(s)) put(INT, 0, 0, v); return s; }
void* m2u(void* s, unsigned v) __asm__("_ZNSolsEj");
void* m2u(void* s, unsigned v) { if (mine(s)) put(INT, 0, 0, v); return s; }
void* m2l(void* s, long v) __asm__("_ZNSolsEl");
void* m2l(void* s, long v) { if (mine(s)) put(INT, 0, 0, v); return s; }
void* m2m(void* s, unsigned long v) __asm__("_ZNSolsEm");
void* m2m(void* s, unsigned long v) { if (mine(s)) put(INT, 0, 0, (long)v); return s; }
void* m2b(void* s, bool v) __asm__("_ZNSolsEb");
void* m2b(void* s, bool v) { if (mine(s)) put(INT, 0, 0, v); return s; }
void* m3(void* s, const char* v) __asm__("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc");
void* m3(void* s, const char* v) { if (mine(s)) for (; *v; ++v) put(CH, *v, 0, 0); return s; }
void* m3c(void* s, char v) __asm__("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c");
void* m3c(void* s, char v) { if (mine(s)) put(CH, v, 0, 0); return s; }
void* m4(void* s, const std::string& v) __asm__("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE");
void* m4(void* s, const std::string& v) { if (mine(s)) for (size_t i = 0; i < v.size(); ++i) put(CH, v[i], 0, 0); return s; }
void* m4e(void* s) __asm__("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_");
void* m4e(void* s) { if (mine(s)) put(CH, '\n', 0, 0); return s; }
void* m4p(void* s, void* (*f)(void*)) __asm__("_ZNSolsEPFRSoS_E");
void* m4p(void* s, void* (*f)(void*)) { return f(s); }
void* m5(void* s, double* v) __asm__("_ZNSirsERd");
void* m5(void* s, double* v) { getd(*v); return s; }
void* m6(void* s, int* v) __asm__("_ZNSirsERi");
void* m6(void* s, int* v) { geti(*v); return s; }
void* m7(void* s, std::string& v) __asm__("_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
void* m7(void* s, std::string& v) { gets(v); return s; }
bool m8(const void*) __asm__("_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv");
bool m8(const void* p) { return !mine(p) || T.st == 0; }
bool m9(const void*) __asm__("_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv");
bool m9(const void* p) { return mine(p) && (T.st & (FAILB | BADB)); }
bool m10(const void*) __asm__("_ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv");
bool m10(const void* p) { return mine(p) && (T.st & EOFB); }
bool m11(const void*) __asm__("_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv");
bool m11(const void* p) { return !m9(p); }
bool m12(const void*) __asm__("_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv");
bool m12(const void* p) { return m9(p); }
}
