// Library code the symbolic executor runs in place of libc/libstdc++ binaries.
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <utility>
extern "C" {
void *malloc(size_t); void free(void *);
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
#undef strchr
char *rt_strchr(const char *s, int c) __asm__("strchr"); char *rt_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *rt_strrchr(const char *s, int c) __asm__("strrchr"); char *rt_strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *rt_memchr(const void *p, int c, size_t n) __asm__("memchr"); void *rt_memchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void *)s; return nullptr; }
void *rt_memrchr(const void *p, int c, size_t n) __asm__("memrchr"); void *rt_memrchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; while (n--) if (s[n] == (unsigned char)c) return (void *)(s + n); return nullptr; }
char *rt_strstr(const char *h, const char *n) __asm__("strstr"); char *rt_strstr(const char *h, const char *n) { size_t l = strlen(n); for (; ; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return nullptr; } }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *d = (char *)malloc(n); memcpy(d, s, n); return d; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = lower((unsigned char)*a), y = lower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = lower((unsigned char)*a), y = lower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
int tolower(int c) { return lower(c); } int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; } int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); } int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); } int isalnum(int c) { return isdigit(c) || isalpha(c); } int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); } int isupper(int c) { return c >= 'A' && c <= 'Z'; } int islower(int c) { return c >= 'a' && c <= 'z'; } int isprint(int c) { return c >= 32 && c < 127; } int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); } int iscntrl(int c) { return c < 32 || c == 127; } int isgraph(int c) { return c > 32 && c < 127; }
static unsigned short ctab[384]; static bool ctabInit; static const unsigned short *ctabp; static int ltab[384], utab[384]; static const int *ltp, *utp;
static void ctInit() { if (ctabInit) return; ctabInit = true; for (int i = -128; i < 256; i++) { int c = i < 0 ? i + 256 : i; unsigned short m = 0; if (c < 128) { if (isupper(c)) m |= 1 << 8; if (islower(c)) m |= 1 << 9; if (isalpha(c)) m |= 1 << 10; if (isdigit(c)) m |= 1 << 11; if (isxdigit(c)) m |= 1 << 12; if (isspace(c)) m |= 1 << 13; if (isprint(c)) m |= 1 << 14; if (isgraph(c)) m |= 1 << 15; if (c == ' ' || c == 9) m |= 1; if (iscntrl(c)) m |= 2; if (ispunct(c)) m |= 4; if (isalnum(c)) m |= 8; } ctab[i + 128] = m; ltab[i + 128] = i < 0 ? i : lower(c); utab[i + 128] = i < 0 ? i : toupper(c); } ctabp = ctab + 128; ltp = ltab + 128; utp = utab + 128; }
const unsigned short **__ctype_b_loc(void) { ctInit(); return &ctabp; }
const int **__ctype_tolower_loc(void) { ctInit(); return &ltp; }
const int **__ctype_toupper_loc(void) { ctInit(); return &utp; }
unsigned long strtoul(const char *s, char **e, int b) { const char *p = s; while (isspace(*p)) p++; bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++; if ((b == 0 || b == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit(p[2])) { p += 2; b = 16; } else if (b == 0) b = *p == '0' ? 8 : 10; unsigned long v = 0; bool any = false; for (;; p++) { int d = isdigit(*p) ? *p - '0' : isalpha(*p) ? lower(*p) - 'a' + 10 : 99; if (d >= b) break; v = v * b + d; any = true; } if (e) *e = (char *)(any ? p : s); return neg ? -v : v; }
long strtol(const char *s, char **e, int b) { return (long)strtoul(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); } long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); } unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); } long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); } long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
int atoi(const char *s) { return strtol(s, nullptr, 10); }
static bool sx_indelim(char c, const char *d) { for (; *d; d++) if (*d == c) return true; return false; }
char *strtok_r(char *s, const char *d, char **save) { if (!s) s = *save; while (*s && sx_indelim(*s, d)) s++; if (!*s) { *save = s; return nullptr; } char *t = s; while (*s && !sx_indelim(*s, d)) s++; if (*s) *s++ = 0; *save = s; return t; }
char *__strtok_r(char *s, const char *d, char **save) { return strtok_r(s, d, save); }
void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { char *a = (char *)b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(a + (j - 1) * sz, a + j * sz) > 0; j--) for (size_t k = 0; k < sz; k++) { char t = a[(j - 1) * sz + k]; a[(j - 1) * sz + k] = a[j * sz + k]; a[j * sz + k] = t; } }
void qsort_r(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *, void *), void *pv) { char *a = (char *)b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(a + (j - 1) * sz, a + j * sz, pv) > 0; j--) for (size_t k = 0; k < sz; k++) { char t = a[(j - 1) * sz + k]; a[(j - 1) * sz + k] = a[j * sz + k]; a[j * sz + k] = t; } }
void *bsearch(const void *k, const void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { size_t l = 0; while (l < n) { size_t m = (l + n) / 2; const char *p = (const char *)b + m * sz; int c = cmp(k, p); if (c == 0) return (void *)p; if (c < 0) n = m; else l = m + 1; } return nullptr; }
static unsigned long rs = 12345; int rand(void) { rs = rs * 6364136223846793005ul + 1442695040888963407ul; return (rs >> 33) & 0x7fffffff; } long random(void) { return rand(); } void srand(unsigned s) { rs = s; } void srandom(unsigned s) { rs = s; }
}
extern "C" void *__dso_handle; void *__dso_handle = nullptr;
namespace std {
enum _Rb_tree_color { _S_red = false, _S_black = true };
struct _Rb_tree_node_base { _Rb_tree_color _M_color; _Rb_tree_node_base *_M_parent, *_M_left, *_M_right; };
typedef _Rb_tree_node_base N;
static N *inc(N *x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { N *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static N *dec(N *x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { N *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { N *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
N *_Rb_tree_increment(N *x) throw() { return inc(x); } const N *_Rb_tree_increment(const N *x) throw() { return inc((N *)x); }
N *_Rb_tree_decrement(N *x) throw() { return dec(x); } const N *_Rb_tree_decrement(const N *x) throw() { return dec((N *)x); }
static void rotL(N *const x, N *&root) { N *const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotR(N *const x, N *&root) { N *const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, N *x, N *p, N &h) throw() {
  N *&root = h._M_parent; x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) { N *const g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) { N *const y = g->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotR(g, root); } }
    else { N *const y = g->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotL(g, root); } } }
  root->_M_color = _S_black;
}
N *_Rb_tree_rebalance_for_erase(N *const z, N &h) throw() {
  N *&root = h._M_parent; N *&lm = h._M_left; N *&rm = h._M_right; N *y = z; N *x = nullptr; N *xp = nullptr;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y; if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x; if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { N *t = x; while (t->_M_left) t = t->_M_left; lm = t; } } if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { N *t = x; while (t->_M_right) t = t->_M_right; rm = t; } } }
  if (y->_M_color != _S_red) { while (x != root && (!x || x->_M_color == _S_black)) if (x == xp->_M_left) { N *w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; } if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; } else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; } }
    else { N *w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; } if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; } else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; } }
    if (x) x->_M_color = _S_black; }
  return y;
}
namespace __detail {
struct _List_node_base { _List_node_base *_M_next, *_M_prev; void _M_hook(_List_node_base *p) noexcept; void _M_unhook() noexcept; void _M_transfer(_List_node_base *f, _List_node_base *l) noexcept; void _M_reverse() noexcept; static void swap(_List_node_base &a, _List_node_base &b) noexcept; };
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
struct _Prime_rehash_policy { float _M_max_load_factor; size_t _M_next_resize; size_t _M_next_bkt(size_t n) const; std::pair<bool, size_t> _M_need_rehash(size_t nb, size_t ne, size_t ni) const; };
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t p[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 37, 53, 97, 193, 389, 769, 1543, 3079, 6151, 12289, 24593, 49157, 98317}; auto *self = (_Prime_rehash_policy *)this; for (size_t q : p) if (q >= n) { self->_M_next_resize = q; return q; } self->_M_next_resize = n | 1; return n | 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize) { size_t m = ne + ni; if (_M_next_resize == 0 && m < 11) m = 11; if (m >= nb) return {true, _M_next_bkt(m + 1 > nb * 2 ? m + 1 : nb * 2)}; ((_Prime_rehash_policy *)this)->_M_next_resize = nb; } return {false, 0}; }
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *s = (const unsigned char *)p; size_t h = seed ^ n; for (size_t i = 0; i < n; i++) h = (h ^ s[i]) * 0x100000001b3ul; return h; }
}
