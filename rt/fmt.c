// Locale-dependent members and number formatting, defined under the library's own symbol names so that they replace
// the header versions at link time.  Numbers print in decimal when they are constants and as "?" otherwise.
typedef long long ll;
typedef unsigned long long ull;
int sym_is_const(unsigned long);
void *vp_put(void *os, const char *s, long n);
void vp_str(void *r, const char *s, long n);

void vp_cache(void *ios, const void *loc) __asm__("_ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale");
void vp_cache(void *ios, const void *loc) {}
char vp_widen(const void *t, char c) __asm__("_ZNKSt9basic_iosIcSt11char_traitsIcEE5widenEc");
char vp_widen(const void *t, char c) { return c; }
char vp_narrow(const void *t, char c, char d) __asm__("_ZNKSt9basic_iosIcSt11char_traitsIcEE6narrowEcc");
char vp_narrow(const void *t, char c, char d) { return c; }

static int dec(char *b, int neg, ull v)
{
    char t[24];
    int n = 0, k = 0;
    do
    {
        t[n++] = (char)('0' + v % 10);
        v /= 10;
    } while (v);
    if (neg) b[k++] = '-';
    while (n) b[k++] = t[--n];
    b[k] = 0;
    return k;
}
// text mode: every number prints as ?id; and its value is kept
int vp_text = 0, vp_nlog = 0;
struct vp_shown { ull bits; int kind, prec; } vp_log[512]; // kind 0: signed, 1: unsigned, 2: double, 3: other
static int tok(char *b, ull bits, int kind, int prec)
{
    int i = vp_nlog++ & 511, n;
    vp_log[i].bits = bits;
    vp_log[i].kind = kind;
    vp_log[i].prec = prec;
    b[0] = '?';
    n = dec(b + 1, 0, i) + 1;
    b[n++] = ';';
    b[n] = 0;
    return n;
}
static int fmtu(char *b, ull v)
{
    if (vp_text) return tok(b, v, 1, 0);
    if (!sym_is_const(v))
    {
        b[0] = '?';
        b[1] = 0;
        return 1;
    }
    return dec(b, 0, v);
}
static int fmt(char *b, ll v)
{
    if (vp_text) return tok(b, (ull)v, 0, 0);
    if (!sym_is_const((ull)v)) return fmtu(b, (ull)v);
    return v < 0 ? dec(b, 1, 0ull - (ull)v) : dec(b, 0, (ull)v);
}
int vp_base(void *os);
static int fmtx(char *b, ull v, int base)
{
    char t[24];
    int n = 0, k = 0;
    if (vp_text) return tok(b, v, 3, base);
    if (!sym_is_const(v)) return fmtu(b, v);
    do
    {
        t[n++] = "0123456789abcdef"[v % base];
        v /= base;
    } while (v);
    while (n) b[k++] = t[--n];
    b[k] = 0;
    return k;
}
#define INS(N, SYM, T, F) \
    void *N(void *os, T v) __asm__(SYM); \
    void *N(void *os, T v) \
    { \
        char b[32]; \
        int n = vp_base(os) == 10 ? F(b, v) : fmtx(b, sizeof(T) == 8 ? (ull)v : sizeof(T) == 4 ? (unsigned)v : (unsigned short)v, vp_base(os)); \
        return vp_put(os, b, n); \
    }
INS(ins_l, "_ZNSo9_M_insertIlEERSoT_", long, fmt)
INS(ins_x, "_ZNSo9_M_insertIxEERSoT_", ll, fmt)
INS(ins_m, "_ZNSo9_M_insertImEERSoT_", unsigned long, fmtu)
INS(ins_y, "_ZNSo9_M_insertIyEERSoT_", ull, fmtu)
INS(ins_b, "_ZNSo9_M_insertIbEERSoT_", _Bool, fmtu)
INS(ins_i, "_ZNSolsEi", int, fmt)
INS(ins_s, "_ZNSolsEs", short, fmt)
INS(ins_t, "_ZNSo9_M_insertItEERSoT_", unsigned short, fmtu)
#define Q(N, SYM, T) \
    void *N(void *os, T v) __asm__(SYM); \
    void *N(void *os, T v) { return vp_put(os, "?", 1); }
int vp_prec(void *os);
void *ins_d(void *os, double v) __asm__("_ZNSo9_M_insertIdEERSoT_");
void *ins_d(void *os, double v)
{
    char b[32];
    ull u;
    if (!vp_text) return vp_put(os, "?", 1);
    __builtin_memcpy(&u, &v, 8);
    return vp_put(os, b, tok(b, u, 2, vp_prec(os)));
}
Q(ins_e, "_ZNSo9_M_insertIeEERSoT_", double)
Q(ins_p, "_ZNSo9_M_insertIPKvEERSoT_", const void *)
#define TS(N, SYM, T, F) \
    void N(void *r, T v) __asm__(SYM); \
    void N(void *r, T v) \
    { \
        char b[32]; \
        int n = F(b, v); \
        vp_str(r, b, n); \
    }
TS(ts_i, "_ZNSt7__cxx119to_stringEi", int, fmt)
TS(ts_j, "_ZNSt7__cxx119to_stringEj", unsigned, fmtu)
TS(ts_l, "_ZNSt7__cxx119to_stringEl", long, fmt)
TS(ts_m, "_ZNSt7__cxx119to_stringEm", unsigned long, fmtu)
TS(ts_x, "_ZNSt7__cxx119to_stringEx", ll, fmt)
TS(ts_y, "_ZNSt7__cxx119to_stringEy", ull, fmtu)
#define TQ(N, SYM, T) \
    void N(void *r, T v) __asm__(SYM); \
    void N(void *r, T v) { vp_str(r, "?", 1); }
TQ(ts_d, "_ZNSt7__cxx119to_stringEd", double)
TQ(ts_f, "_ZNSt7__cxx119to_stringEf", float)
int strcmp(const char *a, const char *b)
{
    for (;; a++, b++)
    {
        unsigned char x = *a, y = *b;
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
}
int strncmp(const char *a, const char *b, unsigned long n)
{
    for (; n; a++, b++, n--)
    {
        unsigned char x = *a, y = *b;
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
    return 0;
}
char *strncpy(char *d, const char *s, unsigned long n)
{
    unsigned long i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
char *strcpy(char *d, const char *s)
{
    unsigned long i = 0;
    for (; s[i]; i++) d[i] = s[i];
    d[i] = 0;
    return d;
}
unsigned long strnlen(const char *s, unsigned long n)
{
    unsigned long i = 0;
    while (i < n && s[i]) i++;
    return i;
}
void *memchr(const void *p, int c, unsigned long n)
{
    const unsigned char *s = p;
    for (unsigned long i = 0; i < n; i++)
        if (s[i] == (unsigned char)c) return (void *)(s + i);
    return 0;
}

// text to numbers
static int digit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
int *__errno_location(void);
static ull num(const char *s, char **end, int base, int *neg, int *over)
{
    const char *p = s;
    ull v = 0;
    int any = 0;
    *neg = *over = 0;
    while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
    if (*p == '-' || *p == '+') *neg = *p++ == '-';
    if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && digit(p[2]) < 16) p += 2, base = 16;
    else if (base == 0) base = *p == '0' ? 8 : 10;
    for (; digit(*p) < base; p++)
    {
        if (v > (~0ull - digit(*p)) / base) *over = 1;
        v = v * base + digit(*p);
        any = 1;
    }
    if (end) *end = (char *)(any ? p : s);
    return v;
}
ll strtoll(const char *s, char **e, int b)
{
    int neg, over;
    ull v = num(s, e, b, &neg, &over);
    if (over || v > (~0ull >> 1) + neg)
    {
        *__errno_location() = 34;
        return neg ? -1ll - (ll)(~0ull >> 1) : (ll)(~0ull >> 1);
    }
    return neg ? (ll)(0 - v) : (ll)v;
}
ull strtoull(const char *s, char **e, int b)
{
    int neg, over;
    ull v = num(s, e, b, &neg, &over);
    if (over)
    {
        *__errno_location() = 34;
        return ~0ull;
    }
    return neg ? 0 - v : v;
}
long strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
ll __isoc23_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
ull __isoc23_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
int atoi(const char *s) { return (int)strtoll(s, 0, 10); }
// exact for up to 15 digits and small exponents, which is what constants in code look like
double vp_todouble(const char *s, const char **end)
{
    const char *p = s;
    int neg = 0, any = 0, exp = 0, digits = 0;
    ull m = 0;
    while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
    if (*p == '-' || *p == '+') neg = *p++ == '-';
    for (int dot = 0; (*p >= '0' && *p <= '9') || (*p == '.' && !dot); p++)
    {
        if (*p == '.') { dot = 1; continue; }
        any = 1;
        if (digits < 18) m = m * 10 + (*p - '0'), exp -= dot;
        else exp += !dot;
        if (m) digits++;
    }
    if (any && (*p == 'e' || *p == 'E') && (digit(p[1]) < 10 || ((p[1] == '-' || p[1] == '+') && digit(p[2]) < 10)))
    {
        char *e;
        exp += (int)strtoll(p + 1, &e, 10);
        p = e;
    }
    if (end) *end = any ? p : s;
    double v = (double)m, t = 1;
    for (int i = 0; i < (exp < 0 ? -exp : exp) && i < 400; i++) t *= 10;
    v = exp < 0 ? v / t : v * t;
    return neg ? -v : v;
}
double strtod(const char *s, char **e) { return vp_todouble(s, (const char **)e); }
float strtof(const char *s, char **e) { return (float)vp_todouble(s, (const char **)e); }
double atof(const char *s) { return vp_todouble(s, 0); }
// characters
#define IS(N, C) int N(int c) { return C; }
IS(isdigit, c >= '0' && c <= '9')
IS(isupper, c >= 'A' && c <= 'Z')
IS(islower, c >= 'a' && c <= 'z')
IS(isalpha, (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))
IS(isalnum, (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'))
IS(isspace, c == ' ' || (c >= 9 && c <= 13))
IS(isxdigit, (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))
IS(isprint, c >= 32 && c < 127)
IS(isgraph, c > 32 && c < 127)
IS(iscntrl, (c >= 0 && c < 32) || c == 127)
IS(ispunct, c > 32 && c < 127 && !((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')))
IS(tolower, c >= 'A' && c <= 'Z' ? c + 32 : c)
IS(toupper, c >= 'a' && c <= 'z' ? c - 32 : c)
void bzero(void *p, unsigned long n)
{
    char *d = p;
    while (n--) *d++ = 0;
}
char *stpcpy(char *d, const char *s)
{
    while ((*d = *s)) d++, s++;
    return d;
}
double ldexp(double, int);
float ldexpf(float x, int n) { return (float)ldexp(x, n); }
typedef struct { int quot, rem; } vp_div;
typedef struct { long quot, rem; } vp_ldiv;
vp_div div(int a, int b) { vp_div r = {a / b, a % b}; return r; }
vp_ldiv ldiv(long a, long b) { vp_ldiv r = {a / b, a % b}; return r; }
vp_ldiv lldiv(long a, long b) { vp_ldiv r = {a / b, a % b}; return r; }
char *strchr(const char *s, int c)
{
    for (;; s++)
    {
        if (*s == (char)c) return (char *)s;
        if (!*s) return 0;
    }
}
char *strrchr(const char *s, int c)
{
    const char *r = 0;
    for (;; s++)
    {
        if (*s == (char)c) r = s;
        if (!*s) return (char *)r;
    }
}
char *strstr(const char *s, const char *t)
{
    for (;; s++)
    {
        unsigned long i = 0;
        while (t[i] && s[i] == t[i]) i++;
        if (!t[i]) return (char *)s;
        if (!*s) return 0;
    }
}
// one thread
#define OK(N) int N(void *m) { return 0; }
OK(pthread_mutex_lock) OK(pthread_mutex_unlock) OK(pthread_mutex_trylock) OK(pthread_mutex_destroy) OK(pthread_rwlock_rdlock) OK(pthread_rwlock_wrlock)
OK(pthread_rwlock_tryrdlock) OK(pthread_rwlock_trywrlock) OK(pthread_rwlock_unlock) OK(pthread_rwlock_destroy) OK(pthread_cond_signal) OK(pthread_cond_broadcast)
OK(pthread_cond_destroy) OK(pthread_mutexattr_destroy) OK(pthread_mutexattr_init)
int pthread_mutex_init(void *m, const void *a) { return 0; }
int pthread_rwlock_init(void *m, const void *a) { return 0; }
int pthread_mutexattr_settype(void *m, int t) { return 0; }
unsigned long pthread_self(void) { return 1; }
int pthread_once(int *o, void (*f)(void))
{
    if (!*o)
    {
        *o = 2;
        f();
    }
    return 0;
}
void *vp_once_callable __asm__("_ZSt15__once_callable");
void (*vp_once_call)(void) __asm__("_ZSt11__once_call");
void __once_proxy(void) { vp_once_call(); }
// clocks move
static ll ticks;
ll vp_steady(void) __asm__("_ZNSt6chrono3_V212steady_clock3nowEv");
ll vp_steady(void) { return ticks += 86400000000000ll; }
ll vp_system(void) __asm__("_ZNSt6chrono3_V212system_clock3nowEv");
ll vp_system(void) { return 1700000000000000000ll + (ticks += 86400000000000ll); }
long time(long *t)
{
    long v = 1700000000l + (ticks += 86400000000000ll) / 1000000000l;
    if (t) *t = v;
    return v;
}
long clock(void) { return ticks += 1000; }
// numbers
typedef union { double d; ull u; } Bits;
double rint(double);
double trunc(double);
long lrint(double x) { return (long)rint(x); }
ll llrint(double x) { return (ll)rint(x); }
double frexp(double x, int *e)
{
    Bits b = {x};
    int k = (int)(b.u >> 52 & 0x7ff);
    *e = 0;
    if (k == 0x7ff || !(b.u << 1)) return x;
    if (!k)
    {
        b.d = x * 0x1p64;
        *e = -64;
        k = (int)(b.u >> 52 & 0x7ff);
    }
    *e += k - 1022;
    b.u = (b.u & ~(0x7ffull << 52)) | 1022ull << 52;
    return b.d;
}
double modf(double x, double *i)
{
    Bits b = {x};
    *i = trunc(x);
    if ((b.u >> 52 & 0x7ff) == 0x7ff && !(b.u << 12)) return 0 * (b.u >> 63 ? -1.0 : 1.0);
    return x - *i;
}
int ilogb(double x)
{
    int e;
    frexp(x, &e);
    return e - 1;
}
double logb(double x) { return ilogb(x); }
// type_info of the basic types
#define TI(C) extern const void *ti_##C[2] __asm__("_ZTI" #C); const void *ti_##C[2] = {0, #C};
TI(v) TI(b) TI(c) TI(a) TI(h) TI(s) TI(t) TI(i) TI(j) TI(l) TI(m) TI(x) TI(y) TI(f) TI(d) TI(e) TI(PKc) TI(Pc) TI(PKv) TI(Pv)
