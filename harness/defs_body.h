/* Included twice by h_defs.c: once with each definition of OFFSETOF. */

#define VERSION_MAJOR   5
#define VERSION_MINOR   3
#define A_NAME          some_name
#define INDIRECT        A_NAME

/* min/max of a type, written out plainly. */
#define ARITH(T, NAME, GEN, FMT)                                              \
static T FN(NAME##_min)(T a, T b) { if(a < b) return a; return b; }           \
static T FN(NAME##_max)(T a, T b) { if(a > b) return a; return b; }           \
static void                                                                   \
FN(NAME##_check)(void)                                                        \
{                                                                             \
    T a = (T) GEN, b = (T) GEN, c = (T) GEN, d;                               \
    T mn = FN(NAME##_min)(a, b), mx = FN(NAME##_max)(a, b);                   \
    int flag = (int) rn(2), k;                                                \
    T tab[4];                                                                 \
    T* pa = &a;                                                               \
    if(rn(6) == 0) b = a;                                                     \
    if(rn(6) == 0) c = b;                                                     \
    mn = FN(NAME##_min)(a, b); mx = FN(NAME##_max)(a, b);                     \
    OP(#NAME " operands hash %llx", hbytes(&a, sizeof(a)) ^ hbytes(&b, sizeof(b)));                              \
    CHECK(MIN(a, b) == mn, "MIN");                                            \
    CHECK(MAX(a, b) == mx, "MAX");                                            \
    CHECK(MIN(b, a) == mn && MAX(b, a) == mx, "MIN/MAX swapped");             \
    CHECK(MIN3(a, b, c) == FN(NAME##_min)(mn, c), "MIN3");                    \
    CHECK(MIN3(c, b, a) == FN(NAME##_min)(mn, c), "MIN3");                    \
    CHECK(MIN3(b, c, a) == FN(NAME##_min)(mn, c), "MIN3");                    \
    CHECK(MAX3(a, b, c) == FN(NAME##_max)(mx, c), "MAX3");                    \
    CHECK(MAX3(c, b, a) == FN(NAME##_max)(mx, c), "MAX3");                    \
    CHECK(MAX3(b, c, a) == FN(NAME##_max)(mx, c), "MAX3");                    \
    d = c < mn ? mn : c > mx ? mx : c;                                        \
    CHECK(CLAMP(c, mn, mx) == d, "CLAMP");                                    \
    CHECK(CLAMP(c, mn, mx) >= mn && CLAMP(c, mn, mx) <= mx, "CLAMP range");   \
    CHECK(CLAMP(mn, mn, mx) == mn && CLAMP(mx, mn, mx) == mx, "CLAMP ends");  \
    CHECK(CLAMP(c, a, a) == a, "CLAMP to one value");                         \
    /* Conditional and indirect arguments. */                                 \
    d = flag ? a : b;                                                         \
    CHECK(MIN(flag ? a : b, c) == FN(NAME##_min)(d, c), "MIN(?:, c)");        \
    CHECK(MIN(c, flag ? a : b) == FN(NAME##_min)(d, c), "MIN(c, ?:)");        \
    CHECK(MAX(flag ? a : b, c) == FN(NAME##_max)(d, c), "MAX(?:, c)");        \
    CHECK(MAX(c, flag ? a : b) == FN(NAME##_max)(d, c), "MAX(c, ?:)");        \
    CHECK(MIN3(flag ? a : b, c, flag ? b : a) == FN(NAME##_min)(mn, c), "MIN3(?:)"); \
    CHECK(MAX3(c, flag ? a : b, flag ? b : a) == FN(NAME##_max)(mx, c), "MAX3(?:)"); \
    CHECK(MIN3(c, flag ? a : b, flag ? b : a) == FN(NAME##_min)(mn, c), "MIN3(?:)"); \
    CHECK(MAX3(flag ? a : b, c, flag ? b : a) == FN(NAME##_max)(mx, c), "MAX3(?:)"); \
    CHECK(CLAMP(flag ? a : b, mn, mx) == d, "CLAMP(?:)");                     \
    CHECK(CLAMP(c, flag ? mn : mn, flag ? mx : mx) == FN(NAME##_max)(mn, FN(NAME##_min)(mx, c)), "CLAMP(c, ?:, ?:)"); \
    CHECK(MIN(*pa, b) == mn && MAX(*pa, b) == mx, "indirection");             \
    /* Nested, and as an operand of other operators. */                       \
    CHECK(MIN(MAX(a, b), MIN(b, c)) == FN(NAME##_min)(mx, FN(NAME##_min)(b, c)), "nested"); \
    CHECK(MAX(MIN(a, b), MAX(b, c)) == FN(NAME##_max)(mn, FN(NAME##_max)(b, c)), "nested"); \
    CHECK((MIN(a, b) == mx) == (mn == mx), "== after");                       \
    CHECK((mx == MIN(a, b)) == (mn == mx), "== before");                      \
    CHECK(!(MIN(a, b) > mn) && !(mx > MAX(a, b)), "relational");              \
    CHECK((flag ? MIN(a, b) : MAX(a, b)) == (flag ? mn : mx), "?: around");   \
    CHECK((MIN(a, b) < c ? 1 : 2) == (mn < c ? 1 : 2), "< ?: after");         \
    CHECK((c < MAX(a, b) ? 1 : 2) == (c < mx ? 1 : 2), "< ?: before");        \
    tab[0] = MIN(a, b), tab[1] = MAX(a, b), tab[2] = MIN3(a, b, c), tab[3] = MAX3(a, b, c); \
    for(k = 0; k < 4; k++)                                                    \
        CHECK(tab[k] == (k == 0 ? mn : k == 1 ? mx : k == 2 ? FN(NAME##_min)(mn, c) : FN(NAME##_max)(mx, c)), "stored"); \
    EVN("arithmetic macro results compared", 30);                             \
    EVAL(h4(SALT, hbytes(#NAME, sizeof(#NAME)), hbytes(&a, sizeof(a)), hbytes(&b, sizeof(b)))); \
}

ARITH(int, i32, geni(), "%lld")
ARITH(long long, i64, genll(), "%lld")
ARITH(unsigned, u32, geni(), "%llu")
ARITH(u64, u64, genll(), "%llu")
ARITH(short, i16, geni(), "%lld")
ARITH(signed char, i8, geni(), "%lld")
ARITH(unsigned char, u8, geni(), "%llu")
ARITH(double, dbl, gend(), "%lld")
ARITH(float, flt, gend(), "%lld")
ARITH(size_t, size, genll(), "%llu")

/* Values small enough for arithmetic in arguments. */
static int FN(imin)(int a, int b) { return (a < b) ? a : b; }
static int FN(imax)(int a, int b) { return (a > b) ? a : b; }

static void
FN(operators)(void)
{
    int a = (int) rn(2001) - 1000, b = (int) rn(2001) - 1000, c = (int) rn(2001) - 1000, d = (int) rn(2001) - 1000;
    int lo, hi, v;
    int* p = &a;

    if(rn(4) == 0) { a %= 4; b %= 4; c %= 4; d %= 4; }
    OP("operators %lld %lld %lld %lld", a, b, c, d);

#define BOTH(x, y)                                                            \
    do {                                                                      \
        int x__ = (x), y__ = (y);                                             \
        CHECK(MIN(x, y) == FN(imin)(x__, y__), "MIN(" #x ", " #y ")");        \
        CHECK(MIN(y, x) == FN(imin)(x__, y__), "MIN(" #y ", " #x ")");        \
        CHECK(MAX(x, y) == FN(imax)(x__, y__), "MAX(" #x ", " #y ")");        \
        CHECK(MAX(y, x) == FN(imax)(x__, y__), "MAX(" #y ", " #x ")");        \
        CHECK(MIN3(x, y, c) == FN(imin)(FN(imin)(x__, y__), c), "MIN3");      \
        CHECK(MIN3(c, x, y) == FN(imin)(FN(imin)(x__, y__), c), "MIN3");      \
        CHECK(MAX3(x, y, c) == FN(imax)(FN(imax)(x__, y__), c), "MAX3");      \
        CHECK(MAX3(c, x, y) == FN(imax)(FN(imax)(x__, y__), c), "MAX3");      \
        CHECK(ABS(x) == (x__ < 0 ? 0 - x__ : x__), "ABS(" #x ")");            \
        CHECK(ABS(y) == (y__ < 0 ? 0 - y__ : y__), "ABS(" #y ")");            \
        lo = FN(imin)(x__, y__); hi = FN(imax)(x__, y__);                     \
        if(x__ <= y__) {                                                      \
            v = c < x__ ? x__ : c > y__ ? y__ : c;                            \
            CHECK(CLAMP(c, x, y) == v, "CLAMP(c, " #x ", " #y ")");           \
        }                                                                     \
        v = x__ < lo ? lo : x__ > hi ? hi : x__;                              \
        CHECK(CLAMP(x, lo, hi) == v, "CLAMP(" #x ", lo, hi)");                \
        v = y__ < -7 ? -7 : y__ > 9 ? 9 : y__;                                \
        CHECK(CLAMP(y, -7, 9) == v, "CLAMP(" #y ", -7, 9)");                  \
        EVN("operator expressions as macro arguments", 13);                   \
    } while(0)

    BOTH(a + b, c - d);
    BOTH(a - b, d);
    BOTH(-a, -b);
    BOTH(- -a, ~b);
    BOTH(a * b, c * d);
    BOTH(a & b, c & d);
    BOTH(a | b, c | d);
    BOTH(a ^ b, c ^ d);
    BOTH((a & 0xff) << 2, d >> 1);
    BOTH(a == b, c);
    BOTH(a != b, d);
    BOTH(a < b, c > d);
    BOTH(a <= b, c >= d);
    BOTH(a && b, c || d);
    BOTH(!a, !!b);
    BOTH(a ? b : c, d ? a : b);
    BOTH(a % 7, b % 5);
    BOTH(a / 3, b / 5);
    BOTH(*p, p[0] + 1);
    BOTH((int) (a * 0.5), (int) sizeof a);
    BOTH((a, b), (c, d));

    /* Within larger expressions. */
    CHECK(2 * MIN(a, b) == 2 * FN(imin)(a, b), "2 * MIN");
    CHECK(MIN(a, b) * 2 == 2 * FN(imin)(a, b), "MIN * 2");
    CHECK(1 + MAX(a, b) + 1 == 2 + FN(imax)(a, b), "1 + MAX + 1");
    CHECK(10000 - MAX(a, b) == 10000 - FN(imax)(a, b), "n - MAX");
    CHECK(-MIN(a, b) == 0 - FN(imin)(a, b), "-MIN");
    CHECK(!MIN(a, b) == (FN(imin)(a, b) == 0), "!MIN");
    CHECK(~MAX(a, b) == -1 - FN(imax)(a, b), "~MAX");
    CHECK((MIN(a, b) & 15) == (FN(imin)(a, b) & 15), "MIN &");
    CHECK((15 & MIN(a, b)) == (FN(imin)(a, b) & 15), "& MIN");
    CHECK((1 | MAX(a, b)) == (1 | FN(imax)(a, b)), "| MAX");
    CHECK(MIN(a, b) + MAX(a, b) == a + b, "MIN + MAX");
    CHECK(MIN(a, b) - MIN(c, d) == FN(imin)(a, b) - FN(imin)(c, d), "MIN - MIN");
    CHECK((MIN(a, b), 3) == 3, "comma");
    CHECK((double) MIN(a, b) / 4 == (double) FN(imin)(a, b) / 4, "cast and division");
    CHECK(3 * ABS(a) == 3 * (a < 0 ? -a : a), "n * ABS");
    CHECK(ABS(a) * 3 == 3 * (a < 0 ? -a : a), "ABS * n");
    CHECK(-ABS(a) == (a < 0 ? a : -a), "-ABS");
    CHECK(1 - ABS(a - b) == 1 - FN(imax)(a - b, b - a), "1 - ABS");
    CHECK(ABS(ABS(a) - ABS(b)) >= 0, "nested ABS");
    CHECK(ABS(MIN(a, b)) == FN(imax)(FN(imin)(a, b), -FN(imin)(a, b)), "ABS(MIN)");
    CHECK(2 * CLAMP(a, -5, 5) + 1 == 2 * (a < -5 ? -5 : a > 5 ? 5 : a) + 1, "CLAMP in a sum");
    CHECK(-CLAMP(a, -5, 5) == 0 - (a < -5 ? -5 : a > 5 ? 5 : a), "-CLAMP");
    CHECK(2 * MIN3(a, b, c) + 1 == 2 * FN(imin)(FN(imin)(a, b), c) + 1, "MIN3 in a sum");
    CHECK(100 - MAX3(a, b, c) * 2 == 100 - 2 * FN(imax)(FN(imax)(a, b), c), "MAX3 in a sum");
    CHECK((a < MIN3(a, b, c)) == 0 && (MAX3(a, b, c) < b) == 0, "relational");
    if(MIN(a, b) > 0) CHECK(a > 0 && b > 0, "if(MIN)"); else CHECK(a <= 0 || b <= 0, "if(MIN) else");
    EVAL(h4(SALT + 1, (u64) a, (u64) b, h2((u64) c, (u64) d)));

    /* Types wider than int; ABS at the limits. */
    {
        long long x = genll(), y;
        int i = geni();
        double f = gend();
        float g = (float) f;
        if(x != LLONG_MIN) {
            y = x < 0 ? -x : x;
            CHECK(ABS(x) == y, "ABS(%lld)", x);
            CHECK(ABS(-x) == y, "ABS(-%lld)", x);
            CHECK(ABS(+x) == y, "ABS(+x)");
        }
        if(i != INT_MIN) {
            CHECK(ABS(i) == (i < 0 ? -i : i), "ABS(%d)", i);
            CHECK(MIN(i, 5000000000LL) == (long long) i, "MIN of mixed types");
            CHECK(MAX(i, 5000000000LL) == 5000000000LL, "MAX of mixed types");
            CHECK(MIN(i, -5000000000LL) == -5000000000LL, "MIN of mixed types");
            CHECK(MIN(i, 0.5) == (i < 1 ? (double) i : 0.5), "MIN of mixed types");
            CHECK(MAX(0.5, i) == (i < 1 ? 0.5 : (double) i), "MAX of mixed types");
        }
        CHECK(ABS(f) == (f < 0 ? 0 - f : f) && ABS(-f) == (f < 0 ? 0 - f : f), "ABS(double)");
        CHECK(ABS(g) == (g < 0 ? 0 - g : g), "ABS(float)");
        CHECK(CLAMP(f, -0.5, 0.5) == (f < -0.5 ? -0.5 : f > 0.5 ? 0.5 : f), "CLAMP(double)");
    }
    /* Pointers into one array. */
    {
        static char arr[64];
        char* u = arr + rn(64);
        char* w = arr + rn(64);
        CHECK(MIN(u, w) == (u < w ? u : w) && MAX(u, w) == (u > w ? u : w), "MIN/MAX of pointers");
        CHECK(*MIN(u, w) == 0 && MAX(u, w) - MIN(u, w) >= 0, "operators on MIN of pointers");
        CHECK(CLAMP(u, arr + 8, arr + 20) == (u < arr + 8 ? arr + 8 : u > arr + 20 ? arr + 20 : u), "CLAMP of pointers");
    }
    EV("wide, mixed and pointer operands");
}

typedef struct FN(inner) { char c; long long ll; short s[5]; struct { char k; double d; } deep; } FN(inner);
typedef struct FN(outer) {
    char first;
    int x;
    FN(inner) in;
    char pad[3];
    FN(inner) arr[4];
    union { int i; double d; char raw[24]; } u;
    void* ptr;
    char last;
} FN(outer);
struct FN(packed) { char a; int b; char c; double d; } __attribute__((packed));

/* Usable as constant expressions. */
static int FN(dim)[SIZEOF_ARRAY("abc")];
enum { FN(E1) = SIZEOF_ARRAY("0123456789") - 1, FN(E2) = OFFSETOF(FN(outer), x), FN(E3) = MAX(3, MIN(7, 5)) };
static char FN(dim2)[OFFSETOF(FN(outer), in.ll) + 1];

static void
FN(layout)(void)
{
    static FN(outer) o[5];
    static struct FN(packed) pk[3];
    int k = (int) rn(5), j = (int) rn(4), m = (int) rn(5);
    FN(outer)* p = &o[k];
    FN(outer)* r;
    const FN(outer)* cp = p;

    OP("layout k=%llu j=%llu m=%llu", k, j, m);
    memset(o, (int) rn(256), sizeof(o));

    CHECK(SIZEOF_ARRAY(FN(dim)) == 4 && FN(E1) == 10 && FN(E3) == 5, "constant expressions");
    CHECK(sizeof(FN(dim2)) == (size_t) ((char*) &p->in.ll - (char*) p) + 1, "OFFSETOF as a constant");

#define MEMBER(mem)                                                           \
    do {                                                                      \
        size_t off__ = (size_t) ((char*) &p->mem - (char*) p);                \
        size_t n__ = OFFSETOF(FN(outer), mem);                                \
        CHECK(n__ == off__, "OFFSETOF(" #mem ") is %zu, expected %zu", n__, off__); \
        CHECK(1000 - OFFSETOF(FN(outer), mem) * 2 == 1000 - 2 * off__, "OFFSETOF(" #mem ") in an expression"); \
        r = CONTAINEROF(&p->mem, FN(outer), mem);                             \
        CHECK(r == p, "CONTAINEROF(" #mem ")");                               \
        CHECK(CONTAINEROF(&o[k].mem, FN(outer), mem) == &o[k], "CONTAINEROF(&o[k]." #mem ")"); \
        CHECK(CONTAINEROF(rn(2) ? &p->mem : &o[k].mem, FN(outer), mem) == p, "CONTAINEROF(?:)"); \
        CHECK(CONTAINEROF(&p->mem, FN(outer), mem)->x == p->x, "CONTAINEROF()->x"); \
        CHECK(&CONTAINEROF(&p->mem, FN(outer), mem)->mem == &p->mem, "&CONTAINEROF()->member"); \
        CHECK(CONTAINEROF(&p->mem, FN(outer), mem) + 1 == p + 1, "CONTAINEROF() + 1"); \
        CHECK((*CONTAINEROF(&p->mem, FN(outer), mem)).first == p->first, "*CONTAINEROF()"); \
        CHECK(CONTAINEROF(&cp->mem, FN(outer), mem) == p, "CONTAINEROF(const)"); \
        CHECK((char*) CONTAINEROF(&p->mem, FN(outer), mem) + OFFSETOF(FN(outer), mem) == (char*) &p->mem, "inverse"); \
        EV("members navigated");                                              \
    } while(0)

    MEMBER(first);
    MEMBER(x);
    MEMBER(in);
    MEMBER(in.c);
    MEMBER(in.ll);
    MEMBER(in.s);
    MEMBER(in.s[3]);
    MEMBER(in.deep);
    MEMBER(in.deep.k);
    MEMBER(in.deep.d);
    MEMBER(pad);
    MEMBER(pad[2]);
    MEMBER(arr);
    MEMBER(arr[0]);
    MEMBER(arr[3].deep.d);
    MEMBER(arr[2].s[4]);
    MEMBER(u);
    MEMBER(u.i);
    MEMBER(u.d);
    MEMBER(u.raw[7]);
    MEMBER(ptr);
    MEMBER(last);

    /* Pointer arithmetic as the argument. */
    {
        FN(inner)* q = &p->arr[1];
        short* s = p->in.s;
        const char* c = &p->pad[0];
        CHECK(CONTAINEROF(q - 1, FN(outer), arr[0]) == p, "CONTAINEROF(q - 1)");
        CHECK(CONTAINEROF(q + 2, FN(outer), arr[3]) == p, "CONTAINEROF(q + 2)");
        CHECK(CONTAINEROF(s + 4, FN(outer), in.s[4]) == p, "CONTAINEROF(s + 4)");
        CHECK(CONTAINEROF(c + 2, FN(outer), pad[2]) == p, "CONTAINEROF(c + 2)");
        CHECK(CONTAINEROF(&q[2], FN(outer), arr[3]) == p, "CONTAINEROF(&q[2])");
        CHECK(CONTAINEROF(1 + s, FN(outer), in.s[1]) == p, "CONTAINEROF(1 + s)");
        CHECK(CONTAINEROF(&q->deep.d, FN(inner), deep.d) == q, "CONTAINEROF of a nested structure");
        CHECK(CONTAINEROF(CONTAINEROF(&p->in.deep.d, FN(inner), deep.d), FN(outer), in) == p, "nested CONTAINEROF");
    }
    CHECK(OFFSETOF(struct FN(packed), d) == 6 && OFFSETOF(struct FN(packed), b) == 1, "packed structure");
    CHECK(CONTAINEROF(&pk[2].c, struct FN(packed), c) == &pk[2], "packed structure");
    CHECK(OFFSETOF(FN(outer), first) == 0 && OFFSETOF(FN(outer), in) + OFFSETOF(FN(inner), ll) == OFFSETOF(FN(outer), in.ll), "sums");

    /* SIZEOF_ARRAY */
    {
        char c1[1]; int i17[17]; FN(outer) so[3]; void* ps[9]; long long two[3][5]; struct { short q[6]; char t[2][7]; } st;
        int (*pa)[17] = &i17;
        typedef double dbl11[11];
        dbl11 d11;
        (void) c1; (void) so; (void) ps; (void) two; (void) st; (void) d11;
        CHECK(SIZEOF_ARRAY(c1) == 1 && SIZEOF_ARRAY(i17) == 17 && SIZEOF_ARRAY(so) == 3 && SIZEOF_ARRAY(ps) == 9, "SIZEOF_ARRAY");
        CHECK(SIZEOF_ARRAY(two) == 3 && SIZEOF_ARRAY(two[1]) == 5 && SIZEOF_ARRAY(st.q) == 6 && SIZEOF_ARRAY(st.t) == 2, "SIZEOF_ARRAY");
        CHECK(SIZEOF_ARRAY(st.t[1]) == 7 && SIZEOF_ARRAY(*pa) == 17 && SIZEOF_ARRAY(d11) == 11 && SIZEOF_ARRAY(*two) == 5, "SIZEOF_ARRAY");
        CHECK(SIZEOF_ARRAY("") == 1 && SIZEOF_ARRAY("hello") == 6 && SIZEOF_ARRAY(p->arr) == 4 && SIZEOF_ARRAY(o) == 5, "SIZEOF_ARRAY");
        CHECK(SIZEOF_ARRAY(i17) - 1 == 16 && 170 / SIZEOF_ARRAY(i17) == 10 && 2 * SIZEOF_ARRAY(i17) == 34, "SIZEOF_ARRAY in expressions");
        CHECK(100 % SIZEOF_ARRAY(i17) == 15 && SIZEOF_ARRAY(i17) * sizeof(i17[0]) == sizeof(i17) && !SIZEOF_ARRAY(c1) == 0, "SIZEOF_ARRAY in expressions");
        CHECK(-(int) SIZEOF_ARRAY(ps) == -9 && sizeof(i17) / SIZEOF_ARRAY(i17) == sizeof(int) && SIZEOF_ARRAY(i17) / 2 == 8, "SIZEOF_ARRAY in expressions");
    }
    CHECK(strcmp(STRINGIZE(VERSION_MAJOR.VERSION_MINOR), "5.3") == 0, "STRINGIZE");
    CHECK(strcmp(STRINGIZE(abc), "abc") == 0 && strcmp(STRINGIZE(A_NAME), "some_name") == 0 && strcmp(STRINGIZE(INDIRECT), "some_name") == 0, "STRINGIZE");
    CHECK(strcmp(STRINGIZE(a  +   b), "a + b") == 0 && strcmp(STRINGIZE("x"), "\"x\"") == 0 && strcmp(STRINGIZE(), "") == 0, "STRINGIZE");
    CHECK(strcmp("v" STRINGIZE(VERSION_MAJOR) ";", "v5;") == 0 && sizeof(STRINGIZE(VERSION_MINOR)) == 2, "STRINGIZE in a literal");
    EVAL(h4(SALT + 2, (u64) k, (u64) j, (u64) m));
}

static void
FN(all)(void)
{
    int i;
    for(i = 0; i < 20; i++) {
        FN(i32_check)();
        FN(i64_check)();
        FN(u32_check)();
        FN(u64_check)();
        FN(i16_check)();
        FN(i8_check)();
        FN(u8_check)();
        FN(dbl_check)();
        FN(flt_check)();
        FN(size_check)();
        FN(operators)();
    }
    FN(layout)();
}

#undef BOTH
#undef MEMBER
#undef ARITH
#undef VERSION_MAJOR
#undef VERSION_MINOR
#undef A_NAME
#undef INDIRECT
