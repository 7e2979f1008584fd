/* C16: Decode and Encode, for strings of any length, by loop contracts whose
 * ghost state is the position the specification has reached: every unit that
 * is appended and every URIError thrown must be what the specification's next
 * step (a function of the string and the position) says.  The step is computed
 * once, at an arbitrary position g_w chosen beforehand; the iteration that is
 * checked is the one that starts there (g_w ranges over all positions). */
#include "vf.h"
#define rjs_uchar_buffer_init k_init
#define rjs_uchar_buffer_deinit k_deinit
#define rjs_uchar_buffer_append_uchar k_uchar
#define rjs_uchar_buffer_append_uc k_uc
#define rjs_uchar_buffer_append_chars k_chars
#define rjs_string_from_uchars k_from
#include "lib/rjs_uri_functions_inc.c"
#undef rjs_string_from_uchars
#include "vf_rt.h"

//@assume appending to a unit buffer appends exactly the given units, a code point above 0xFFFF as its surrogate pair (units/ubuf.c); making a string of the buffer copies it (units/str.c)
//@default props=C16 calls=throw_uri_error:k_throw,rjs_string_get_length:k_length,rjs_string_get_uchars:k_uchars
#ifndef VF_NATIVE
#define MAXLEN 0x10000000
static RJS_UChar *k_buf;
#else
#define MAXLEN 14
static RJS_UChar k_buf[MAXLEN]; static RJS_String k_str;
#endif
static struct { uint64_t len, pos, k; int comp, thrown, made, inits, bad; } G;
static RJS_Value k_v, k_rv;
#define HEX(c) ((c) >= 0x30 && (c) <= 0x39 ? (int)(c) - 0x30 : (c) >= 0x41 && (c) <= 0x46 ? (int)(c) - 0x41 + 10 : (c) >= 0x61 && (c) <= 0x66 ? (int)(c) - 0x61 + 10 : -1)
#define RESERVED(c) ((c) == 0x3b || (c) == 0x2f || (c) == 0x3f || (c) == 0x3a || (c) == 0x40 || (c) == 0x26 || (c) == 0x3d || (c) == 0x2b || (c) == 0x24 || (c) == 0x2c || (c) == 0x23)
#define ALNUM(c) (((c) >= 0x30 && (c) <= 0x39) || ((c) >= 0x41 && (c) <= 0x5a) || ((c) >= 0x61 && (c) <= 0x7a))
#define MARK(c) ((c) == 0x2d || (c) == 0x5f || (c) == 0x2e || (c) == 0x21 || (c) == 0x7e || (c) == 0x2a || (c) == 0x27 || (c) == 0x28 || (c) == 0x29)
/* the octet of the escape sequence at p, or -1 */
static int sp_octet(uint64_t p)
{
    int a, b;
    if (G.len - p < 3 || k_buf[p] != 0x25) return -1;
    a = HEX(k_buf[p + 1]); b = HEX(k_buf[p + 2]);
    return a < 0 || b < 0 ? -1 : a * 16 + b;
}
enum { ST_ERR, ST_UNIT, ST_KEEP, ST_CHAR };
/* the next step of Decode at G.pos: an error, a unit copied, an escape of a reserved character kept, or a character of n escapes */
static int sp_dec(int *n, int *cp)
{
    int b0, b1, b2, b3;
    *n = 1;
    if (k_buf[G.pos] != 0x25) return ST_UNIT;
    b0 = sp_octet(G.pos);
    if (b0 < 0) return ST_ERR;
    if (!G.comp && RESERVED(b0)) return ST_KEEP;
    if (b0 < 0x80) { *cp = b0; return ST_CHAR; }
    /* Table 3-7 of the Unicode standard: well-formed UTF-8 byte sequences */
    if (b0 < 0xc2 || b0 > 0xf4) return ST_ERR;
    if (G.len - G.pos < 6) return ST_ERR;
    b1 = sp_octet(G.pos + 3);
    if (b1 < (b0 == 0xe0 ? 0xa0 : b0 == 0xf0 ? 0x90 : 0x80) || b1 > (b0 == 0xed ? 0x9f : b0 == 0xf4 ? 0x8f : 0xbf)) return ST_ERR;
    *n = 2; *cp = (b0 - 0xc0) * 64 + (b1 - 0x80);
    if (b0 < 0xe0) return ST_CHAR;
    if (G.len - G.pos < 9) return ST_ERR;
    b2 = sp_octet(G.pos + 6);
    if (b2 < 0x80 || b2 > 0xbf) return ST_ERR;
    *n = 3; *cp = (b0 - 0xe0) * 4096 + (b1 - 0x80) * 64 + (b2 - 0x80);
    if (b0 < 0xf0) return ST_CHAR;
    if (G.len - G.pos < 12) return ST_ERR;
    b3 = sp_octet(G.pos + 9);
    if (b3 < 0x80 || b3 > 0xbf) return ST_ERR;
    *n = 4; *cp = (b0 - 0xf0) * 262144 + (b1 - 0x80) * 4096 + (b2 - 0x80) * 64 + (b3 - 0x80);
    return ST_CHAR;
}
/* the next step of Encode: an error, a unit copied, or a code point of n units escaped */
static int sp_enc(int *n, int *cp)
{
    unsigned c = k_buf[G.pos], d;
    *n = 1; *cp = c;
    if (ALNUM(c) || MARK(c) || (!G.comp && RESERVED(c))) return ST_UNIT;
    if (c < 0xd800 || c > 0xdfff) return ST_CHAR;
    if (c > 0xdbff || G.len - G.pos < 2) return ST_ERR;
    d = k_buf[G.pos + 1];
    if (d < 0xdc00 || d > 0xdfff) return ST_ERR;
    *n = 2; *cp = 0x10000 + (int)(c - 0xd800) * 1024 + (int)(d - 0xdc00);
    return ST_CHAR;
}
static int g_enc, g_comp0; static uint64_t g_len0;
static int g_st, g_n, g_cp; static uint64_t g_w; static RJS_UChar g_u[3];
static void step(uint64_t w)
{
    uint64_t p = G.pos; int i;
    G.pos = w; g_n = 1; g_cp = 0; g_st = g_enc ? sp_enc(&g_n, &g_cp) : sp_dec(&g_n, &g_cp); G.pos = p;
    for (i = 0; i < 3; i ++) g_u[i] = w + i < G.len ? k_buf[w + i] : 0;
}
#ifndef VF_NATIVE
#define STEP() (ASSUME(G.pos == g_w), n = g_n, cp = g_cp, st = g_st)
#else
#define STEP() (step(G.pos), n = g_n, cp = g_cp, st = g_st)
#endif
void k_init (RJS_Runtime *rt, RJS_UCharBuffer *b) { G.inits ++; b->items = NULL; b->item_num = b->item_cap = 0; }
void k_deinit (RJS_Runtime *rt, RJS_UCharBuffer *b) { G.inits --; }
RJS_Result k_uchar (RJS_Runtime *rt, RJS_UCharBuffer *b, RJS_UChar x)
{
    int n, cp, st;
    CHECK("nothing is appended past the end or after an error", G.pos < G.len && !G.thrown && !G.made);
    STEP();
    CHECK("a unit is appended where the specification appends it", (st == ST_UNIT && x == g_u[0]) || (st == ST_KEEP && G.k < 3 && x == g_u[G.k]));
    if (st == ST_UNIT) G.pos ++;
    else if (++ G.k == 3) { G.k = 0; G.pos += 3; }
    return RJS_OK;
}
RJS_Result k_uc (RJS_Runtime *rt, RJS_UCharBuffer *b, int uc)
{
    int n, cp, st;
    CHECK("nothing is appended past the end or after an error", G.pos < G.len && !G.thrown && !G.made && G.k == 0);
    STEP();
    CHECK("the character denoted by the escape sequence is appended", !g_enc && st == ST_CHAR && uc == cp);
    G.pos += 3 * n;
    return RJS_OK;
}
static int sp_hex(int d) { return d < 10 ? 0x30 + d : 0x41 + d - 10; }
RJS_Result k_chars (RJS_Runtime *rt, RJS_UCharBuffer *b, const char *p, size_t l)
{
    int n, cp, st, by[4], m;
    CHECK("nothing is appended past the end or after an error", G.pos < G.len && !G.thrown && !G.made && G.k == 0);
    STEP();
    CHECK("only an escaped character is appended so", g_enc && st == ST_CHAR);
    if (cp < 0x80) { m = 1; by[0] = cp; }
    else if (cp < 0x800) { m = 2; by[0] = 0xc0 + cp / 64; by[1] = 0x80 + cp % 64; }
    else if (cp < 0x10000) { m = 3; by[0] = 0xe0 + cp / 4096; by[1] = 0x80 + cp / 64 % 64; by[2] = 0x80 + cp % 64; }
    else { m = 4; by[0] = 0xf0 + cp / 262144; by[1] = 0x80 + cp / 4096 % 64; by[2] = 0x80 + cp / 64 % 64; by[3] = 0x80 + cp % 64; }
    CHECK("as many octets as UTF-8 has", l == (size_t)(3 * m));
#define OCT(i) if (i < m) CHECK("percent-encoded UTF-8 in upper-case hexadecimal", p[3 * i] == 0x25 && p[3 * i + 1] == sp_hex(by[i] / 16) && p[3 * i + 2] == sp_hex(by[i] % 16))
    OCT(0); OCT(1); OCT(2); OCT(3);
    G.pos += n;
    return RJS_OK;
}
RJS_Result k_from (RJS_Runtime *rt, RJS_Value *v, const RJS_UChar *u, size_t l)
{
    CHECK("a result is made once, from the whole string", G.pos == G.len && G.k == 0 && !G.thrown && !G.made);
    CHECK("into the result", v == &k_rv);
    G.made = 1;
    return RJS_OK;
}
RJS_Result k_throw (RJS_Runtime *rt)
{
    int n, cp, st;
    CHECK("no error past the end or after a result", G.pos < G.len && G.k == 0 && !G.thrown && !G.made);
    STEP();
    CHECK("URIError exactly where the specification throws it", st == ST_ERR);
    G.thrown = 1;
    return RJS_ERR;
}
#ifndef VF_NATIVE
size_t k_length (RJS_Runtime *rt, RJS_Value *v) { CHECK("the string", v == &k_v); return G.len; }
const RJS_UChar *k_uchars (RJS_Runtime *rt, RJS_Value *v) { CHECK("the string", v == &k_v); return k_buf; }
void *malloc(size_t);
#endif
static RJS_Runtime *world(int enc)
{
    RJS_Runtime *rt = vf_rt();
    memset(&G, 0, sizeof G);
    g_enc = enc;
    G.len = IN_RANGE(0, 0, MAXLEN); G.comp = (int)IN_RANGE(1, 0, 1);
    g_len0 = G.len; g_comp0 = G.comp;
#ifndef VF_NATIVE
    k_buf = malloc(sizeof(RJS_UChar) * (G.len + 1)); ASSUME(k_buf != NULL); k_v = k_rv = VF_UNDEF;
    g_w = IN64(60); g_st = -1; if (G.len) { ASSUME(g_w < G.len); step(g_w); }
#else
    {
        int i, q = 0; static const char hx[] = "0123456789abcdefABCDEF8899eEfFcC";
        for (i = 0; i < MAXLEN; i ++) {
            uint64_t x = IN64(2 + i), m = IN_RANGE(20 + i, 0, 9);
            k_buf[i] = (RJS_UChar)x;
            if (enc) { if (m < 3) k_buf[i] &= 0x7f; else if (m < 5) k_buf[i] = 0xd800 | (x & 0x7ff); }
            else if (m < 9) { k_buf[i] = q % 3 == 0 ? '%' : hx[x % 32]; q ++; }
        }
        memset(&k_str, 0, sizeof k_str); k_str.uchars = k_buf; k_str.length = G.len; k_v = vf_new_thing(RJS_VALUE_TAG_STRING, &k_str);
    }
#endif
    return rt;
}
#define POST() CHECK("the result, or URIError thrown by the specification", (r == RJS_OK && G.made && !G.thrown) || (r == RJS_ERR && G.thrown && !G.made)); CHECK("the buffer is released", G.inits == 0); REACH()
#ifdef VF_NATIVE
/* natively the real URIError is thrown; the error is checked against the specification here */
#define NPOST() if (r == RJS_ERR) { rjs_catch(rt, &k_rv); k_throw(rt); }
#else
#define NPOST()
#endif
//@unit name=decode fns=uri_decode loops=uri.loops.json preunwind=uri_decode.0:4 unwind=6 fallback=13
void h_decode(void)
{
    RJS_Runtime *rt = world(0); RJS_Result r;
    r = uri_decode(rt, &k_v, G.comp, &k_rv);
    NPOST(); POST();
}
//@unit name=encode fns=uri_encode loops=uri2.loops.json unwind=6 fallback=5
void h_encode(void)
{
    RJS_Runtime *rt = world(1); RJS_Result r;
    r = uri_encode(rt, &k_v, G.comp, &k_rv);
    NPOST(); POST();
}
