/* C12: strings and Numbers as property keys. */
#include "vf.h"
#include "lib/rjs_string.c"
#include "vf_rt.h"

//@default props=C12 unwind=13 calls=VF_BOX
#define BUF 12
static RJS_UChar k_buf[BUF]; static RJS_String k_str; static RJS_Value k_v; static int64_t k_out;
static int k_oldflags;
/* the canonical decimal form of an integer in 0..2^32-2: 1..10 digits, no leading zero unless the string is "0" */
static int64_t sp_index(const RJS_UChar *b, size_t len)
{
    int64_t n = 0; size_t i;
    if (len < 1 || len > 10) return -1;
    if (b[0] == 0x30 && len != 1) return -1;
    for (i = 0; i < 10; i ++) if (i < len) { if (b[i] < 0x30 || b[i] > 0x39) return -1; n = n * 10 + (b[i] - 0x30); }
    return n <= 4294967294ll ? n : -1;
}
static int64_t g_e; /* what the specification says of the string: its index, or -1 */
#define post_index(r, out) (g_e < 0 ? !(r) : ((r) == RJS_TRUE && (out) == g_e))
/* NOT_INDEX is set only for a string that is no index; no other flag changes */
#define post_flag(flags) (((flags) & ~RJS_STRING_FL_NOT_INDEX) == (k_oldflags & ~RJS_STRING_FL_NOT_INDEX) && (!((flags) & RJS_STRING_FL_NOT_INDEX) || g_e < 0))
static RJS_Runtime *world(void)
{
    RJS_Runtime *rt = vf_rt(); int i;
    for (i = 0; i < BUF; i ++) k_buf[i] = (RJS_UChar)IN64(i);
#ifdef VF_NATIVE
    /* half of the native draws are digit strings */
    if (IN_RANGE(40, 0, 3)) for (i = 0; i < BUF; i ++) if (IN_RANGE(41 + i, 0, 30)) k_buf[i] = 0x30 + k_buf[i] % 10;
#endif
    k_str.uchars = k_buf;
    /* every length: longer strings are decided by their first 11 units, so the units beyond are never read (pointer checks) */
    k_str.length = IN_RANGE(20, 0, 0x3fffffff);
#ifdef VF_NATIVE
    k_str.length %= 12;
#endif
    k_str.flags = (int)IN_RANGE(21, 0, 15); k_oldflags = k_str.flags;
    k_v = vf_new_thing(RJS_VALUE_TAG_STRING, &k_str); k_out = -1;
    g_e = sp_index(k_buf, k_str.length);
    ASSUME(post_flag(k_str.flags));
    return rt;
}
//@unit name=str_index dfcc=0 fns=rjs_string_to_index,rjs_string_to_index_internal
//@assume a string carries the not-an-index mark only if it is no index (established by str_index; the mark is written nowhere else)
void h_str_index(void)
{
    RJS_Runtime *rt = world(); RJS_Bool r; uint64_t ix = IN_RANGE(22, 0, 4294967294ull);
    if (IN_RANGE(23, 0, 1)) {
        rjs_value_set_index_string(rt, &k_v, (uint32_t)ix);
        r = rjs_string_to_index(rt, &k_v, &k_out);
        CHECK("an index string denotes its index", r == RJS_TRUE && k_out == (int64_t)ix);
    } else {
        r = rjs_string_to_index(rt, &k_v, &k_out);
        CHECK("exactly the canonical forms of 0..2^32-2", post_index(r, k_out) && post_flag(k_str.flags));
    }
    REACH();
}
