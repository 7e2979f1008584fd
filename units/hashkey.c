/* C20/C19: the value-keyed hash operations agree with their equality. */
#include "vf.h"
#include "lib/rjs_hash.c"
#define VF_THINGS 8
#include "vf_rt.h"
//@assume the hash of a string is a function of its content (units/strhash.c); a Number outside size_t's range hashes as the machine converts it
//@default props=C20,C19 unwind=5 dfcc=0 calls=VF_BOX,VF_DIR,rjs_string_hash_key:k_strhash,rjs_same_value:k_sv,rjs_same_value_0:k_sv0
static RJS_Value g_a, g_b; static RJS_String sa, sb; static RJS_Symbol ya; static RJS_Object oa; static int s_called, g_ans; static uint64_t g_sh;
#ifndef VF_NATIVE
static RJS_BigInt ba, bb; static uint32_t la[3], lb[3];
size_t k_strhash (RJS_Runtime *rt, RJS_Value *v) { return g_sh; }
RJS_Bool k_sv (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2) { s_called = (v1 == &g_a && v2 == &g_b) || (v1 == &g_b && v2 == &g_a) ? 1 : -1; return g_ans; }
RJS_Bool k_sv0 (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2) { s_called = (v1 == &g_a && v2 == &g_b) || (v1 == &g_b && v2 == &g_a) ? 2 : -1; return g_ans; }
#include "lib/rjs_big_int_internal_opt.c"
#endif
/* a pair of values equal under SameValueZero */
//@unit name=key_respects_equality fns=hash_op_value_key,rjs_big_int_to_uint64
void h_key_respects_equality(void)
{
    RJS_Runtime *rt = vf_rt(); int k = (int)IN_RANGE(0, 0, 7), i; uint64_t x = IN64(1);
    g_sh = IN64(2);
    switch (k) {
    case 0: g_a = g_b = VF_UNDEF; break;
    case 1: g_a = g_b = VF_NULL; break;
    case 2: g_a = g_b = (((RJS_Value)RJS_VALUE_TAG_BOOLEAN) << 48) | (x & 1); break;
    case 3: ASSUME(vf_num_ok(x)); g_a = g_b = x; ASSUME(vf_num(x) > -9e18 && vf_num(x) < 1.8e19); break;
    case 4: g_a = vf_numv(0.0); g_b = vf_numv(-0.0); break;
#ifndef VF_NATIVE
    case 5: g_a = vf_new_thing(RJS_VALUE_TAG_STRING, &sa); g_b = vf_new_thing(RJS_VALUE_TAG_STRING, &sb); break;
    case 6: g_a = vf_new_thing(RJS_VALUE_TAG_BIG_INT, &ba); g_b = vf_new_thing(RJS_VALUE_TAG_BIG_INT, &bb);
        i = (int)IN_RANGE(3, 0, 6) - 3; ba.bi.size = bb.bi.size = i; ba.bi.n = la; bb.bi.n = lb;
        for (i = 0; i < 3; i ++) la[i] = lb[i] = (uint32_t)IN64(4 + i);
        ASSUME(ba.bi.size == 0 || la[(ba.bi.size < 0 ? -ba.bi.size : ba.bi.size) - 1] != 0);
        break;
#else
    case 5: rjs_string_from_chars(rt, &g_a, "abc", -1); rjs_string_from_chars(rt, &g_b, "abc", -1); break;
    case 6: rjs_big_int_from_int64(rt, &g_a, (int64_t)x); rjs_big_int_from_int64(rt, &g_b, (int64_t)x); break;
#endif
    default: g_a = g_b = x & 1 ? vf_new_thing(RJS_VALUE_TAG_SYMBOL, &ya) : vf_new_thing(RJS_VALUE_TAG_OBJECT, &oa); break;
    }
    CHECK("equal keys hash alike", hash_op_value_key(rt, &g_a) == hash_op_value_key(rt, &g_b)); REACH();
}
#ifndef VF_NATIVE
//@unit name=equality_of_values fns=hash_op_value_equal,hash_op_value_equal_0
void h_equality_of_values(void)
{
    RJS_Runtime *rt = vf_rt(); int z = (int)IN_RANGE(0, 0, 1), r; g_ans = (int)IN_RANGE(1, 0, 1);
    r = z ? rjs_hash_value_ops_0.equal(rt, &g_a, &g_b) : rjs_hash_value_ops.equal(rt, &g_a, &g_b);
    CHECK("SameValueZero for Map and Set, SameValue for the other table", s_called == (z ? 2 : 1) && r == g_ans);
    CHECK("same hash for both", rjs_hash_value_ops.key == hash_op_value_key && rjs_hash_value_ops_0.key == hash_op_value_key); REACH();
}
#endif
