/* vf_rt.h - the runtime the harnesses hand to the code.  Included after the
 * real sources.  Under CBMC: a static RJS_Runtime whose native value stack has
 * VF_STACK free slots (growing it is outside the verified text: the stub
 * asserts it is never needed).  Natively: a real runtime. */
#ifndef VF_STACK
#define VF_STACK 48
#endif
#ifndef VF_NATIVE
static RJS_Runtime vf_rt_s;
static RJS_NativeStack vf_ns_s;
static RJS_Value vf_stack_s[VF_STACK];
static int vf_nthings;
static RJS_Runtime *vf_rt(void)
{
    vf_nthings = 0;
    vf_ns_s.value.items = vf_stack_s;
    vf_ns_s.value.item_num = 1;
    vf_ns_s.value.item_cap = VF_STACK;
    vf_rt_s.rb.curr_native_stack = &vf_ns_s;
    vf_rt_s.rb.v_undefined = ((RJS_Value)RJS_VALUE_TAG_UNDEFINED) << 48;
    vf_rt_s.rb.v_null = ((RJS_Value)RJS_VALUE_TAG_NULL) << 48;
    return &vf_rt_s;
}
/* unit option calls=VF_DIR: references to native stack slots are the addresses
 * of the slots instead of odd-numbered handles, so that the verifier follows
 * every value pointer exactly */
RJS_Bool vf_nosp (RJS_Value *v) { return 0; }
RJS_Value *vf_sp2v (size_t sp) { return &vf_stack_s[sp]; }
size_t vf_v2sp (RJS_Value *v) { return (size_t)(v - vf_stack_s); }
#ifndef VF_HAVE_STACK_APPEND
RJS_Value *rjs_value_stack_append (RJS_Runtime *rt, size_t n)
{ __CPROVER_assert(0, "vf: native stack growth outside the harness"); return NULL; }
#endif
#ifndef VF_HAVE_FILL
void rjs_value_buffer_fill_undefined (RJS_Runtime *rt, RJS_Value *v, size_t n)
{
    RJS_Value *p = rjs_value_get_pointer(rt, v);
    size_t i;
    for (i = 0; i < n; i ++)
        p[i] = ((RJS_Value)RJS_VALUE_TAG_UNDEFINED) << 48;
}
#endif
#else
extern RJS_Runtime *vf_native_rt(void);
static RJS_Runtime *vf_rt(void) { return vf_native_rt(); }
#endif

#define VF_UNDEF (((RJS_Value)RJS_VALUE_TAG_UNDEFINED) << 48)
#define VF_NULL  (((RJS_Value)RJS_VALUE_TAG_NULL) << 48)
static inline RJS_Value vf_numv(double d) { RJS_Value v; *(RJS_Number*)&v = d; return v; }
static inline double vf_num(RJS_Value v) { return *(RJS_Number*)&v; }
/* macros, not functions: dfcc must not see a function called both from a
 * contract clause and from instrumented code */
#define vf_tag(v) ((int)((RJS_Value)(v) >> 48) & 0xffff)
#define vf_is_num(v) (!((vf_tag(v) >= 0x7ff9 && vf_tag(v) <= 0x7ffe) || (vf_tag(v) >= 0xfff9 && vf_tag(v) <= 0xfffb)))

/* the Numbers a script can hold: NaNs are the two canonical ones (loads of raw
 * bytes canonicalise, units/raw.c) */
#define vf_num_ok(v) (vf_is_num(v) && ((((v) >> 52) & 0x7ff) != 0x7ff || ((v) & 0xfffffffffffffull) == 0 || ((v) & 0xfffffffffffffull) == 0x8000000000000ull))

/* Heap things in boxed values.  CBMC's pointer encoding keeps the object
 * identity in the top bits, which NaN-boxing drops, so for the verifier the
 * two boxing primitives rjs_value_set_gc_thing_tag and
 * rjs_value_pointer_get_gc_thing are replaced (unit option
 * calls=VF_BOX) by a table of handles; that the real primitives return every
 * canonical 48-bit address unchanged is proved separately (units/value.c).
 * Natively the real primitives run. */
#ifndef VF_THINGS
#define VF_THINGS 8
#endif
#ifndef VF_NATIVE
static void *vf_things[VF_THINGS];
static int vf_thing_idx(void *p)
{
    int i;
    for (i = 0; i < vf_nthings; i ++)
        if (vf_things[i] == p) return i;
    __CPROVER_assert(vf_nthings < VF_THINGS, "vf: handle table large enough");
    vf_things[vf_nthings] = p;
    return vf_nthings ++;
}
void vf_set_tag (RJS_Runtime *rt, RJS_Value *v, void *p, int tag)
{
    v = rjs_value_get_pointer(rt, v);
    *v = (((RJS_Value)tag) << 48) | (0x1000 + vf_thing_idx(p));
}
void *vf_get_thing (RJS_Runtime *rt, RJS_Value *v)
{
    size_t i = (*v & 0xffffffffffffull) - 0x1000;
    __CPROVER_assert(i < VF_THINGS && i < (size_t)vf_nthings, "vf: boxed reference denotes a live thing");
    return vf_things[i];
}
static RJS_Value vf_box(int tag, void *p) { return (((RJS_Value)tag) << 48) | (0x1000 + vf_thing_idx(p)); }
/* register a thing not boxed before (no search) */
static RJS_Value vf_new_thing(int tag, void *p) { vf_things[vf_nthings] = p; return (((RJS_Value)tag) << 48) | (0x1000 + vf_nthings ++); }
#define VF_THING(v) vf_things[((v) & 0xffffffffffffull) - 0x1000]
#else
#define VF_THING(v) ((void*)(uintptr_t)((v) & 0xffffffffffffull))
#define vf_new_thing vf_box
static RJS_Value vf_box(int tag, void *p) { return (((RJS_Value)tag) << 48) | ((uintptr_t)p & 0xffffffffffffull); }
#endif
