#include "bits_api.h"
#include <dnmx/mixin_info_util.h>
#include <string.h>

static dnmx_mixin_info make_mi(void) { return dnmx_make_mixin_info(); }
static bool canonical(const dnmx_mixin_info* a, const dnmx_mixin_info* b) { return dnmx_mixin_canonical_order(a, b); }
const bits_api bits_c = {
    make_mi, dnmx_make_feature_info, dnmx_set_mixin_info_size_and_alignment, canonical, dnmx_get_domain_name, dnmx_get_domain_settings,
    dnmx_get_domain_user_data, dnmx_get_domain_context, dnmx_object_unchecked_get_mut_at, dnmx_object_unchecked_get_at, dnmx_ftable_at,
    dnmx_type_is_copyable, dnmx_mixin_common_move_func_copy, dnmx_mixin_noop_init_func, dnmx_mixin_noop_copy_func, dnmx_mixin_noop_move_func,
    dnmx_mixin_noop_cmp_func,
};
const abi_entry abi_c[] = {ABI_LIST ABI_CONST};
const size_t abi_c_size = sizeof(abi_c) / sizeof(abi_c[0]);

typedef struct c_byte { char x; } c_byte;
typedef struct c_pair { int a; short b; } c_pair;
typedef struct c_text { char text[37]; } c_text;
typedef struct c_double { double d; char tail; } c_double;
typedef struct c_big { uint64_t x[100]; } c_big;
typedef struct c_over { alignas(32) char x[5]; } c_over;
typedef struct c_over64 { alignas(64) uint64_t x; } c_over64;
typedef union c_union { int i; double d; char c[9]; } c_union;

dnmx_mixin_info c_class_info(int i, size_t* size, size_t* align, const char** name) {
    dnmx_mixin_info ret;
    memset(&ret, 0xab, sizeof(ret)); // the macros have to set everything
    switch (i) {
#define CASE(n, c) case n: DNMX_COMMON_INIT_MI(ret, c); *size = sizeof(c); *align = alignof(c); *name = #c; break;
    CASE(0, c_byte) CASE(1, c_pair) CASE(2, c_text) CASE(3, c_double) CASE(4, c_big) CASE(5, c_over) CASE(6, c_over64) CASE(7, c_union)
    default:
        // usable where a statement is
        if (i < -5) DNMX_COMMON_INIT_EMPTY_MI(ret, "empty");
        else DNMX_COMMON_INIT_EMPTY_MI(ret, "no data");
        *size = *align = 0;
        *name = i < -5 ? "empty" : "no data";
    }
    return ret;
}
#define some_name_and_more 77
#define part_a some_name_
#define part_b and_more
int c_pp(void) {
    return I_DNMX_PP_CAT(part_a, part_b) + (int)strlen(I_DNMX_PP_STRINGIZE(abc d)) * 100 + I_DNMX_PP_EMPTY() 0;
}
