#include "sv_api.h"

static dnmx_sv lit(int n) {
    switch (n) {
#define X(i, l) case i: return dnmx_make_sv_lit(l);
    SV_LITS(X)
#undef X
    }
    dnmx_sv e = DNMX_EMPTY_VAL;
    return e;
}
static dnmx_sv empty(void) {
    dnmx_sv a = DNMX_EMPTY_VAL;
    (void)a;
    return DNMX_EMPTY_T(dnmx_sv);
}

const struct sv_api sv_c = {
    dnmx_make_sv_be, dnmx_make_sv_len, dnmx_make_sv_str, dnmx_sv_is_null, dnmx_sv_is_empty, dnmx_sv_len, dnmx_sv_cmp, dnmx_sv_eq,
    dnmx_sv_starts_with, dnmx_sv_find_first, dnmx_sv_find_last, lit, empty,
};
