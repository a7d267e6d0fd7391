/* functions of the string view as C has them */
#pragma once
#include <dnmx/bits/sv.h>
#ifdef __cplusplus
extern "C" {
#endif
struct sv_api {
    dnmx_sv (*make_be)(const char* b, const char* e);
    dnmx_sv (*make_len)(const char* b, size_t n);
    dnmx_sv (*make_str)(const char* s);
    bool (*is_null)(dnmx_sv s);
    bool (*is_empty)(dnmx_sv s);
    size_t (*len)(dnmx_sv s);
    int (*cmp)(dnmx_sv a, dnmx_sv b);
    bool (*eq)(dnmx_sv a, dnmx_sv b);
    bool (*starts_with)(dnmx_sv s, const char* p);
    const char* (*find_first)(dnmx_sv s, char c);
    const char* (*find_last)(dnmx_sv s, char c);
    dnmx_sv (*lit)(int n);
    dnmx_sv (*empty)(void);
};
extern const struct sv_api sv_c;
#ifdef __cplusplus
}
#endif
#define SV_LITS(X) X(0, "") X(1, "a") X(2, "a\0b") X(3, "\0") X(4, "some longer literal") X(5, "\xff\x80z")
