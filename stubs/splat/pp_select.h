#pragma once
// SPLAT_ITERATE_WITH(macro, a0, a1...) -> macro(a0, 0), macro(a1, 1), ...
#define SPLAT_PP_EXPAND(x) x
#define SPLAT_PP_CAT_(a,b) a##b
#define SPLAT_PP_CAT(a,b) SPLAT_PP_CAT_(a,b)
#define SPLAT_PP_NTH(_0,_1,_2,_3,_4,_5,_6,_7,_8,_9,_10,_11,_12,_13,_14,_15,_16,_17,_18,_19,_20,_21,_22,_23,_24,_25,_26,_27,_28,_29,_30,_31,n,...) n
#define SPLAT_PP_COUNT(...) SPLAT_PP_EXPAND(SPLAT_PP_NTH(__VA_ARGS__,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0))
#define SPLAT_PP_IT_1(m,a0) m(a0, 0)
#define SPLAT_PP_IT_2(m,a0,a1) m(a0, 0), m(a1, 1)
#define SPLAT_PP_IT_3(m,a0,a1,a2) m(a0, 0), m(a1, 1), m(a2, 2)
#define SPLAT_PP_IT_4(m,a0,a1,a2,a3) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3)
#define SPLAT_PP_IT_5(m,a0,a1,a2,a3,a4) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4)
#define SPLAT_PP_IT_6(m,a0,a1,a2,a3,a4,a5) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5)
#define SPLAT_PP_IT_7(m,a0,a1,a2,a3,a4,a5,a6) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6)
#define SPLAT_PP_IT_8(m,a0,a1,a2,a3,a4,a5,a6,a7) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7)
#define SPLAT_PP_IT_9(m,a0,a1,a2,a3,a4,a5,a6,a7,a8) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8)
#define SPLAT_PP_IT_10(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9)
#define SPLAT_PP_IT_11(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10)
#define SPLAT_PP_IT_12(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11)
#define SPLAT_PP_IT_13(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12)
#define SPLAT_PP_IT_14(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13)
#define SPLAT_PP_IT_15(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14)
#define SPLAT_PP_IT_16(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15)
#define SPLAT_PP_IT_17(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16)
#define SPLAT_PP_IT_18(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17)
#define SPLAT_PP_IT_19(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18)
#define SPLAT_PP_IT_20(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19)
#define SPLAT_PP_IT_21(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19,a20) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20)
#define SPLAT_PP_IT_22(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19,a20,a21) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21)
#define SPLAT_PP_IT_23(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19,a20,a21,a22) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22)
#define SPLAT_PP_IT_24(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19,a20,a21,a22,a23) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23)
#define SPLAT_PP_IT_25(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19,a20,a21,a22,a23,a24) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24)
#define SPLAT_PP_IT_26(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19,a20,a21,a22,a23,a24,a25) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24), m(a25, 25)
#define SPLAT_PP_IT_27(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19,a20,a21,a22,a23,a24,a25,a26) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24), m(a25, 25), m(a26, 26)
#define SPLAT_PP_IT_28(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19,a20,a21,a22,a23,a24,a25,a26,a27) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24), m(a25, 25), m(a26, 26), m(a27, 27)
#define SPLAT_PP_IT_29(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19,a20,a21,a22,a23,a24,a25,a26,a27,a28) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24), m(a25, 25), m(a26, 26), m(a27, 27), m(a28, 28)
#define SPLAT_PP_IT_30(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19,a20,a21,a22,a23,a24,a25,a26,a27,a28,a29) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24), m(a25, 25), m(a26, 26), m(a27, 27), m(a28, 28), m(a29, 29)
#define SPLAT_PP_IT_31(m,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19,a20,a21,a22,a23,a24,a25,a26,a27,a28,a29,a30) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24), m(a25, 25), m(a26, 26), m(a27, 27), m(a28, 28), m(a29, 29), m(a30, 30)
#define SPLAT_ITERATE_WITH(m, ...) SPLAT_PP_EXPAND(SPLAT_PP_CAT(SPLAT_PP_IT_, SPLAT_PP_COUNT(__VA_ARGS__))(m, __VA_ARGS__))
