#pragma once
#if defined(_MSC_VER)
#   define FORCE_INLINE __forceinline
#   define NEVER_INLINE __declspec(noinline)
#else
#   define FORCE_INLINE inline __attribute__((always_inline))
#   define NEVER_INLINE __attribute__((noinline))
#endif
