#pragma once
#define PRAGMA_WARNING_PUSH _Pragma("GCC diagnostic push")
#define PRAGMA_WARNING_POP _Pragma("GCC diagnostic pop")
#define DISABLE_WARNING(x)
#define DISABLE_MSVC_WARNING(x)
#define DISABLE_GCC_WARNING(x)
#define DISABLE_CLANG_WARNING(x)
#define DISABLE_CLANG_AND_GCC_WARNING(x)
#define DISABLE_ALL_WARNINGS
