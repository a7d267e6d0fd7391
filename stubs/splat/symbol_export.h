#pragma once
#define SYMBOL_EXPORT __attribute__((visibility("default")))
#define SYMBOL_IMPORT
#define SYMBOL_LOCAL __attribute__((visibility("hidden")))
