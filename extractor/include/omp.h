// clang cannot parse gcc's __malloc__(deallocator) attribute arguments: drop them while parsing
#pragma once
#define __malloc__(...) __malloc__
#include "/usr/lib/gcc/x86_64-linux-gnu/13/include/omp.h"
#undef __malloc__
