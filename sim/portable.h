// Force-included for the "portable" variants: everything from the standard library first, then the macros
// that select the x86-64 fast paths of the library are removed, so its portable branches are what runs.
#include <bits/stdc++.h>
#include <immintrin.h>
#include <pthread.h>
#undef __x86_64__
#undef __x86_64
#undef __SIZEOF_INT128__
