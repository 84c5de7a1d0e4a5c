// Included first in the builds of P15: Eigen checks its sizes and indices although assert() stays off (release semantics).
#pragma once
#include <cstdio>
#include <cstdlib>
#define eigen_assert(x)                                                    \
  do {                                                                     \
    if (!(x)) {                                                            \
      std::fprintf(stderr, "size or index error: %s (%s:%d)\n", #x, __FILE__, __LINE__); \
      std::abort();                                                        \
    }                                                                      \
  } while (false)
