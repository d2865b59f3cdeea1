// Stand-in for the copying helper that lives outside the repository.
#pragma once
#include <cstdint>
#include <cstring>
#include <sys/types.h>
namespace ThreadUtils { inline void parcpy(void *dst, const void *src, uint64_t n, int) { if (n) memcpy(dst, src, n); } }
