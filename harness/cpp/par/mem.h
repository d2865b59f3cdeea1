// Included before everything in the instrumented files: block copies are accesses too.
#pragma once
#include <cstring>
#include <string.h>
#include <memory.h>
#include <string>
extern "C" { void *vp_memcpy(void *, const void *, size_t); void *vp_memmove(void *, const void *, size_t); void *vp_memset(void *, int, size_t); }
namespace std { using ::vp_memcpy; using ::vp_memmove; using ::vp_memset; }
#define memcpy vp_memcpy
#define memmove vp_memmove
#define memset vp_memset
