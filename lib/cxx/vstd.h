// in every translation unit: the C names in std, and small templates
#ifndef VERIF_VSTD
#define VERIF_VSTD
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <utility>
#include <initializer_list>
namespace std {
using ::malloc; using ::calloc; using ::free; using ::realloc;
using ::strlen; using ::strcmp; using ::memcpy; using ::memset; using ::memcmp; using ::strncmp;
using ::size_t; using ::uint8_t; using ::uint16_t; using ::uint32_t; using ::uint64_t; using ::int8_t; using ::int16_t; using ::int32_t; using ::int64_t; using ::ptrdiff_t;
using ::FILE; using ::fopen; using ::fclose; using ::fprintf; using ::snprintf; using ::time; using ::time_t; using ::tm; using ::rand; using ::srand;
template <class T> const T &min(const T &a, const T &b) { return b < a ? b : a; }
template <class T> const T &max(const T &a, const T &b) { return a < b ? b : a; }
}
#endif
