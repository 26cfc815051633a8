#include "common_macro.h"
#include "mem/strings.h"
#include "client_util.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <ctype.h>
#define FOREACH_MAC(G) G(MAC_START) G(MAC_RUN) G(MAC_STOP)
DEF_ENUM(Mac, FOREACH_MAC);
DECLARE_ENUM_STRS(Mac);
DEF_ENUM_STRS(Mac, FOREACH_MAC)
STATIC_ASSERT(sizeof(int) >= 4);
long long mac_max(long long a, long long b) { return __max(a, b); }
long long mac_min(long long a, long long b) { return __min(a, b); }
long long mac_abs(long long a) { return __abs(a); }
int mac_choice(int a, int b, int c) { return 2 * __max(a & b, c | 1) + 3 * __min(a - b, c ? a : b) + __abs(a - b) * 2; }
uintptr_t mac_uint(uintptr_t v) { void* p = UINT_TO_PTR(v); return PTR_TO_UINT(p); }
intptr_t mac_int(intptr_t v) { void* p = INT_TO_PTR(v); return PTR_TO_INT(p); }
long long mac_long(long long v) { void* p = LONG64_TO_PTR(v); return PTR_TO_LONG64(p); }
int mac_free(size_t n, int branch) {
  char* p = n ? (char*)malloc(n) : NULL; char* q = NULL;
  if (branch) FREE(q); else FREE(p);
  FREE(p); FREE(p);                                     // a second time does nothing
  return p == NULL && q == NULL;
}
size_t mac_len(int which) { int a[7]; char b[1]; struct { char x[24]; } c[3]; return which == 0 ? ARRAY_LEN(a) : which == 1 ? ARRAY_LEN(b) : ARRAY_LEN(c); }
const char* mac_text(const char* s) { return NULLABLE_STRING(s); }
int mac_random(int lo, int hi, int seed, int reseed) { if (reseed) RANDOM_INIT(seed); return RANDOM(lo, hi); }
const char* mac_enum(int i) { return Mac_STRS[i]; }
int mac_enum_value(int i) { return i == 0 ? MAC_START : i == 1 ? MAC_RUN : MAC_STOP; }
int mac_fclose(const char* path) { FILE* f = fopen(path, "w"); int had = f != NULL; if (had) fputs("x", f); fclose(f); fclose(f); return had ? f == NULL : 0; }
void mac_upper(char* a, char* b, int both) { if (both) STRING2UPPER(a); else STRING2UPPER(b); }
void mac_lower(char* a) { STRING2LOWER(a + 0); }
