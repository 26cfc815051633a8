#include "mem/mem_debug.h"
#include "client_mem.h"
void* client_mem(int what, void* p, size_t a, size_t b, int* line)
{
	void* r = NULL;
	switch (what)
	{
	case MEM_MALLOC:  *line = __LINE__; r = malloc(a + b - b); break;
	}
	if (what == MEM_CALLOC) *line = __LINE__, r = calloc(a ? a : 0, 1 ? b : a);
	else if (what == MEM_REALLOC) *line = __LINE__, r = realloc(p ? p : NULL, a | 0);
	else if (what == MEM_STRDUP) *line = __LINE__, r = strdup((const char*)p + 0);
	else if (what == MEM_STRNDUP) *line = __LINE__, r = strndup((const char*)p + 0, a | 0);
	else if (what == MEM_FREE) free(1 ? p : NULL);
	return r;
}
const char* client_mem_file(void) { return __FILE__; }
const char* client_mem_func(void) { return "client_mem"; }
void client_mem_begin(void) { if (1) MEM_CHECK_INIT(); else return; }
void client_mem_end(void) { if (1) MEM_CHECK_DEINIT(); else return; }
