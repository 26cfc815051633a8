#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define NAME(x) CAT(CAT(client_ini, CLIENT), x)
#define ini_reader_parse NAME(_parse)
#define ini_reader_parse_file NAME(_file)
#define ini_reader_parse_stream NAME(_stream)
#define ini_reader_parse_string NAME(_string)
#if CLIENT == 0
#define INI_MAX_LINE 1000
#define INI_USE_STACK 0
#define INI_ALLOW_REALLOC 1
#define INI_INITIAL_ALLOC 20
#elif CLIENT == 1
#define INI_USE_STACK 0
#define INI_STOP_ON_FIRST_ERROR 1
#define INI_INLINE_COMMENT_PREFIXES ";#"
#elif CLIENT == 2
#define INI_CALL_HANDLER_ON_NEW_SECTION 1
#define INI_HANDLER_LINENO 1
#define INI_ALLOW_NO_VALUE 0
#define INI_START_COMMENT_PREFIXES ";"
#elif CLIENT == 3
#define INI_MAX_LINE 300
#define INI_ALLOW_REALLOC 1 /* only applies if INI_USE_STACK is zero */
#define INI_ALLOW_MULTILINE 0
#define INI_ALLOW_BOM 0
#define INI_ALLOW_INLINE_COMMENTS 0
#define INI_START_COMMENT_PREFIXES "!%"
#elif CLIENT == 4
#define INI_MAX_LINE 400
#define INI_USE_STACK 0
#define INI_ALLOW_REALLOC 1
#define INI_INITIAL_ALLOC 64
#define INI_STOP_ON_FIRST_ERROR 1
#define INI_CALL_HANDLER_ON_NEW_SECTION 1
#define INI_HANDLER_LINENO 1
#define INI_ALLOW_BOM 0
#define INI_START_COMMENT_PREFIXES "#"
#define INI_INLINE_COMMENT_PREFIXES "!;"
#define INI_CUSTOM_ALLOCATOR 1
#define ini_reader_malloc client_ini_malloc
#define ini_reader_free client_ini_free
#define ini_reader_realloc client_ini_realloc
#else
#define INI_MAX_LINE 64
#define INI_STOP_ON_FIRST_ERROR 1
#define INI_ALLOW_NO_VALUE 0
#define INI_ALLOW_MULTILINE 0
#define INI_ALLOW_INLINE_COMMENTS 0
#endif
#include "../src/file/ini_reader.c"
