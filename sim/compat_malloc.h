// Included before every instrumented source of the code under test. Only allocations of network buffers are made to
// fail: rapidjson (third-party, header only) cannot handle a failed allocation, and its calls of malloc() would look
// like calls by the library itself.
#ifdef __cplusplus
#include <cstdlib>
#include <cstring>
#if __has_include(<rapidjson/rapidjson.h>)
extern "C" void* sim_malloc_nofail(size_t);
#define malloc(n) sim_malloc_nofail(n)
#include <rapidjson/rapidjson.h>
#undef malloc
#endif
#endif
