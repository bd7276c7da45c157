#include <stddef.h>
void *malloc(size_t); void free(void *); int posix_memalign(void **, size_t, size_t); void *_aligned_malloc(size_t, size_t); void _aligned_free(void *); void abort(void);
