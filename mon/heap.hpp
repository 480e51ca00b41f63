// The allocator, metered and made to fail on demand (single-threaded use; not with ASan).
#ifndef VERIF_HEAP_HPP
#define VERIF_HEAP_HPP
#include <cerrno>
#include <malloc.h>
#include <cstdint>
#ifndef NOCOV
#define NOCOV
#endif
namespace heap {
static bool live = false; static uint64_t bytes = 0, calls = 0, refused = 0; static long net = 0;
static uint64_t fail_at = 0; static bool fail_on = false;         // refuse allocation number fail_at (and all later ones)
NOCOV static inline bool refuse() { if (!live) return false; ++calls; if (fail_at && (calls == fail_at || (fail_on && calls > fail_at))) { ++refused; errno = ENOMEM; return true; } return false; }
}
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t);
NOCOV void* malloc(size_t n) { if (heap::refuse()) return nullptr; void* p = __libc_malloc(n); if (heap::live && p) { heap::bytes += n; heap::net += (long)malloc_usable_size(p); } return p; }
NOCOV void* calloc(size_t a, size_t b) { if (heap::refuse()) return nullptr; void* p = __libc_calloc(a, b); if (heap::live && p) { heap::bytes += a * b; heap::net += (long)malloc_usable_size(p); } return p; }
NOCOV void* realloc(void* q, size_t n) { if (heap::refuse()) return nullptr; long o = q ? (long)malloc_usable_size(q) : 0; void* p = __libc_realloc(q, n); if (heap::live && p) { heap::bytes += n; heap::net += (long)malloc_usable_size(p) - o; } return p; }
NOCOV void free(void* p) { if (heap::live && p) heap::net -= (long)malloc_usable_size(p); __libc_free(p); }
}
#endif
