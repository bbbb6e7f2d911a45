// Only in a coverage build (tools/coverage.py): which blocks of the library ran, in any life and in threads beside the first.
#include "rt.h"
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include <cstdlib>
#include <cstdint>
static uint32_t *g0, *g1; static const uintptr_t* pcs; static size_t n; static unsigned char* m;
static void dump() { const char* o = getenv("MX_COVOUT"); if (!o || !m) return; int fd = open(o, O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0) return; if (write(fd, &n, 8) < 0 || write(fd, m, n) < 0 || write(fd, pcs, n * 16) < 0) {} close(fd); }
static pid_t me;
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { if (a == b || *a) return; g0 = a; g1 = b; n = b - a; for (uint32_t i = 0; i < n; i++) a[i] = i + 1; m = (unsigned char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); me = getpid(); atexit([] { if (getpid() == me) dump(); }); }
void __sanitizer_cov_pcs_init(const uintptr_t* a, const uintptr_t* b) { if (!pcs) pcs = a; (void)b; }
void __sanitizer_cov_trace_pc_guard(uint32_t* g) { if (!*g || !m) return; unsigned char v = sim::tid() > 0 ? 3 : 1; unsigned char& c = m[*g - 1]; if ((c & v) != v) c |= v; }
}
