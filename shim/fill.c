/* Fills every small block of memory the process allocates with a chosen byte
 * (address sanitizer malloc hook), so that values that were never written are
 * recognisable, and changes of the byte change any result that depends on them. */
#include <stddef.h>
#include <string.h>
extern int __sanitizer_install_malloc_and_free_hooks(void (*)(volatile void const *, size_t),
                                                     void (*)(volatile void const *));
static int byte = -1;
static size_t limit = 1 << 16;
static unsigned long long filled;
static void on_malloc(volatile void const *p, size_t n) {
  if (byte < 0 || n > limit || n < 4) return;
  ++filled;
  memset((void *)p, byte, n);
}
static void on_free(volatile void const *p) {}
int fill_install(void) { return __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
void fill_set(int b) { byte = b; }
unsigned long long fill_count(void) { return filled; }
