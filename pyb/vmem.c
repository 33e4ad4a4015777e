/* counts the blocks that the library and the bindings hold (they are compiled with malloc renamed to these) */
#include <stdlib.h>
#include <string.h>
static long live;
long v_live(void) { return live; }
void *v_malloc(size_t n) { void *p = malloc(n); if (p) { live++; memset(p, 0x3f, n); } return p; }   /* nothing may rely on what fresh memory holds */
void *v_calloc(size_t n, size_t m) { void *p = calloc(n, m); if (p) live++; return p; }
void *v_realloc(void *q, size_t n) { void *p = realloc(q, n); if (!q && p) live++; if (q && !n && !p) live--; return p; }
void v_free(void *p) { if (p) live--; free(p); }
