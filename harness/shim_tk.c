#include <stdlib.h>
#include <pthread.h>
#include <assert.h>
#include "topkeys.h"
void *shim_tk_init(int n) { return topkeys_init(n); }
void shim_tk_free(void *t) { topkeys_free(t); }
void shim_tk_use(void *t, const char *k, size_t n, uint32_t now) { topkeys_t *tk = t; TK(tk, get_hits, k, n, now); }
void shim_tk_set(void *t, const char *k, size_t n, uint32_t now, int v) { topkey_item_t *x = topkeys_item_get_or_create(t, k, n, now);
#define SETV(c) x->c = v;
    TK_OPS(SETV) }
void shim_tk_stats(void *t, const void *c, uint32_t now, ADD_STAT f) { topkeys_stats(t, c, now, f); }
