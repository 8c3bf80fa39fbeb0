#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <assert.h>
#include <memcached/util.h>
#include "memcached.h"
#include "mc_util.h"
// splits a key string held in blocks with a body of blen bytes; keys are copied to out. Returns the engine code, 100+ for broken bookkeeping.
int shim_blocks(const char *data, int len, int cnt, int maxk, int blen, int compat, char *out, int *lens)
{
    static mblck_pool_t pools[64]; static int have[64]; mblck_pool_t *p = &pools[blen];
    if (!have[blen]) { have[blen] = 1; if (mblck_pool_create(p, blen + sizeof(void *), 2) != 0) return 100; }
    mblck_list_t l; memset(&l, 0, sizeof l); uint32_t blocks = (len + blen - 1) / blen;
    if (mblck_list_alloc(p, 1, len, &l) != 0) return 101;
    if (l.blck_cnt != blocks || l.body_len != (uint32_t)blen) return 102;
    mblck_node_t *b = l.head; for (int o = 0; o < len; o += blen, b = b->next) { int n = len - o < blen ? len - o : blen; memset(b->data, 'Z', blen); memcpy(b->data, data + o, n); }
    token_t *t = malloc(sizeof(token_t) * cnt); memset(t, 0, sizeof(token_t) * cnt);
    int r = tokenize_sblocks(&l, len, cnt, maxk, compat, t);
    if (r == 0) { char *o = out; for (int i = 0; i < cnt; i++) { lens[i] = t[i].length; if (t[i].length > 4096) { r = 103; break; } memcpy(o, t[i].value, t[i].length); o += t[i].length; } }
    free(t); uint32_t used = p->used_cnt; mblck_list_free(p, &l); if (p->used_cnt != 0 || used == 0) return 104;
    uint32_t n = 0; for (b = p->head; b; b = b->next) { n++; if (!b->next && p->tail != b) return 105; } if (n != p->free_cnt) return 106;
    return r;
}
int shim_blocks_max(void) { return ENGINE_EBADVALUE; }
// command line: returns the number of words found, *rest the offset of the unprocessed part (-1: none), *restlen its length
int shim_command(const char *line, int len, int max, int *off, int *lens, int *rest, int *restlen)
{
    char *s = malloc(len + 1); memcpy(s, line, len); s[len] = 0; token_t *t = malloc(sizeof(token_t) * (max + 1)); memset(t, 0x77, sizeof(token_t) * (max + 1));
    int n = tokenize_command(s, len, t, max); *rest = -1; *restlen = 0; int bad = 0; if (n < 1 || n > max || t[n - 1].length != 0) bad = 1;
    for (int i = 0; !bad && i < n - 1; i++) { off[i] = t[i].value - s; lens[i] = t[i].length; if (off[i] < 0 || off[i] + lens[i] > len || memcmp(s + off[i], line + off[i], lens[i]) || s[off[i] + lens[i]] != 0) bad = 1; }
    if (!bad && t[n - 1].value) { *rest = t[n - 1].value - s; *restlen = t[n].length; }
    free(t); free(s); return bad ? -1 : n - 1;
}
int shim_join(const char **w, const int *lens, int n, int room, char *out) { token_t t[32]; for (int i = 0; i < n; i++) { t[i].value = (char *)w[i]; t[i].length = lens[i]; } char *b = malloc(room); int r = detokenize(t, n, b, room); if (r >= 0) memcpy(out, b, r); free(b); return r; }
int shim_keys(const char *str, int len, int cnt, char delim, int *off, int *lens) { char *s = malloc(len); memcpy(s, str, len); token_t *t = malloc(sizeof(token_t) * cnt); int r = tokenize_keys(s, len, cnt, delim, t); for (int i = 0; i < r; i++) { off[i] = t[i].value - s; lens[i] = t[i].length; } free(t); free(s); return r; }
