/* Stand-in for the SASL library: the exchange automaton of cyrus-sasl without its cryptography.
 * PLAIN: one message "user:pw".  SCRAM: "user", then "more"* and "pw".  The password "ok" is right, anything else is wrong.
 * Like the library it knows the user's name before the exchange has succeeded, and forgets an exchange when another begins. */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sasl/sasl.h>
#include <sasl/saslplug.h>
struct sasl_conn { int st; char *user; char *out; };
int shim_sasl_bad; int shim_sasl_calls;
static unsigned sum; 
int sasl_server_init(const sasl_callback_t *cb, const char *app) { return SASL_OK; }
void sasl_done(void) {}
int sasl_auxprop_add_plugin(const char *n, sasl_auxprop_init_t *f) { return SASL_OK; }
int arcus_auxprop_plug_init(const sasl_utils_t *u, int m, int *o, sasl_auxprop_plug_t **p, const char *n) { return SASL_OK; }
int sasl_server_new(const char *a, const char *b, const char *c, const char *d, const char *e, const sasl_callback_t *f, unsigned g, sasl_conn_t **out) { struct sasl_conn *s = calloc(1, sizeof(*s)); if (!s) return SASL_NOMEM; *out = s; return SASL_OK; }
static void clr(struct sasl_conn *c) { if (c->user) { memset(c->user, 'X', strlen(c->user)); free(c->user); } free(c->out); c->user = c->out = NULL; }
void sasl_dispose(sasl_conn_t **c) { if (*c) { clr(*c); free(*c); } *c = NULL; }
int sasl_listmech(sasl_conn_t *c, const char *user, const char *pre, const char *sep, const char *suf, const char **res, unsigned *len, int *n) { if (!c) return SASL_BADPARAM; free(c->out); c->out = malloc(100); if (!c->out) return SASL_NOMEM; int l = snprintf(c->out, 100, "%sPLAIN%sSCRAM%s", pre, sep, suf); *res = c->out; if (len) *len = l; return SASL_OK; }
static char *dup(const char *s, int n) { char *p = malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int sasl_server_start(sasl_conn_t *c, const char *mech, const char *in, unsigned len, const char **out, unsigned *outlen) {
    shim_sasl_calls++; if (!c) return SASL_BADPARAM; clr(c); c->st = 0; *out = NULL; *outlen = 0; if (!in && len) return SASL_BADPARAM; for (unsigned i = 0; i < len; i++) sum += in[i];
    if (!strcmp(mech, "PLAIN")) { const char *p = in ? memchr(in, ':', len) : NULL; c->st = 3; if (!p) return SASL_BADPROT; c->user = dup(in, p - in); if (!c->user) return SASL_NOMEM; int ok = len - (p - in) == 3 && !memcmp(p, ":ok", 3); if (ok) c->st = 2; return ok ? SASL_OK : SASL_BADAUTH; }
    if (!strcmp(mech, "SCRAM")) { c->st = 3; if (!len) { c->st = 1; c->user = dup("all", 3); if (!c->user) return SASL_NOMEM; return SASL_CONTINUE; } c->user = dup(in, len); c->out = dup("chal", 4); if (!c->user || !c->out) return SASL_NOMEM; c->st = 1; *out = c->out; *outlen = 4; return SASL_CONTINUE; }
    c->st = 0; return SASL_NOMECH;
}
int sasl_server_step(sasl_conn_t *c, const char *in, unsigned len, const char **out, unsigned *outlen) {
    shim_sasl_calls++; if (!c || (!in && len)) return SASL_BADPARAM; *out = NULL; *outlen = 0; for (unsigned i = 0; i < len; i++) sum += in[i]; if (c->st == 0) abort(); /* the library has no mechanism to call */ if (c->st != 1) return SASL_FAIL; if (len == 4 && !memcmp(in, "more", 4)) { *out = c->user; *outlen = strlen(c->user); return SASL_CONTINUE; } if (len == 2 && !memcmp(in, "ok", 2)) { c->st = 2; return SASL_OK; } c->st = 3; return SASL_BADAUTH;
}
int sasl_getprop(sasl_conn_t *c, int prop, const void **v) { if (!c) return SASL_BADPARAM; if (prop != SASL_USERNAME || !c->user) return SASL_NOTDONE; *v = c->user; return SASL_OK; }
const char *sasl_errstring(int e, const char *l, const char **o) { return "no"; }
/* what the access list says: a comma separated list of groups; nobody knows "ghost" */
int arcus_getdata(const char *user, char *out, const size_t max) { if (*user == '*') user++; if (!strcmp(user, "ghost")) return SASL_NOUSER; snprintf(out, max, "%s", !strcmp(user, "all") ? "kv,list,set,map,btree,scan,flush,attr,admin" : !strcmp(user, "none") ? "" : !strcmp(user, "kvlist") ? "kv,list" : !strcmp(user, "odd") ? "scan,,KV,bogus,attrs" : user); return SASL_OK; }
