// A program that embeds the library, driven call by call by the scheduler.
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <sys/types.h>
#include "libzdb.h"
int sim_drv_next(); int sim_drv_argc(); const char *sim_drv_arg(int i, size_t *len); void sim_drv_reply(const char *b, size_t n);
size_t sim_cfg_datasize();

static char buf[1 << 20]; static size_t used;
static void put(const void *p, size_t n) { if (used + n <= sizeof buf) { memcpy(buf + used, p, n); used += n; } }
static void done() { sim_drv_reply(buf, used); }
static void word(const char *s) { used = 0; put(s, strlen(s)); done(); }
// status, then the buffers that come with it, each with its length in front
static void answer(zdb_api_t *r) {
    used = 0; const char *t = zdb_api_debug_type(r->status); put(t, strlen(t) + 1);
    if (r->status == ZDB_API_BUFFER) { zdb_api_buffer_t *b = r->payload; uint64_t n = b->size; put(&n, 8); put(b->payload, n); }
    if (r->status == ZDB_API_ENTRY) { zdb_api_entry_t *e = r->payload; uint64_t n = e->key.size; put(&n, 8); put(e->key.payload, n); n = e->payload.size; put(&n, 8); put(e->payload.payload, n); }
    zdb_api_reply_free(r); done();
}
static zdb_settings_t *open_db(char **argv) { // argv: name data index mode sync
    zdb_settings_t *s = zdb_initialize(); if (!s) return NULL;
    zdb_id_set("embedded");
    s->datapath = argv[1]; s->indexpath = argv[2]; s->sync = atoi(argv[4]);
    if (sim_cfg_datasize()) s->datasize = sim_cfg_datasize();
    if (!strcmp(argv[3], "user")) s->mode = ZDB_MODE_KEY_VALUE;
    if (!strcmp(argv[3], "seq")) s->mode = ZDB_MODE_SEQUENTIAL;
    return zdb_open(s);
}
// a private copy in memory of exactly that size
static void *dup(const char *p, size_t n) { char *q = malloc(n ? n : 1); memcpy(q, p, n); return q; }
int main(int argc, char **argv) {
    zdb_settings_t *s = open_db(argv);
    if (!s) { word("REFUSED"); return 1; }
    word("OPEN");
    for (;;) {
        sim_drv_next(); size_t n[4] = {0}; const char *a[4] = {0}; int ac = sim_drv_argc();
        for (int i = 0; i < ac && i < 4; i++) a[i] = sim_drv_arg(i, &n[i]);
        if (!strcmp(a[0], "close")) { zdb_close(s); return 0; }
        if (!strcmp(a[0], "reopen")) { zdb_close(s); if (!(s = open_db(argv))) { word("REFUSED"); return 1; } word("OPEN"); continue; }
        if (!strcmp(a[0], "nsnew")) { word(namespace_get((char *) a[1]) || !namespace_create((char *) a[1]) ? "FAILED" : "DONE"); continue; }
        namespace_t *ns = strcmp(a[1], "default") ? namespace_get((char *) a[1]) : namespace_get_default();
        if (!ns) { word("NO NAMESPACE"); continue; }
        if (!strcmp(a[0], "jump")) { word(namespace_jump(ns) ? "DONE" : "FAILED"); continue; }
        void *k = dup(a[2], n[2]), *v = ac > 3 ? dup(a[3], n[3]) : NULL;
        zdb_api_t *r = NULL;
        if (!strcmp(a[0], "set")) r = zdb_api_set(ns, k, n[2], v, n[3]);
        if (!strcmp(a[0], "get")) r = zdb_api_get(ns, k, n[2]);
        if (!strcmp(a[0], "exists")) r = zdb_api_exists(ns, k, n[2]);
        if (!strcmp(a[0], "check")) r = zdb_api_check(ns, k, n[2]);
        if (!strcmp(a[0], "del")) r = zdb_api_del(ns, k, n[2]);
        free(k); free(v);
        answer(r);
    }
}
