// The part of hiredis the utilities use, on the simulated network (blocking connections; the bytes travel when the scheduler decides).
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <hiredis/hiredis.h>
int sim_net_connect(const char *host, int port); int sim_net_send(int h, const char *b, size_t n); int sim_net_recv(int h, char *b, size_t n); void sim_net_close(int h);
struct buf { char *b; size_t n, cap, pos; };
struct priv { struct buf out, in; };
static void put(struct buf *q, const void *p, size_t n) { if (q->n + n > q->cap) { q->cap = (q->n + n) * 2 + 256; q->b = realloc(q->b, q->cap); } if (n) memcpy(q->b + q->n, p, n); q->n += n; }
static int fails(redisContext *c, int e, const char *s) { if (!c->err) { c->err = e; snprintf(c->errstr, sizeof c->errstr, "%s", s); } return REDIS_ERR; }
redisContext *redisConnect(const char *ip, int port) {
    redisContext *c = calloc(1, sizeof *c); struct priv *p = calloc(1, sizeof *p); c->privdata = p; c->fd = sim_net_connect(ip, port);
    if (c->fd < 0) fails(c, REDIS_ERR_IO, "Connection refused");
    return c;
}
redisContext *redisConnectWithTimeout(const char *ip, int port, const struct timeval tv) { (void) tv; return redisConnect(ip, port); }
redisContext *redisConnectUnix(const char *path) { return redisConnect(path, 0); }
void redisFree(redisContext *c) { if (!c) return; struct priv *p = c->privdata; if (c->fd >= 0) sim_net_close(c->fd); free(p->out.b); free(p->in.b); free(p); free(c); }
int redisSetTimeout(redisContext *c, const struct timeval tv) { (void) c; (void) tv; return REDIS_OK; }
void freeReplyObject(void *v) { redisReply *r = v; if (!r) return; for (size_t i = 0; i < r->elements; i++) freeReplyObject(r->element[i]); free(r->element); free(r->str); free(r); }
int redisAppendCommandArgv(redisContext *c, int argc, const char **argv, const size_t *len) {
    struct priv *p = c->privdata; char h[40];
    put(&p->out, h, snprintf(h, sizeof h, "*%d\r\n", argc));
    for (int i = 0; i < argc; i++) { size_t n = len ? len[i] : strlen(argv[i]); put(&p->out, h, snprintf(h, sizeof h, "$%lu\r\n", (unsigned long) n)); put(&p->out, argv[i], n); put(&p->out, "\r\n", 2); }
    return REDIS_OK;
}
int redisvAppendCommand(redisContext *c, const char *f, va_list ap) {
    struct buf a[64]; memset(a, 0, sizeof a); int n = 0, in = 0; char t[128];
    for (; *f; f++) {
        if (*f == ' ') { if (in) { n++; in = 0; } continue; }
        if (n >= 64) return REDIS_ERR;
        in = 1;
        if (*f != '%' || !f[1]) { put(&a[n], f, 1); continue; }
        f++;
        if (*f == '%') put(&a[n], "%", 1);
        else if (*f == 's') { const char *s = va_arg(ap, const char *); put(&a[n], s, strlen(s)); }
        else if (*f == 'b') { const char *s = va_arg(ap, const char *); size_t l = va_arg(ap, size_t); put(&a[n], s, l); }
        else { char spec[16] = "%"; int k = 1, l = 0; while (*f && strchr("0123456789.-+#lhzj", *f) && k < 14) { if (*f == 'l' || *f == 'z' || *f == 'j') l = 1; spec[k++] = *f++; } spec[k++] = *f; spec[k] = 0;
            if (strchr("diuxX", *f)) { if (l) put(&a[n], t, snprintf(t, sizeof t, spec, va_arg(ap, long))); else put(&a[n], t, snprintf(t, sizeof t, spec, va_arg(ap, int))); } else return REDIS_ERR; }
    }
    if (in) n++;
    const char *v[64]; size_t len[64]; for (int i = 0; i < n; i++) { v[i] = a[i].b; len[i] = a[i].n; }
    int r = redisAppendCommandArgv(c, n, v, len); for (int i = 0; i < n; i++) free(a[i].b);
    return r;
}
int redisAppendCommand(redisContext *c, const char *f, ...) { va_list ap; va_start(ap, f); int r = redisvAppendCommand(c, f, ap); va_end(ap); return r; }
static int more(redisContext *c) { struct priv *p = c->privdata; char t[16384]; int n = sim_net_recv(c->fd, t, sizeof t); if (n <= 0) return fails(c, REDIS_ERR_EOF, "Server closed the connection"); put(&p->in, t, n); return REDIS_OK; }
static redisReply *parse(redisContext *c, int depth) {
    struct priv *p = c->privdata; struct buf *q = &p->in; char *e; if (depth > 8) { fails(c, REDIS_ERR_PROTOCOL, "nested"); return NULL; }
    while (!(q->n > q->pos && (e = memchr(q->b + q->pos, '\n', q->n - q->pos)))) if (more(c)) return NULL;
    size_t at = q->pos, l = e - (q->b + at); if (l < 2 || q->b[at + l - 1] != '\r') { fails(c, REDIS_ERR_PROTOCOL, "Protocol error"); return NULL; }
    q->pos = at + l + 1; redisReply *r = calloc(1, sizeof *r); char t = q->b[at]; long long v = 0; if (t == ':' || t == '$' || t == '*') v = atoll(q->b + at + 1);
    if (t == '+' || t == '-') { r->type = t == '+' ? REDIS_REPLY_STATUS : REDIS_REPLY_ERROR; r->len = l - 2; r->str = calloc(1, l); memcpy(r->str, q->b + at + 1, l - 2); }
    else if (t == ':') { r->type = REDIS_REPLY_INTEGER; r->integer = v; }
    else if (v < 0 && (t == '$' || t == '*')) r->type = REDIS_REPLY_NIL;
    else if (t == '$') {
        while (q->n - q->pos < (size_t) v + 2) if (more(c)) { free(r); return NULL; }
        r->type = REDIS_REPLY_STRING; r->len = v; r->str = calloc(1, v + 1); memcpy(r->str, q->b + q->pos, v); q->pos += v + 2;
    } else if (t == '*') {
        r->type = REDIS_REPLY_ARRAY; r->element = calloc(v ? v : 1, sizeof(redisReply *));
        for (long long i = 0; i < v; i++) { if (!(r->element[i] = parse(c, depth + 1))) { freeReplyObject(r); return NULL; } r->elements++; }
    } else { free(r); fails(c, REDIS_ERR_PROTOCOL, "Protocol error"); return NULL; }
    return r;
}
int redisGetReply(redisContext *c, void **reply) {
    struct priv *p = c->privdata; if (reply) *reply = NULL;
    if (c->err) return REDIS_ERR;
    if (p->out.n) { if (sim_net_send(c->fd, p->out.b, p->out.n) < 0) return fails(c, REDIS_ERR_IO, "Broken pipe"); p->out.n = 0; }
    redisReply *r = parse(c, 0); if (!r) return REDIS_ERR;
    if (p->in.pos == p->in.n) p->in.pos = p->in.n = 0; else if (p->in.pos > 65536) { memmove(p->in.b, p->in.b + p->in.pos, p->in.n - p->in.pos); p->in.n -= p->in.pos; p->in.pos = 0; }
    if (reply) *reply = r; else freeReplyObject(r);
    return REDIS_OK;
}
void *redisvCommand(redisContext *c, const char *f, va_list ap) { void *r; if (redisvAppendCommand(c, f, ap) != REDIS_OK || redisGetReply(c, &r) != REDIS_OK) return NULL; return r; }
void *redisCommand(redisContext *c, const char *f, ...) { va_list ap; va_start(ap, f); void *r = redisvCommand(c, f, ap); va_end(ap); return r; }
void *redisCommandArgv(redisContext *c, int argc, const char **argv, const size_t *len) { void *r; if (redisAppendCommandArgv(c, argc, argv, len) != REDIS_OK || redisGetReply(c, &r) != REDIS_OK) return NULL; return r; }
