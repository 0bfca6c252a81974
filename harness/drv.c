/* Script driver: runs sessions of public API calls of the library and records one JSON trace per session.
   Script lines:  "S <sid>" starts a session, other lines are commands (see the tables below).
   Usage: drv SCRIPT OUT [options]
     -m          record heap events (allocations, frees, contents of released blocks)
     -t N        run the sessions on N threads (a group of N sessions starts together)
     -i SEED     run the sessions in one thread, interleaved call by call in an order drawn from SEED
     -r R        with -t/-i: repeat everything R times, recording only the repetitions that differ from the first
*/
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <pthread.h>
#include <sys/mman.h>
#include <racrypt.h>

/* ---- heap bookkeeping (linked with --wrap) ---- */
void *__real_malloc(size_t n);
void *__real_calloc(size_t a, size_t b);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);
struct Blk { void *p; size_t n; unsigned char *before; struct Blk *next; };
static int heap_on;                 /* record */
static __thread int in_lib;         /* inside a library call */
static struct Blk *blks;
static long n_alloc, n_free, fail_at, failed;
static long kept_bytes, kept_blocks, bad_free;
static int track_on;
static unsigned char rel[16384]; static long rel_n; static int rel_on;   /* what blocks hold when an import releases them */

static void blk_add(void *p, size_t n) {
	struct Blk *b = __real_malloc(sizeof *b);
	b->p = p; b->n = n; b->before = NULL; b->next = blks; blks = b;
}
static struct Blk *blk_take(void *p) {
	struct Blk **q, *b;
	for (q = &blks; *q; q = &(*q)->next) if ((*q)->p == p) { b = *q; *q = b->next; return b; }
	return NULL;
}
static void blk_snapshot(void) {
	struct Blk *b;
	for (b = blks; b; b = b->next) {
		if (!b->before) b->before = __real_malloc(b->n + 1);
		memcpy(b->before, b->p, b->n);
	}
}
static void blk_released(struct Blk *b) {
	if (rel_on && rel_n + (long)b->n + 8 < (long)sizeof rel) {
		memcpy(rel + rel_n, b->p, b->n); memset(rel + rel_n + b->n, 0, 8); rel_n += b->n + 8;
	}
	if (b->before) {
		unsigned char *p = b->p; size_t i; long kept = 0; int same = 1;
		for (i = 0; i < b->n; i++) {
			if (p[i] != p[0]) same = 0;
			if (p[i] != 0 && p[i] == b->before[i]) kept++;
		}
		if (kept && !same) { kept_bytes += kept; kept_blocks++; }
		__real_free(b->before);
	}
	__real_free(b);
}
void *__wrap_malloc(size_t n) {
	void *p;
	if (!in_lib) return __real_malloc(n);
	if (!heap_on) { p = __real_malloc(n); if (p) memset(p, 0xA7, n); return p; }     /* fresh memory has any content */
	n_alloc++;
	if (fail_at > 0 && --fail_at == 0) { failed++; return NULL; }
	p = __real_malloc(n);
	if (p) { memset(p, 0xA7, n); blk_add(p, n); }
	return p;
}
void *__wrap_calloc(size_t a, size_t b) {
	void *p;
	if (!heap_on || !in_lib) return __real_calloc(a, b);
	n_alloc++;
	if (fail_at > 0 && --fail_at == 0) { failed++; return NULL; }
	p = __real_calloc(a, b);
	if (p) blk_add(p, a * b);
	return p;
}
void *__wrap_realloc(void *p, size_t n) {
	struct Blk *b; void *q;
	if (!heap_on || !in_lib) return __real_realloc(p, n);
	n_alloc++;
	if (fail_at > 0 && --fail_at == 0) { failed++; return NULL; }
	q = __real_malloc(n);
	if (!q) return NULL;
	b = p ? blk_take(p) : NULL;
	if (b) { memcpy(q, p, b->n < n ? b->n : n); blk_released(b); __real_free(p); }
	blk_add(q, n);
	return q;
}
void __wrap_free(void *p) {
	struct Blk *b;
	if (!heap_on || !in_lib || !p) { __real_free(p); return; }
	n_free++;
	b = blk_take(p);
	if (!b) { bad_free++; return; }     /* not a live block: do not pass it on */
	blk_released(b);
	__real_free(p);
}

/* ---- the system's entropy source and clock, as the library sees them (only during the command gs) ---- */
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/times.h>
static int ent_on, ent_mode, ent_fd = -1; static const unsigned char *ent_src; static int ent_len; static long ent_ms;
static unsigned char ent_got[4096]; static int ent_n, ent_foreign;
static int is_source(const char *p) { return strcmp(p, "/dev/urandom") == 0 || strcmp(p, "/dev/random") == 0; }
static void ent_fill(unsigned char *b, size_t n) { size_t i; for (i = 0; i < n; i++) { b[i] = ent_src[ent_n % ent_len]; if (ent_n < (int)sizeof ent_got) ent_got[ent_n] = b[i]; ent_n++; } }
int __real_open(const char *p, int fl, ...); int __real_open64(const char *p, int fl, ...);
static int ent_open(const char *p, int fl) {
	if (ent_on && is_source(p)) { if (ent_mode == 2) { errno = ENOENT; return -1; } ent_fd = __real_open(p, fl); return ent_fd; }
	return __real_open(p, fl);
}
int __wrap_open(const char *p, int fl, ...) { va_list ap; int m; if (ent_on) return ent_open(p, fl); va_start(ap, fl); m = va_arg(ap, int); va_end(ap); return __real_open(p, fl, m); }
int __wrap_open64(const char *p, int fl, ...) { va_list ap; int m; if (ent_on) return ent_open(p, fl); va_start(ap, fl); m = va_arg(ap, int); va_end(ap); return __real_open(p, fl, m); }
int __wrap___open_2(const char *p, int fl) { return ent_open(p, fl); }
int __wrap___open64_2(const char *p, int fl) { return ent_open(p, fl); }
ssize_t __real_read(int fd, void *b, size_t n);
static ssize_t ent_read(int fd, void *b, size_t n) {
	if (ent_on && fd >= 0 && fd == ent_fd) { if (ent_mode == 3) { errno = EIO; return -1; } ent_fill(b, n); return n; }
	return __real_read(fd, b, n);
}
ssize_t __wrap_read(int fd, void *b, size_t n) { return ent_read(fd, b, n); }
ssize_t __wrap___read_chk(int fd, void *b, size_t n, size_t c) { return ent_read(fd, b, n); }
int __real_close(int fd);
int __wrap_close(int fd) { if (ent_on && fd == ent_fd) ent_fd = -1; return __real_close(fd); }
static ssize_t ent_random(void *b, size_t n) { if (ent_mode == 2 || ent_mode == 3) { errno = ENOSYS; return -1; } ent_fill(b, n); return n; }
ssize_t __real_getrandom(void *b, size_t n, unsigned f);
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { return ent_on ? ent_random(b, n) : __real_getrandom(b, n, f); }
int __real_getentropy(void *b, size_t n);
int __wrap_getentropy(void *b, size_t n) { return ent_on ? (ent_random(b, n) < 0 ? -1 : 0) : __real_getentropy(b, n); }
FILE *__real_fopen(const char *p, const char *m);
FILE *__wrap_fopen(const char *p, const char *m) { if (ent_on) ent_foreign = 1; return __real_fopen(p, m); }
int __real_clock_gettime(clockid_t c, struct timespec *t);
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!ent_on) return __real_clock_gettime(c, t); t->tv_sec = ent_ms / 1000; t->tv_nsec = ent_ms % 1000 * 1000000; return 0; }
int __real_gettimeofday(struct timeval *t, void *z);
int __wrap_gettimeofday(struct timeval *t, void *z) { if (!ent_on) return __real_gettimeofday(t, z); t->tv_sec = ent_ms / 1000; t->tv_usec = ent_ms % 1000 * 1000; return 0; }
time_t __real_time(time_t *t);
time_t __wrap_time(time_t *t) { if (!ent_on) return __real_time(t); if (t) *t = ent_ms / 1000; return ent_ms / 1000; }
clock_t __real_times(struct tms *t);
clock_t __wrap_times(struct tms *t) { if (!ent_on) return __real_times(t); memset(t, 0, sizeof *t); return ent_ms / 10; }
static int open_fds(void) { int i, n = 0; for (i = 0; i < 400; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }

/* ---- output buffer ---- */
struct Buf { char *p; size_t n, cap; };
static void outf(struct Buf *b, const char *f, ...) {
	va_list ap; int k;
	for (;;) {
		if (b->cap - b->n < 256) { b->cap = b->cap * 2 + 4096; b->p = __real_realloc(b->p, b->cap); }
		va_start(ap, f); k = vsnprintf(b->p + b->n, b->cap - b->n, f, ap); va_end(ap);
		if ((size_t)k < b->cap - b->n) { b->n += k; return; }
		b->cap = b->cap * 2 + k; b->p = __real_realloc(b->p, b->cap);
	}
}
static void outbytes(struct Buf *b, const char *key, const unsigned char *d, long n) {
	long i;
	outf(b, ",\"%s\":[", key);
	for (i = 0; i < n; i++) {
		char *q;
		if (b->cap - b->n < 256) { b->cap = b->cap * 2 + 4096; b->p = __real_realloc(b->p, b->cap); }
		q = b->p + b->n;
		if (i) *q++ = ',';
		if (d[i] >= 100) *q++ = (char)('0' + d[i] / 100);
		if (d[i] >= 10) *q++ = (char)('0' + d[i] / 10 % 10);
		*q++ = (char)('0' + d[i] % 10);
		b->n = q - b->p;
	}
	outf(b, "]");
}

/* ---- state of one session ---- */
#define NC 8
#define NBN 48
struct Cip { int kind; void *ctx; int bs; };
struct Dig { int alg; void *ctx; };
struct St {
	struct Buf out;
	struct Cip c[NC];
	struct Dig d[NC];
	struct RaRc4Ctx *r4[NC];
	struct RaRandom *rng[NC];
	struct RaBigNumber *bn[NBN];
	struct RaMontCtx *mont[NC];
	struct RaRsaKeyPair *key[NC];
	int first, ended;
};

static unsigned char *unhex(const char *s, int *n) {
	/* exact-size block so that over-reads are visible to the sanitizers; "-" is empty */
	size_t l = strcmp(s, "-") == 0 || strcmp(s, "null") == 0 ? 0 : strlen(s) / 2, i;
	unsigned char *p = __real_malloc(l ? l : 1);
	for (i = 0; i < l; i++) {
		int a = s[2 * i], b = s[2 * i + 1];
		p[i] = (unsigned char)((a <= '9' ? a - '0' : (a | 32) - 'a' + 10) << 4 | (b <= '9' ? b - '0' : (b | 32) - 'a' + 10));
	}
	*n = (int)l;
	return p;
}
static unsigned char pat(long i) { return (unsigned char)(0x5a ^ (i * 37) ^ (i >> 8)); }
static unsigned char *newout(long n) { long i; unsigned char *p = __real_malloc(n ? n : 1); for (i = 0; i < n; i++) p[i] = pat(i); return p; }
static long lastmod(const unsigned char *p, long n) { while (n > 0 && p[n-1] == pat(n-1)) n--; return n; }

static void ev(struct St *s, const char *op) { outf(&s->out, "%s{\"op\":\"%s\"", s->first ? "" : ",", op); s->first = 0; }
static const char *modes[] = {"ecb","cbc","cfb","ofb"};
static const char *cnames[] = {"aes","des","seed","aria","blowfish"};
static const char *pads[] = {"none","zero","pkcs7"};
static const char *dalgs[] = {"md2","md4","md5","sha1","sha224","sha256","sha384","sha512","sha512_224","sha512_256","has160"};
static int idx(const char **t, int n, const char *s) { int i; for (i = 0; i < n; i++) if (!strcmp(t[i], s)) return i; fprintf(stderr, "bad name %s\n", s); exit(3); }

/* automatic variables of the library start with any content, too */
static __attribute__((noinline)) void scribble(void) { unsigned char a[12000]; memset(a, 0xA7, sizeof a); __asm__ volatile("" : : "r"(a) : "memory"); }
#define LIB(x) do { scribble(); in_lib = 1; x; in_lib = 0; } while (0)
static bn_uint_t stale(bn_uint_t v, int j) { return v % 3 == 0 ? ~(bn_uint_t)0 : (bn_uint_t)(0xA5C3A5C3A5C3A5C3ULL * (bn_uint_t)(2 * j + 1)) ^ v; }

static int aesType(int n) { return n == 16 ? RA_AES_128 : n == 24 ? RA_AES_192 : RA_AES_256; }
static int desType(int n) { return n == 8 ? RA_DES : n == 16 ? RA_DES_EDE2 : RA_DES_EDE3; }
static int ariaType(int n) { return n == 16 ? RA_ARIA_128 : n == 24 ? RA_ARIA_192 : RA_ARIA_256; }

static int cipCreate(struct Cip *c, int kind, const unsigned char *k, int kl, int mode) {
	int rc = 0; void *p = NULL;
	switch (kind) {
	case 0: LIB(rc = RaAesCreate(k, aesType(kl), mode, (struct RaAesCtx **)&p)); c->bs = 16; break;
	case 1: LIB(rc = RaDesCreate(k, desType(kl), mode, (struct RaDesCtx **)&p)); c->bs = 8; break;
	case 2: LIB(rc = RaSeedCreate(k, mode, (struct RaSeedCtx **)&p)); c->bs = 16; break;
	case 3: LIB(rc = RaAriaCreate(k, ariaType(kl), mode, (struct RaAriaCtx **)&p)); c->bs = 16; break;
	case 4: LIB(rc = RaBlowfishCreate(k, kl, mode, (struct RaBlowfishCtx **)&p)); c->bs = 8; break;
	}
	c->kind = kind; c->ctx = rc == 0 ? p : NULL;
	return rc;
}
static void cipInit(struct Cip *c, const unsigned char *k, int kl, int mode) {
	switch (c->kind) {
	case 0: LIB(RaAesInit(c->ctx, k, aesType(kl), mode)); break;
	case 1: LIB(RaDesInit(c->ctx, k, desType(kl), mode)); break;
	case 2: LIB(RaSeedInit(c->ctx, k, mode)); break;
	case 3: LIB(RaAriaInit(c->ctx, k, ariaType(kl), mode)); break;
	case 4: LIB(RaBlowfishInit(c->ctx, k, kl, mode)); break;
	}
}
#define DISP(F, ...) switch (c->kind) { case 0: LIB(RaAes##F(__VA_ARGS__)); break; case 1: LIB(RaDes##F(__VA_ARGS__)); break; case 2: LIB(RaSeed##F(__VA_ARGS__)); break; case 3: LIB(RaAria##F(__VA_ARGS__)); break; case 4: LIB(RaBlowfish##F(__VA_ARGS__)); break; }
#define DISPR(F, ...) switch (c->kind) { case 0: LIB(r = RaAes##F(__VA_ARGS__)); break; case 1: LIB(r = RaDes##F(__VA_ARGS__)); break; case 2: LIB(r = RaSeed##F(__VA_ARGS__)); break; case 3: LIB(r = RaAria##F(__VA_ARGS__)); break; case 4: LIB(r = RaBlowfish##F(__VA_ARGS__)); break; }

/* digests: flavour 1 uses the algorithm-specific entry points where they exist */
static int digCreate(struct Dig *d, int alg) {
	int rc = 0; void *p = NULL;
	switch (alg) {
	case 0: LIB(rc = RaMd2Create((struct RaMd2Ctx **)&p)); break;
	case 1: LIB(rc = RaMd4Create((struct RaMd4Ctx **)&p)); break;
	case 2: LIB(rc = RaMd5Create((struct RaMd5Ctx **)&p)); break;
	case 3: LIB(rc = RaSha1Create((struct RaSha1Ctx **)&p)); break;
	case 10: LIB(rc = RaHas160Create((struct RaHas160Ctx **)&p)); break;
	default: LIB(rc = RaSha2Create(RA_DGST_SHA2_224 + (alg - 4), (struct RaSha2Ctx **)&p)); break;
	}
	d->alg = alg; d->ctx = rc == 0 ? p : NULL;
	return rc;
}
static void digInit(struct Dig *d, int alg, int fl) {
	switch (d->alg) {
	case 0: LIB(RaMd2Init(d->ctx)); break;
	case 1: LIB(RaMd4Init(d->ctx)); break;
	case 2: LIB(RaMd5Init(d->ctx)); break;
	case 3: LIB(RaSha1Init(d->ctx)); break;
	case 10: LIB(RaHas160Init(d->ctx)); break;
	default:
		if (fl && alg == 5) LIB(RaSha256Init(d->ctx));
		else if (fl && alg == 7) LIB(RaSha512Init(d->ctx));
		else LIB(RaSha2Init(d->ctx, RA_DGST_SHA2_224 + (alg - 4)));
		d->alg = alg;
	}
}
static void digUpdate(struct Dig *d, int fl, const unsigned char *p, int n) {
	switch (d->alg) {
	case 0: LIB(RaMd2Update(d->ctx, p, n)); break;
	case 1: LIB(RaMd4Update(d->ctx, p, n)); break;
	case 2: LIB(RaMd5Update(d->ctx, p, n)); break;
	case 3: LIB(RaSha1Update(d->ctx, p, n)); break;
	case 10: LIB(RaHas160Update(d->ctx, p, n)); break;
	case 4: case 5: if (fl) LIB(RaSha256Update(d->ctx, p, n)); else LIB(RaSha2Update(d->ctx, p, n)); break;
	default: if (fl) LIB(RaSha512Update(d->ctx, p, n)); else LIB(RaSha2Update(d->ctx, p, n)); break;
	}
}
static void digFinal(struct Dig *d, int fl, unsigned char *o) {
	switch (d->alg) {
	case 0: LIB(RaMd2Final(d->ctx, o)); break;
	case 1: LIB(RaMd4Final(d->ctx, o)); break;
	case 2: LIB(RaMd5Final(d->ctx, o)); break;
	case 3: LIB(RaSha1Final(d->ctx, o)); break;
	case 10: LIB(RaHas160Final(d->ctx, o)); break;
	case 5: if (fl) LIB(RaSha256Final(d->ctx, o)); else LIB(RaSha2Final(d->ctx, o)); break;
	case 7: if (fl) LIB(RaSha512Final(d->ctx, o)); else LIB(RaSha2Final(d->ctx, o)); break;
	default: LIB(RaSha2Final(d->ctx, o)); break;
	}
}
static void digDestroy(struct Dig *d) {
	switch (d->alg) {
	case 0: LIB(RaMd2Destroy(d->ctx)); break;
	case 1: LIB(RaMd4Destroy(d->ctx)); break;
	case 2: LIB(RaMd5Destroy(d->ctx)); break;
	case 3: LIB(RaSha1Destroy(d->ctx)); break;
	case 10: LIB(RaHas160Destroy(d->ctx)); break;
	default: LIB(RaSha2Destroy(d->ctx)); break;
	}
	d->ctx = NULL;
}
static int diglen(int alg) { static const int l[] = {16,16,16,20,28,32,48,64,28,32,20}; return l[alg]; }

/* ---- big numbers ---- */
static void limbs(struct Buf *b, const bn_uint_t *d, int n) {
	long bits = (long)n * BN_WORD_BIT, i, last = -1;
	for (i = 0; i * 12 < bits; i++) {
		unsigned v = 0; int j;
		for (j = 0; j < 12; j++) { long k = i * 12 + j; if (k < bits && (d[k / BN_WORD_BIT] >> (k % BN_WORD_BIT) & 1)) v |= 1u << j; }
		if (v) { for (last++; last < i; last++) outf(b, last ? ",0" : "0"); outf(b, i ? ",%u" : "%u", v); last = i; }
	}
}
static void snap1(struct St *s, int k, int *cnt) {
	struct RaBigNumber *n = s->bn[k];
	int len;
	outf(&s->out, "%s{\"k\":%d,", (*cnt)++ ? "," : "", k);
	if (!n) { outf(&s->out, "\"l\":0,\"x\":0,\"s\":0,\"m\":[]}"); return; }
	len = n->length;
	if (len < 1 || len > n->max_length) { outf(&s->out, "\"l\":%d,\"x\":%d,\"s\":9,\"m\":[]}", len, n->max_length); return; }
	outf(&s->out, "\"l\":%d,\"x\":%d,\"s\":%d,\"m\":[", len, n->max_length, n->sign);
	limbs(&s->out, n->data, len);
	outf(&s->out, "]}");
}
static void snap(struct St *s, const int *ks, int n) {
	int i, j, cnt = 0;
	outf(&s->out, ",\"o\":[");
	for (i = 0; i < n; i++) {
		if (ks[i] < 0) continue;
		for (j = 0; j < i; j++) if (ks[j] == ks[i]) break;
		if (j == i) snap1(s, ks[i], &cnt);
	}
	outf(&s->out, "]");
}
static void outword(struct St *s, const char *key, int sg, uint64_t v) {
	int first = 1;
	outf(&s->out, ",\"%s\":{\"s\":%d,\"m\":[", key, sg);
	while (v) { outf(&s->out, first ? "%u" : ",%u", (unsigned)(v & 4095)); first = 0; v >>= 12; }
	outf(&s->out, "]}");
}
static int slot(const char *t) { return strcmp(t, "-") == 0 ? -1 : atoi(t); }

struct Prog { struct St *s; int n, stop, ret, cnt[4096]; };
static int progress(int count, void *u) {
	struct Prog *p = u;
	if (p->n < 4096) p->cnt[p->n] = count;
	p->n++;
	return p->stop > 0 && count >= p->stop ? p->ret : 0;
}

static void heapEv(struct St *s, long a0, long f0) {
	long live = 0; struct Blk *b;
	if (!heap_on) return;
	for (b = blks; b; b = b->next) live++;
	outf(&s->out, ",\"al\":%ld,\"fr\":%ld,\"live\":%ld,\"failed\":%ld,\"kept\":%ld,\"keptb\":%ld,\"badfree\":%ld",
		n_alloc - a0, n_free - f0, live, failed, kept_bytes, kept_blocks, bad_free);
}

static void run(struct St *s, char *line) {
	char *t[24] = {NULL}; int n = 0, i; char *sv, *w;
	long a0 = n_alloc, f0 = n_free;
	for (w = strtok_r(line, " \n", &sv); w && n < 24; w = strtok_r(NULL, " \n", &sv)) t[n++] = w;
	if (n == 0) return;
	if (heap_on) { failed = 0; kept_bytes = kept_blocks = 0; bad_free = 0; fail_at = 0; }
	if (heap_on && strcmp(t[0], "F") == 0) { fail_at = atol(t[1]); for (i = 2; i < n; i++) t[i-2] = t[i]; n -= 2; }
	if (heap_on && track_on) blk_snapshot();
#define OP(x) (strcmp(t[0], x) == 0)
	if (OP("cc")) {            /* cc h cipher mode key */
		int h = atoi(t[1]), kl, rc, m = idx(modes, 4, t[3]); unsigned char *k = unhex(t[4], &kl);
		rc = cipCreate(&s->c[h], idx(cnames, 5, t[2]), k, kl, m);
		ev(s, "cc"); outf(&s->out, ",\"h\":%d,\"c\":\"%s\",\"mode\":\"%s\",\"rc\":%d", h, t[2], t[3], rc); outbytes(&s->out, "key", k, kl); __real_free(k);
	} else if (OP("ci")) {
		int h = atoi(t[1]), kl, m = idx(modes, 4, t[2]); unsigned char *k = unhex(t[3], &kl);
		cipInit(&s->c[h], k, kl, m);
		ev(s, "ci"); outf(&s->out, ",\"h\":%d,\"mode\":\"%s\"", h, t[2]); outbytes(&s->out, "key", k, kl); __real_free(k);
	} else if (OP("cs")) {
		int h = atoi(t[1]), l; struct Cip *c = &s->c[h]; unsigned char *k = strcmp(t[2], ".") ? unhex(t[2], &l) : newout(l = c->bs);
		if (!strcmp(t[2], ".")) DISP(GetIV, c->ctx, k);     /* the value it has */
		DISP(SetIV, c->ctx, k);
		ev(s, "cs"); outf(&s->out, ",\"h\":%d", h); outbytes(&s->out, "iv", k, l); __real_free(k);
	} else if (OP("cg")) {
		int h = atoi(t[1]); struct Cip *c = &s->c[h]; unsigned char *o = newout(48);
		DISP(GetIV, c->ctx, o);
		ev(s, "cg"); outf(&s->out, ",\"h\":%d,\"last\":%ld", h, lastmod(o, 48)); outbytes(&s->out, "iv", o, c->bs); __real_free(o);
	} else if (OP("ce") || OP("cd") || OP("cef") || OP("cdf")) {   /* ce h data [inplace] ; cef h data pad [inplace] */
		int h = atoi(t[1]), l, r = 0, fin = t[0][2] == 'f', enc = t[0][1] == 'e', pad = 0, inpl;
		unsigned char *in = unhex(t[2], &l), *o; struct Cip *c = &s->c[h]; long cap = l + 64;
		if (fin) pad = idx(pads, 3, t[3]);
		inpl = (fin ? n > 4 : n > 3) && atoi(t[fin ? 4 : 3]);
		o = newout(cap);
		if (inpl) memcpy(o, in, l);
		if (enc && !fin) { DISPR(Encrypt, c->ctx, inpl ? o : in, l, o) }
		else if (enc) { DISPR(EncryptFinal, c->ctx, inpl ? o : in, l, o, pad) }
		else if (!fin) { DISPR(Decrypt, c->ctx, inpl ? o : in, l, o) }
		else { DISPR(DecryptFinal, c->ctx, inpl ? o : in, l, o, pad) }
		ev(s, fin ? "cf" : "cu"); outf(&s->out, ",\"h\":%d,\"enc\":%d,\"ret\":%d,\"last\":%ld,\"inpl\":%d", h, enc, r, lastmod(o, cap), inpl);
		if (fin) outf(&s->out, ",\"pad\":\"%s\"", t[3]);
		outbytes(&s->out, "in", in, l); outbytes(&s->out, "out", o, r < 0 ? 0 : r > cap ? cap : r);
		__real_free(in); __real_free(o);
	} else if (OP("cx")) {
		int h = atoi(t[1]); struct Cip *c = &s->c[h];
		DISP(Destroy, c->ctx); c->ctx = NULL;
		ev(s, "cx"); outf(&s->out, ",\"h\":%d", h);
	} else if (OP("dc")) {     /* dc h alg */
		int h = atoi(t[1]), rc = digCreate(&s->d[h], idx(dalgs, 11, t[2]));
		ev(s, "dc"); outf(&s->out, ",\"h\":%d,\"alg\":\"%s\",\"rc\":%d", h, t[2], rc);
	} else if (OP("di")) {     /* di h alg flavour */
		int h = atoi(t[1]);
		digInit(&s->d[h], idx(dalgs, 11, t[2]), atoi(t[3]));
		ev(s, "di"); outf(&s->out, ",\"h\":%d,\"alg\":\"%s\"", h, t[2]);
	} else if (OP("du")) {     /* du h flavour data */
		int h = atoi(t[1]), l; unsigned char *p = unhex(t[3], &l);
		digUpdate(&s->d[h], atoi(t[2]), p, l);
		ev(s, "du"); outf(&s->out, ",\"h\":%d", h); outbytes(&s->out, "in", p, l); __real_free(p);
	} else if (OP("dz")) {     /* dz h flavour total piece : feed `total' zero bytes in pieces, without recording them */
		int h = atoi(t[1]); long long n = atoll(t[3]), pc = atoll(t[4]), done = 0;
		unsigned char *z = mmap(NULL, pc, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (z == MAP_FAILED) { perror("mmap"); exit(3); }
		while (done < n) { long long k = n - done < pc ? n - done : pc; digUpdate(&s->d[h], atoi(t[2]), z, (int)k); done += k; }
		munmap(z, pc);
		ev(s, "dz"); outf(&s->out, ",\"h\":%d,\"n\":[%lld,%lld]", h, n >> 24, n & 0xffffff);
	} else if (OP("df")) {
		int h = atoi(t[1]); unsigned char *o = newout(128);
		digFinal(&s->d[h], atoi(t[2]), o);
		ev(s, "df"); outf(&s->out, ",\"h\":%d,\"last\":%ld", h, lastmod(o, 128)); outbytes(&s->out, "out", o, diglen(s->d[h].alg)); __real_free(o);
	} else if (OP("dx")) {
		int h = atoi(t[1]); digDestroy(&s->d[h]);
		ev(s, "dx"); outf(&s->out, ",\"h\":%d", h);
	} else if (OP("do")) {     /* one-shot: do alg data */
		int a = idx(dalgs, 11, t[1]), l; unsigned char *p = unhex(t[2], &l), *o = newout(128);
		switch (a) {
		case 0: LIB(RaMd2(p, l, o)); break; case 1: LIB(RaMd4(p, l, o)); break; case 2: LIB(RaMd5(p, l, o)); break;
		case 3: LIB(RaSha1(p, l, o)); break; case 5: LIB(RaSha256(p, l, o)); break; case 7: LIB(RaSha512(p, l, o)); break;
		case 10: LIB(RaHas160(p, l, o)); break; default: fprintf(stderr, "no one-shot\n"); exit(3);
		}
		ev(s, "do"); outf(&s->out, ",\"alg\":\"%s\",\"last\":%ld", t[1], lastmod(o, 128)); outbytes(&s->out, "in", p, l); outbytes(&s->out, "out", o, diglen(a));
		__real_free(p); __real_free(o);
	} else if (OP("4c") || OP("4i")) {
		int h = atoi(t[1]), l, rc = 0; unsigned char *p = unhex(t[2], &l); struct RaRc4Ctx *x = NULL;
		if (OP("4c")) { LIB(rc = RaRc4Create(p, l, &x)); s->r4[h] = rc == 0 ? x : NULL; } else LIB(RaRc4Init(s->r4[h], p, l));
		ev(s, t[0]); outf(&s->out, ",\"h\":%d,\"rc\":%d", h, rc); outbytes(&s->out, "key", p, l); __real_free(p);
	} else if (OP("4e") || OP("4d")) {   /* 4e h data inplace */
		int h = atoi(t[1]), l, r = 0, inpl = atoi(t[3]); unsigned char *p = unhex(t[2], &l), *o = newout(l + 32);
		if (inpl) memcpy(o, p, l);
		if (OP("4e")) LIB(r = RaRc4Encrypt(s->r4[h], inpl ? o : p, l, o)); else LIB(r = RaRc4Decrypt(s->r4[h], inpl ? o : p, l, o));
		ev(s, "4u"); outf(&s->out, ",\"h\":%d,\"ret\":%d,\"last\":%ld", h, r, lastmod(o, l + 32)); outbytes(&s->out, "in", p, l); outbytes(&s->out, "out", o, l);
		__real_free(p); __real_free(o);
	} else if (OP("4x")) {
		int h = atoi(t[1]); LIB(RaRc4Destroy(s->r4[h])); s->r4[h] = NULL; ev(s, "4x"); outf(&s->out, ",\"h\":%d", h);
	} else if (OP("gc")) {     /* gc h alg seed */
		int h = atoi(t[1]), a = atoi(t[2]), l, rc; unsigned char *p = unhex(t[3], &l); struct RaRandom *x = NULL;
		LIB(rc = RaRandomCreate((enum RaRandomAlgorithm)a, strcmp(t[3], "null") == 0 ? NULL : p, l, &x)); s->rng[h] = rc == 0 ? x : NULL;
		ev(s, "gc"); outf(&s->out, ",\"h\":%d,\"alg\":%d,\"rc\":%d,\"sys\":%d", h, a, rc, strcmp(t[3], "null") == 0); outbytes(&s->out, "seed", p, strcmp(t[3], "null") == 0 ? 0 : l); __real_free(p);
	} else if (OP("gs")) {     /* gs h alg source-bytes clock-ms mode ; mode 0 ordinary, 1 descriptor 0 is free, 2 no source, 3 failing source, 4 and 5 with 140 and 300 descriptors in use.  A generator without a seed, and its first 24 bytes.  alg 10: an RSA key, 11: a prime, 12: a random number, 13: random bytes, drawn without a generator */
		int h = atoi(t[1]), a = atoi(t[2]), l, rc, f0d, f1d, save = -1, fill[400], nfill = 0; unsigned char *p = unhex(t[3], &l), *o = newout(240); struct RaRandom *x = NULL; struct RaBigNumber *nb = NULL; struct RaRsaKeyPair *kp = NULL; int ol = 24;
		if (a == 11 || a == 12) nb = BnNew(128);
		ent_src = p; ent_len = l; ent_ms = atol(t[4]); ent_mode = atoi(t[5]); ent_n = 0; ent_fd = -1; ent_foreign = 0;
		if (ent_mode == 1) { save = fcntl(0, F_DUPFD, 100); __real_close(0); }
		if (ent_mode >= 4) { int q; while (nfill < 399 && (q = __real_open("/dev/null", 0)) >= 0) { fill[nfill++] = q; if (q >= (ent_mode == 4 ? 140 : 300)) break; } }
		f0d = open_fds(); ent_on = 1;
		if (a < 10) { LIB(rc = RaRandomCreate((enum RaRandomAlgorithm)a, NULL, 0, &x)); s->rng[h] = rc == 0 ? x : NULL; if (x) LIB(RaRandomBytes(x, 24, o)); }
		else if (a == 10) { LIB(rc = RaRsaCreateKeyPair(128, &kp)); }
		else if (a == 11) { LIB(rc = RaGenPrimeNumber(nb, 96)); }
		else if (a == 12) { LIB(rc = BnGenRandom(nb, 120, NULL)); }
		else { LIB(rc = BnGenRandomByteArray(o, 24, NULL)); }
		ent_on = 0; f1d = open_fds();
		if (kp) { LIB(RaRsaPubKeyToByteArray(kp, o, 240, &ol)); LIB(RaRsaDestroyKeyPair(kp)); }
		if (nb) { ol = 16; LIB(BnToFixedByteArray(nb, o, 16)); LIB(BnFree(nb)); }
		while (nfill > 0) __real_close(fill[--nfill]);
		if (ent_mode == 1 && save >= 0) { dup2(save, 0); __real_close(save); }
		ev(s, "gs"); outf(&s->out, ",\"h\":%d,\"alg\":%d,\"rc\":%d,\"avail\":%d,\"fds\":%d,\"foreign\":%d,\"ms\":%ld", h, a, rc, ent_mode < 2 || ent_mode > 3, f1d - f0d, ent_foreign, ent_ms);
		outbytes(&s->out, "src", ent_got, ent_n < 64 ? ent_n : 64); outbytes(&s->out, "out", o, rc == 0 ? ol : 0); __real_free(p); __real_free(o);
	} else if (OP("gk")) {     /* gk h total piece: draw bytes without recording them */
		int h = atoi(t[1]); long n = atol(t[2]), i; int piece = atoi(t[3]); unsigned char *o = newout(piece);
		LIB(for (i = 0; i < n; i += piece) RaRandomBytes(s->rng[h], n - i < piece ? (int)(n - i) : piece, o));
		ev(s, "gk"); outf(&s->out, ",\"h\":%d,\"n\":%ld", h, n); __real_free(o);
	} else if (OP("gb") || OP("gB")) {
		int h = atoi(t[1]), l = atoi(t[2]), rc = 0; unsigned char *o = newout(l + 64);
		if (OP("gb")) LIB(RaRandomBytes(s->rng[h], l, o)); else LIB(rc = BnGenRandomByteArray(o, l, s->rng[h]));
		ev(s, "gb"); outf(&s->out, ",\"h\":%d,\"n\":%d,\"rc\":%d,\"last\":%ld", h, l, rc, lastmod(o, l + 64)); outbytes(&s->out, "out", o, l); __real_free(o);
	} else if (OP("gr")) {     /* real number: as two 24-bit parts */
		int h = atoi(t[1]); double r = 0, f; long a, b; LIB(r = RaRandom(s->rng[h]));
		ev(s, "gr"); 
		if (!(r >= 0 && r <= 1)) outf(&s->out, ",\"h\":%d,\"a\":-1,\"b\":0,\"z\":0", h);
		else { f = r * 16777216.0; a = (long)f; b = (long)((f - a) * 16777216.0); outf(&s->out, ",\"h\":%d,\"a\":%ld,\"b\":%ld,\"z\":%d", h, a, b, r == 0.0 || r == 1.0); }
	} else if (OP("gi")) {
		int h = atoi(t[1]); uint32_t lo = strtoul(t[2], NULL, 0), hi = strtoul(t[3], NULL, 0), v = 0;
		LIB(v = RaRandomInt(s->rng[h], lo, hi));
		ev(s, "gi"); outf(&s->out, ",\"h\":%d", h); outword(s, "lo", 0, lo); outword(s, "hi", 0, hi); outword(s, "v", 0, v);
	} else if (OP("gx")) {
		int h = atoi(t[1]); LIB(RaRandomDestroy(s->rng[h])); s->rng[h] = NULL; ev(s, "gx"); outf(&s->out, ",\"h\":%d", h);
	} else if (OP("bn")) {     /* bn k bits */
		int k = atoi(t[1]); LIB(s->bn[k] = BnNew(atoi(t[2]))); ev(s, "bn"); outf(&s->out, ",\"r\":%d,\"bits\":%d,\"rc\":%d", k, atoi(t[2]), s->bn[k] ? 0 : -2); snap(s, &k, 1);
	} else if (OP("bw")) {     /* bw k words */
		int k = atoi(t[1]); LIB(s->bn[k] = BnNewW(atoi(t[2]))); ev(s, "bw"); outf(&s->out, ",\"r\":%d,\"w\":%d,\"rc\":%d", k, atoi(t[2]), s->bn[k] ? 0 : -2); snap(s, &k, 1);
	} else if (OP("bclone")) {
		int k[2] = {atoi(t[1]), atoi(t[2])}; LIB(s->bn[k[0]] = BnClone(s->bn[k[1]])); ev(s, "bclone"); outf(&s->out, ",\"r\":%d,\"a\":%d,\"rc\":%d", k[0], k[1], s->bn[k[0]] ? 0 : -2); snap(s, k, 2);
	} else if (OP("bfree") || OP("bcfree")) {
		int k = atoi(t[1]); if (OP("bfree")) LIB(BnFree(s->bn[k])); else LIB(BnClearFree(s->bn[k])); s->bn[k] = NULL; ev(s, t[0]); outf(&s->out, ",\"r\":%d", k);
	} else if (OP("bput")) {   /* bput k sign hex : store a value directly (not a library call) */
		int k = atoi(t[1]), l, j; unsigned char *p = unhex(t[3], &l); struct RaBigNumber *b = s->bn[k];
		memset(b->data, 0, sizeof(bn_uint_t) * b->max_length);
		for (j = 0; j < l; j++) b->data[j / BN_WORD_BYTE] |= (bn_uint_t)p[l - 1 - j] << (8 * (j % BN_WORD_BYTE));
		b->length = b->max_length; while (b->length > 1 && b->data[b->length-1] == 0) b->length--;
		for (j = b->length; j < b->max_length; j++) b->data[j] = stale(b->data[0], j);     /* words of an earlier, longer value */
		b->sign = atoi(t[2]); ev(s, "bput"); outf(&s->out, ",\"r\":%d", k); snap(s, &k, 1); __real_free(p);
	} else if (OP("bset")) {
		int k[2] = {atoi(t[1]), atoi(t[2])}, rc; LIB(rc = BnSet(s->bn[k[0]], s->bn[k[1]])); ev(s, "bset"); outf(&s->out, ",\"r\":%d,\"a\":%d,\"rc\":%d", k[0], k[1], rc); snap(s, k, 2);
	} else if (OP("bsetv")) {  /* bsetv k kind value(decimal) */
		int k = atoi(t[1]), kind = atoi(t[2]); struct RaBigNumber *b = s->bn[k]; int64_t v = strtoll(t[3], NULL, 0); uint64_t u = strtoull(t[3], NULL, 0); int sg = 0; uint64_t m = u;
		switch (kind) {
		case 0: LIB(BnSetInt(b, (bn_int_t)v)); v = (bn_int_t)v; sg = v < 0; m = sg ? 0 - (uint64_t)v : (uint64_t)v; break;
		case 1: LIB(BnSetInt32(b, (int32_t)v)); v = (int32_t)v; sg = v < 0; m = sg ? 0 - (uint64_t)v : (uint64_t)v; break;
		case 2: LIB(BnSetInt64(b, v)); sg = v < 0; m = sg ? 0 - (uint64_t)v : (uint64_t)v; break;
		case 3: LIB(BnSetUInt(b, (bn_uint_t)u)); m = (bn_uint_t)u; break;
		case 4: LIB(BnSetUInt32(b, (uint32_t)u)); m = (uint32_t)u; break;
		case 5: LIB(BnSetUInt64(b, u)); break;
		}
		ev(s, "bsetv"); outf(&s->out, ",\"r\":%d", k); outword(s, "v", sg, m); snap(s, &k, 1);
	} else if (OP("bsb") || OP("bsub8")) {  /* from bytes: signed / unsigned */
		int k = atoi(t[1]), l, rc; unsigned char *p = unhex(t[2], &l);
		if (OP("bsb")) LIB(rc = BnSetByteArray(s->bn[k], p, l)); else LIB(rc = BnSetUByteArray(s->bn[k], p, l));
		ev(s, OP("bsb") ? "bdec" : "bdecu"); outf(&s->out, ",\"r\":%d,\"rc\":%d", k, rc); outbytes(&s->out, "in", p, l); snap(s, &k, 1); __real_free(p);
	} else if (OP("btb") || OP("btf")) {    /* btb k buflen(-1: NULL) */
		int k = atoi(t[1]), l = atoi(t[2]), r; unsigned char *o = newout((l < 0 ? 0 : l) + 32);
		if (OP("btb")) LIB(r = BnToByteArray(s->bn[k], l < 0 ? NULL : o, l < 0 ? 0 : l)); else LIB(r = BnToFixedByteArray(s->bn[k], l < 0 ? NULL : o, l < 0 ? 0 : l));
		ev(s, OP("btb") ? "benc" : "bencf"); outf(&s->out, ",\"a\":%d,\"n\":%d,\"rc\":%d,\"last\":%ld", k, l, r, lastmod(o, (l < 0 ? 0 : l) + 32));
		outbytes(&s->out, "out", o, r < 0 ? 0 : l < 0 ? 0 : r > l ? l : r); snap(s, &k, 1); __real_free(o);
	} else if (OP("bcmp")) {
		int k[2] = {atoi(t[1]), atoi(t[2])}, r; LIB(r = BnCmp(s->bn[k[0]], s->bn[k[1]])); ev(s, "bcmp"); outf(&s->out, ",\"a\":%d,\"b\":%d,\"rc\":%d", k[0], k[1], r < 0 ? -1 : r > 0); snap(s, k, 2);
	} else if (OP("bcmpi") || OP("bcmpu")) {
		int k = atoi(t[1]), r, sg = 0; int64_t v = (bn_int_t)strtoll(t[2], NULL, 0); uint64_t u = (bn_uint_t)strtoull(t[2], NULL, 0);
		if (OP("bcmpi")) { LIB(r = BnCmpInt(s->bn[k], (bn_int_t)v)); sg = v < 0; u = sg ? 0 - (uint64_t)v : (uint64_t)v; } else LIB(r = BnCmpUInt(s->bn[k], (bn_uint_t)u));
		ev(s, "bcmpv"); outf(&s->out, ",\"a\":%d,\"rc\":%d", k, r < 0 ? -1 : r > 0); outword(s, "v", sg, u); snap(s, &k, 1);
	} else if (OP("bbl")) {
		int k = atoi(t[1]), r; LIB(r = BnGetBitLength(s->bn[k])); ev(s, "bbl"); outf(&s->out, ",\"a\":%d,\"rc\":%d", k, r); snap(s, &k, 1);
	} else if (OP("badd") || OP("bsub") || OP("bmul") || OP("bmod")) {
		int k[3] = {atoi(t[1]), atoi(t[2]), atoi(t[3])}, rc; struct RaBigNumber *r = s->bn[k[0]], *a = s->bn[k[1]], *b = s->bn[k[2]];
		if (OP("badd")) LIB(rc = BnAdd(r, a, b)); else if (OP("bsub")) LIB(rc = BnSub(r, a, b)); else if (OP("bmul")) LIB(rc = BnMul(r, a, b)); else LIB(rc = BnMod(r, a, b));
		ev(s, t[0]); outf(&s->out, ",\"r\":%d,\"a\":%d,\"b\":%d,\"rc\":%d", k[0], k[1], k[2], rc); snap(s, k, 3);
	} else if (OP("baddr") || OP("bsubr")) {   /* on magnitudes, in place: |a| += |b| ; |a| -= |b| with |a| >= |b| */
		int k[2] = {atoi(t[1]), atoi(t[2])}, rc; if (OP("baddr")) LIB(rc = _BnAddR(s->bn[k[0]], s->bn[k[1]])); else LIB(rc = _BnSubR(s->bn[k[0]], s->bn[k[1]]));
		ev(s, t[0]); outf(&s->out, ",\"r\":%d,\"b\":%d,\"rc\":%d", k[0], k[1], rc); snap(s, k, 2);
	} else if (OP("bget")) {   /* the observers of a number: low bits, sizes, position of the highest bit of the low word */
		int k = atoi(t[1]), l, x, pos = -1; uint32_t lo; uint64_t q; bn_uint_t w; struct RaBigNumber *b = s->bn[k];
		LIB(l = BnGetLength(b)); LIB(x = BnGetMaxLength(b)); LIB(lo = _BnGetUInt32(b)); LIB(q = _BnGetUInt64(b)); LIB(w = _BnGetUInt(b)); if (w) LIB(pos = _BnGetMSBPos(w));
		ev(s, "bget"); outf(&s->out, ",\"a\":%d,\"len\":%d,\"max\":%d,\"pos\":%d,\"is\":[%d,%d,%d,%d,%d]", k, l, x, pos, BN_ISZERO(b) != 0, BN_ISONE(b) != 0, BN_ISTWO(b) != 0, BN_ISEVEN(b) != 0, BN_ISNEG(b) != 0); outword(s, "lo", 0, lo); outword(s, "q", 0, q); outword(s, "w", 0, w); snap(s, &k, 1);
	} else if (OP("binv")) {
		int k = atoi(t[1]); LIB(_BnInvert(s->bn[k])); ev(s, "binv"); outf(&s->out, ",\"r\":%d", k); snap(s, &k, 1);
	} else if (OP("bsqr") || OP("bdbl")) {
		int k[2] = {atoi(t[1]), atoi(t[2])}, rc; if (OP("bsqr")) LIB(rc = BnSqr(s->bn[k[0]], s->bn[k[1]])); else LIB(rc = BnDouble(s->bn[k[0]], s->bn[k[1]]));
		ev(s, t[0]); outf(&s->out, ",\"r\":%d,\"a\":%d,\"rc\":%d", k[0], k[1], rc); snap(s, k, 2);
	} else if (OP("bdiv")) {
		int k[4] = {atoi(t[1]), atoi(t[2]), atoi(t[3]), atoi(t[4])}, rc; LIB(rc = BnDiv(s->bn[k[0]], s->bn[k[1]], s->bn[k[2]], s->bn[k[3]]));
		ev(s, "bdiv"); outf(&s->out, ",\"q\":%d,\"r\":%d,\"a\":%d,\"b\":%d,\"rc\":%d", k[0], k[1], k[2], k[3], rc); snap(s, k, 4);
	} else if (OP("baddi") || OP("bsubi") || OP("bmuli") || OP("bdivi")) {
		int k = atoi(t[1]), rc, sg, nr = t[3] && t[3][0] == '-'; int64_t v = (bn_int_t)strtoll(t[2], NULL, 0); bn_uint_t rem = 0; struct RaBigNumber *b = s->bn[k];
		if (OP("baddi")) LIB(rc = BnAddInt(b, v)); else if (OP("bsubi")) LIB(rc = BnSubInt(b, v)); else if (OP("bmuli")) LIB(rc = BnMulInt(b, v)); else LIB(rc = BnDivInt(b, v, nr ? NULL : &rem));
		sg = v < 0; t[0][4] = 'v'; ev(s, t[0]); outf(&s->out, ",\"r\":%d,\"rc\":%d,\"nr\":%d", k, rc, nr); outword(s, "v", sg, sg ? 0 - (uint64_t)v : (uint64_t)v); outword(s, "rem", 0, rem); snap(s, &k, 1);
	} else if (OP("baddu") || OP("bsubu") || OP("bmulu") || OP("bdivu") || OP("bmodu")) {
		int k = atoi(t[1]), rc, nr = t[3] && t[3][0] == '-'; bn_uint_t v = (bn_uint_t)strtoull(t[2], NULL, 0), rem = 0; struct RaBigNumber *b = s->bn[k];
		if (OP("baddu")) LIB(rc = BnAddUInt(b, v)); else if (OP("bsubu")) LIB(rc = BnSubUInt(b, v)); else if (OP("bmulu")) LIB(rc = BnMulUInt(b, v)); else if (OP("bdivu")) LIB(rc = BnDivUInt(b, v, nr ? NULL : &rem)); else LIB(rc = BnModUInt(b, v, &rem));
		t[0][4] = 'v'; ev(s, t[0]); outf(&s->out, ",\"r\":%d,\"rc\":%d,\"nr\":%d", k, rc, nr); outword(s, "v", 0, v); outword(s, "rem", 0, rem); snap(s, &k, 1);
	} else if (OP("bshl") || OP("bshr")) {
		int k = atoi(t[1]), rc; uint32_t b = strtoul(t[2], NULL, 0); if (OP("bshl")) LIB(rc = BnShiftL(s->bn[k], b)); else LIB(rc = BnShiftR(s->bn[k], b));
		ev(s, t[0]); outf(&s->out, ",\"r\":%d,\"rc\":%d", k, rc); outword(s, "v", 0, b); snap(s, &k, 1);
	} else if (OP("brnd") || OP("brndo") || OP("brndr")) {   /* brnd k bits rng */
		int k = atoi(t[1]), b = atoi(t[2]), h = slot(t[3]), rc; struct RaRandom *g = h < 0 ? NULL : s->rng[h];
		if (OP("brnd")) LIB(rc = BnGenRandom(s->bn[k], b, g)); else if (OP("brndo")) LIB(rc = BnGetRandomOdd(s->bn[k], b, g)); else LIB(rc = BnGetRandomRSA(s->bn[k], b, g));
		ev(s, t[0]); outf(&s->out, ",\"r\":%d,\"bits\":%d,\"h\":%d,\"rc\":%d", k, b, h, rc); snap(s, &k, 1);
	} else if (OP("gcd")) {
		int k[3] = {atoi(t[1]), atoi(t[2]), atoi(t[3])}, rc; LIB(rc = GetGCD(s->bn[k[0]], s->bn[k[1]], s->bn[k[2]]));
		ev(s, "gcd"); outf(&s->out, ",\"r\":%d,\"m\":%d,\"n\":%d,\"rc\":%d", k[0], k[1], k[2], rc); snap(s, k, 3);
	} else if (OP("gcdx")) {   /* gcdx r a b m n unsigned */
		int k[5] = {slot(t[1]), slot(t[2]), slot(t[3]), slot(t[4]), slot(t[5])}, u = atoi(t[6]), rc;
#define BNS(i) (k[i] < 0 ? NULL : s->bn[k[i]])
		LIB(rc = GetGCDEx(BNS(0), BNS(1), BNS(2), BNS(3), BNS(4), u));
		ev(s, "gcdx"); outf(&s->out, ",\"r\":%d,\"a\":%d,\"b\":%d,\"m\":%d,\"n\":%d,\"u\":%d,\"rc\":%d", k[0], k[1], k[2], k[3], k[4], u, rc); snap(s, k, 5);
	} else if (OP("mc")) {
		int h = atoi(t[1]), k = atoi(t[2]), rc; struct RaMontCtx *x = NULL; LIB(rc = RaMontCreate(s->bn[k], &x)); s->mont[h] = rc == 0 ? x : NULL;
		ev(s, "mc"); outf(&s->out, ",\"h\":%d,\"a\":%d,\"rc\":%d", h, k, rc); snap(s, &k, 1);
	} else if (OP("me")) {     /* me h r base exp */
		int h = atoi(t[1]), k[3] = {atoi(t[2]), atoi(t[3]), atoi(t[4])}, rc; LIB(rc = RaMontExpMod(s->mont[h], s->bn[k[0]], s->bn[k[1]], s->bn[k[2]]));
		ev(s, "me"); outf(&s->out, ",\"h\":%d,\"r\":%d,\"a\":%d,\"b\":%d,\"rc\":%d", h, k[0], k[1], k[2], rc); snap(s, k, 3);
	} else if (OP("mx")) {
		int h = atoi(t[1]); LIB(RaMontDestroy(s->mont[h])); s->mont[h] = NULL; ev(s, "mx"); outf(&s->out, ",\"h\":%d", h);
	} else if (OP("pt")) {     /* pt k repeat factor-hint(hex, - none) */
		int k = atoi(t[1]), rep = atoi(t[2]), rc = 0, j, acc = 0, rej = 0, other = 0, l; unsigned char *p = unhex(t[3], &l);
		for (j = 0; j < rep; j++) { LIB(rc = RaIsPrimeNumber(s->bn[k])); if (rc == 0) acc++; else if (rc == RA_ERR_INVALID_DATA) rej++; else { other = rc; break; } }
		ev(s, "pt"); outf(&s->out, ",\"a\":%d,\"rep\":%d,\"acc\":%d,\"rej\":%d,\"other\":%d", k, rep, acc, rej, other); outbytes(&s->out, "f", p, l); snap(s, &k, 1); __real_free(p);
	} else if (OP("pg")) {     /* pg k bits rng stop [value] ; stop -1: no callback; value: what the callback returns to stop */
		int k = atoi(t[1]), b = atoi(t[2]), h = slot(t[3]), rc, j; struct Prog pr; memset(&pr, 0, sizeof pr); pr.s = s; pr.stop = atoi(t[4]); pr.ret = n > 5 ? atoi(t[5]) : 1;
		if (h < 0 && pr.stop < 0) LIB(rc = RaGenPrimeNumber(s->bn[k], b));
		else LIB(rc = RaGenPrimeNumberEx(s->bn[k], b, pr.stop < 0 ? NULL : progress, &pr, h < 0 ? NULL : s->rng[h]));
		ev(s, "pg"); outf(&s->out, ",\"r\":%d,\"bits\":%d,\"h\":%d,\"stop\":%d,\"rc\":%d,\"calls\":%d,\"cnt\":[", k, b, h, pr.stop, rc, pr.n);
		for (j = 0; j < pr.n && j < 4096; j++) outf(&s->out, j ? ",%d" : "%d", pr.cnt[j]);
		outf(&s->out, "]"); snap(s, &k, 1);
	} else if (OP("kc")) {
		int h = atoi(t[1]), b = atoi(t[2]), rc; struct RaRsaKeyPair *x = NULL; LIB(rc = RaRsaCreateKeyPair(b, &x)); s->key[h] = rc == 0 ? x : NULL;
		ev(s, "kc"); outf(&s->out, ",\"h\":%d,\"bits\":%d,\"rc\":%d", h, b, rc);
	} else if (OP("ki")) {     /* ki h kind der : kind pub/priv/any */
		int h = atoi(t[1]), l, rc; unsigned char *p = unhex(t[3], &l); struct RaRsaKeyPair *x = NULL;
		if (heap_on) { rel_on = track_on; rel_n = 0; }   /* heap mode is single-threaded */
		if (!strcmp(t[2], "pub")) LIB(rc = RaRsaCreateKeyPub(p, l, &x)); else if (!strcmp(t[2], "priv")) LIB(rc = RaRsaCreateKeyPriv(p, l, &x)); else LIB(rc = RaRsaCreateKeyFromByteArray(p, l, &x));
		s->key[h] = rc == 0 ? x : NULL;
		ev(s, "ki"); outf(&s->out, ",\"h\":%d,\"kind\":\"%s\",\"rc\":%d", h, t[2], rc); outbytes(&s->out, "in", p, l); __real_free(p);
		if (rel_on && rc != 0) outbytes(&s->out, "rel", rel, rel_n);
		if (heap_on) rel_on = 0;
	} else if (OP("ke")) {     /* ke h kind buflen(-1 NULL) [-]: no place for the length */
		int h = atoi(t[1]), l = atoi(t[3]), rc, rl = -7, nl = t[4] && t[4][0] == '-', *rp = nl ? NULL : &rl; unsigned char *o = newout((l < 0 ? 0 : l) + 32);
		if (!strcmp(t[2], "priv")) LIB(rc = RaRsaPrivKeyToByteArray(s->key[h], l < 0 ? NULL : o, l < 0 ? 0 : l, rp)); else LIB(rc = RaRsaPubKeyToByteArray(s->key[h], l < 0 ? NULL : o, l < 0 ? 0 : l, rp));
		ev(s, "ke"); outf(&s->out, ",\"h\":%d,\"kind\":\"%s\",\"n\":%d,\"rc\":%d,\"rl\":%d,\"nl\":%d,\"last\":%ld", h, t[2], l, rc, rl, nl, lastmod(o, (l < 0 ? 0 : l) + 32));
		outbytes(&s->out, "out", o, rc != 0 || l < 0 || (rl < 0 && !nl) ? 0 : rl > l || nl ? l : rl); __real_free(o);
	} else if (OP("kex")) {    /* export at exactly the length the query reports, relative delta: kex h kind delta */
		int h = atoi(t[1]), rc, rl = -7, l; unsigned char *o;
		if (!strcmp(t[2], "priv")) LIB(rc = RaRsaPrivKeyToByteArray(s->key[h], NULL, 0, &rl)); else LIB(rc = RaRsaPubKeyToByteArray(s->key[h], NULL, 0, &rl));
		ev(s, "ke"); outf(&s->out, ",\"h\":%d,\"kind\":\"%s\",\"n\":-1,\"rc\":%d,\"rl\":%d,\"nl\":0,\"last\":0,\"out\":[]", h, t[2], rc, rl);
		heapEv(s, a0, f0); outf(&s->out, "}");
		if (heap_on) { a0 = n_alloc; f0 = n_free; failed = 0; }
		if (rc == 0) {
			l = rl + atoi(t[3]); if (l < 0) l = 0; o = newout(l + 32); rl = -7;
			if (!strcmp(t[2], "priv")) LIB(rc = RaRsaPrivKeyToByteArray(s->key[h], o, l, &rl)); else LIB(rc = RaRsaPubKeyToByteArray(s->key[h], o, l, &rl));
			ev(s, "ke"); outf(&s->out, ",\"h\":%d,\"kind\":\"%s\",\"n\":%d,\"rc\":%d,\"rl\":%d,\"nl\":0,\"last\":%ld", h, t[2], l, rc, rl, lastmod(o, l + 32));
			outbytes(&s->out, "out", o, rc != 0 || rl < 0 ? 0 : rl > l ? l : rl); __real_free(o);
		} else { ev(s, "nop"); }
	} else if (OP("kn")) {     /* kn h enc/dec/sign in out */
		int h = atoi(t[1]), k[2] = {atoi(t[3]), atoi(t[4])}, rc; struct RaBigNumber *a = s->bn[k[0]], *r = s->bn[k[1]];
		if (!strcmp(t[2], "enc")) LIB(rc = RaRsaEncrypt(s->key[h], a, r)); else if (!strcmp(t[2], "dec")) LIB(rc = RaRsaDecrypt(s->key[h], a, r)); else LIB(rc = RaRsaSign(s->key[h], a, r));
		ev(s, "kn"); outf(&s->out, ",\"h\":%d,\"f\":\"%s\",\"a\":%d,\"r\":%d,\"rc\":%d", h, t[2], k[0], k[1], rc); snap(s, k, 2);
	} else if (OP("kv")) {     /* kv h signature message */
		int h = atoi(t[1]), k[2] = {atoi(t[2]), atoi(t[3])}, rc; LIB(rc = RaRsaVerify(s->key[h], s->bn[k[0]], s->bn[k[1]]));
		ev(s, "kv"); outf(&s->out, ",\"h\":%d,\"a\":%d,\"b\":%d,\"rc\":%d", h, k[0], k[1], rc); snap(s, k, 2);
	} else if (OP("kk")) {
		int h = atoi(t[1]), rc; LIB(rc = RaRsaVerifyKey(s->key[h])); ev(s, "kk"); outf(&s->out, ",\"h\":%d,\"rc\":%d", h, rc);
	} else if (OP("kb")) {
		int h = atoi(t[1]), rc; LIB(rc = RaRsaKeyBitLength(s->key[h])); ev(s, "kb"); outf(&s->out, ",\"h\":%d,\"rc\":%d", h, rc);
	} else if (OP("nx")) {     /* destroying what was never created */
		LIB(RaAesDestroy(NULL)); LIB(RaDesDestroy(NULL)); LIB(RaSeedDestroy(NULL)); LIB(RaAriaDestroy(NULL)); LIB(RaBlowfishDestroy(NULL)); LIB(RaRc4Destroy(NULL));
		LIB(RaMd2Destroy(NULL)); LIB(RaMd4Destroy(NULL)); LIB(RaMd5Destroy(NULL)); LIB(RaSha1Destroy(NULL)); LIB(RaSha2Destroy(NULL)); LIB(RaHas160Destroy(NULL));
		LIB(RaRandomDestroy(NULL)); LIB(RaMontDestroy(NULL)); LIB(RaRsaDestroyKeyPair(NULL)); LIB(BnFree(NULL)); LIB(BnClearFree(NULL));
		ev(s, "nop");
	} else if (OP("kx")) {
		int h = atoi(t[1]); LIB(RaRsaDestroyKeyPair(s->key[h])); s->key[h] = NULL; ev(s, "kx"); outf(&s->out, ",\"h\":%d", h);
	} else { fprintf(stderr, "bad command %s\n", t[0]); exit(3); }
	heapEv(s, a0, f0);
	outf(&s->out, "}");
	if (heap_on) fail_at = 0;
}

/* ---- sessions ---- */
struct Sess { int sid; char **ln; int n, cap; struct St st; int pos; char *res; };
static struct Sess *S; static int nS;
static void begin(struct Sess *x) {
	memset(&x->st, 0, sizeof x->st); x->st.first = 1; x->pos = 0;
	outf(&x->st.out, "{\"sid\":%d,\"wb\":%d,\"ev\":[", x->sid, BN_WORD_BYTE);
}
static void step(struct Sess *x) { char *l = strdup(x->ln[x->pos++]); run(&x->st, l); __real_free(l); }
static void cleanup(struct Sess *x) {
	struct St *s = &x->st; int i;
	for (i = 0; i < NC; i++) {
		struct Cip *c = &s->c[i];
		if (c->ctx) DISP(Destroy, c->ctx);
		if (s->d[i].ctx) digDestroy(&s->d[i]);
		if (s->r4[i]) LIB(RaRc4Destroy(s->r4[i]));
		if (s->rng[i]) LIB(RaRandomDestroy(s->rng[i]));
		if (s->mont[i]) LIB(RaMontDestroy(s->mont[i]));
		if (s->key[i]) LIB(RaRsaDestroyKeyPair(s->key[i]));
	}
	for (i = 0; i < NBN; i++) if (s->bn[i]) LIB(BnFree(s->bn[i]));
	if (heap_on) {   /* forget what leaked */
		while (blks) { struct Blk *b = blks; blks = b->next; if (b->before) __real_free(b->before); __real_free(b); }
	}
}
static void finish(struct Sess *x, FILE *o) {
	outf(&x->st.out, "]}\n");
	if (o && (!x->res || strcmp(x->res, x->st.out.p) != 0)) { fputs(x->st.out.p, o); fflush(o); }
	if (!x->res) x->res = x->st.out.p; else __real_free(x->st.out.p);
	x->st.out.p = NULL;
	cleanup(x);
}
static pthread_barrier_t bar;
static void *thr(void *a) {
	struct Sess *x = a;
	begin(x);
	pthread_barrier_wait(&bar);
	while (x->pos < x->n) step(x);
	return NULL;
}
int main(int ac, char **av) {
	FILE *f, *o; char *line = NULL; size_t cap = 0; ssize_t l; int i, j, threads = 0, inter = 0, rep = 1, r; unsigned long seed = 0;
	if (ac < 3) return 3;
	for (i = 3; i < ac; i++) {
		if (!strcmp(av[i], "-m")) heap_on = track_on = 1;
		else if (!strcmp(av[i], "-t")) threads = atoi(av[++i]);
		else if (!strcmp(av[i], "-i")) { inter = 1; seed = strtoul(av[++i], NULL, 10); }
		else if (!strcmp(av[i], "-r")) rep = atoi(av[++i]);
	}
	f = fopen(av[1], "r"); o = fopen(av[2], "w");
	if (!f || !o) { perror("open"); return 3; }
	while ((l = getline(&line, &cap, f)) > 0) {
		if (line[0] == 'S' && line[1] == ' ') {
			S = __real_realloc(S, sizeof *S * (nS + 1)); memset(&S[nS], 0, sizeof *S); S[nS++].sid = atoi(line + 2);
		} else if (nS && line[0] != '\n' && line[0] != '#') {
			struct Sess *x = &S[nS - 1];
			if (x->n == x->cap) { x->cap = x->cap * 2 + 8; x->ln = __real_realloc(x->ln, sizeof(char *) * x->cap); }
			x->ln[x->n++] = strdup(line);
		}
	}
	for (r = 0; r < rep; r++) {
		if (threads) {
			for (i = 0; i < nS; i += threads) {
				int k = nS - i < threads ? nS - i : threads; pthread_t th[64];
				pthread_barrier_init(&bar, NULL, k);
				for (j = 0; j < k; j++) pthread_create(&th[j], NULL, thr, &S[i + j]);
				for (j = 0; j < k; j++) pthread_join(th[j], NULL);
				pthread_barrier_destroy(&bar);
				for (j = 0; j < k; j++) finish(&S[i + j], o);
			}
		} else if (inter) {
			int left = 0;
			for (i = 0; i < nS; i++) { begin(&S[i]); left += S[i].n; }
			while (left) {
				seed = seed * 6364136223846793005ul + 1442695040888963407ul;
				i = (int)((seed >> 33) % nS);
				while (S[i].pos >= S[i].n) i = (i + 1) % nS;
				step(&S[i]); left--;
			}
			for (i = 0; i < nS; i++) finish(&S[i], o);
		} else for (i = 0; i < nS; i++) {
			begin(&S[i]);
			while (S[i].pos < S[i].n) step(&S[i]);
			finish(&S[i], o);
			__real_free(S[i].res); S[i].res = NULL;
		}
	}
	fclose(o);
	return 0;
}
