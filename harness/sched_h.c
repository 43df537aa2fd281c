/*
 * Runs threads of library calls under chosen schedules.  The library files are compiled with the hooks of
 * -fsanitize=thread, and the hooks are defined here: before every access to memory another thread may go on.
 * Threads are coroutines, so a schedule is repeated exactly.
 */
#include "hcommon.h"
#include <ucontext.h>
#include "rlib/rref.h"
#include "rlib/rmem.h"
#include "rlib/ratomic.h"
#include "rlib/rspinlock.h"

#define MAXT 4
#define MAXOPS 12
#define STACK 65536
#define SPINLIM 60
#define MAXSTEPS 6000
static ucontext_t mainctx, ctx[MAXT];
static char stacks[MAXT][STACK];
static int nthreads, cur = -1, done[MAXT], started;
static long steps, since;
static struct { long step; int to; } pre[8];
static int npre, prepos, useless;
static int randmode;
static unsigned long rs;

static char kind[8];
static struct { int n; char *op[MAXOPS]; } prog[MAXT];

static struct { int th, ph; char op; long arg, val; } ev[200];
static int nev;
static void event(int th, int ph, char op, long arg, long val)
{
	if (nev < 200) { ev[nev].th = th; ev[nev].ph = ph; ev[nev].op = op; ev[nev].arg = arg; ev[nev].val = val; nev++; }
}

/* memory of the library: only one block is of interest, and it is kept after it was given back */
static char *blk;
static size_t blksize;
static int freed;
rpointer r_malloc(size_t size) { char *p = (char *)malloc(size); if (!blk) { blk = p; blksize = size; freed = 0; } return p; }
rpointer r_zmalloc(size_t size) { rpointer p = r_malloc(size); memset(p, 0, size); return p; }
rpointer r_calloc(size_t n, size_t size) { return r_zmalloc(n * size); }
rpointer r_realloc(rpointer p, size_t size) { return realloc(p, size); }
void r_free(rpointer p) { if (p == blk) { if (freed) event(cur, 3, 'f', 0, 0); freed = 1; } else free(p); }
rpointer r_memset(rpointer s, int c, size_t n) { return memset(s, c, n); }
rpointer r_memcpy(rpointer d, rconstpointer s, size_t n) { return memcpy(d, s, n); }
rpointer r_memmove(rpointer d, rconstpointer s, size_t n) { return memmove(d, s, n); }
size_t r_debug_get_allocmem() { return 0; }
size_t r_debug_get_maxmem() { return 0; }
void r_debug_reset_maxmem() { }

static void go_to(int t)
{
	int me = cur;
	if (t == me) return;
	cur = t;
	since = 0;
	swapcontext(&ctx[me], &ctx[t]);
}

static int other(int from)
{
	int k;
	for (k = 1; k < nthreads; k++)
		if (!done[(from + k) % nthreads]) return (from + k) % nthreads;
	return from;
}

/* the place where another thread may go on */
static void point(const void *a)
{
	if (cur < 0) return;
	steps++;
	since++;
	if (steps > MAXSTEPS) { event(cur, 4, 'h', 0, 0); setcontext(&mainctx); }
	if (randmode) {
		rs = rs * 6364136223846793005ul + 1442695040888963407ul;
		if ((rs >> 33) % 5 == 0) {
			int t = (int)((rs >> 40) % nthreads);
			if (!done[t]) go_to(t);
		}
	} else if (prepos < npre && steps >= pre[prepos].step) {
		int t = pre[prepos++].to;
		if (done[t] || t == cur) useless = 1;
		else go_to(t);
	} else if (since > SPINLIM)
		go_to(other(cur));
	if (freed && (const char *)a >= blk && (const char *)a < blk + blksize) event(cur, 3, 'u', 0, 0);
}

#define RW(n) void __tsan_read##n(void *a) { point(a); } void __tsan_write##n(void *a) { point(a); } \
	void __tsan_unaligned_read##n(void *a) { point(a); } void __tsan_unaligned_write##n(void *a) { point(a); } \
	void __tsan_volatile_read##n(void *a) { point(a); } void __tsan_volatile_write##n(void *a) { point(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { point(a); }
void __tsan_write_range(void *a, unsigned long n) { point(a); }
void __tsan_func_entry(void *p) { }
void __tsan_func_exit(void) { }
void __tsan_init(void) { }
void __tsan_vptr_update(void **a, void *b) { point(a); }
void __tsan_atomic_thread_fence(int mo) { }
void __tsan_atomic_signal_fence(int mo) { }
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int mo) { point((void *)a); return *a; } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { point((void *)a); *a = v; } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { T o; point((void *)a); o = *a; *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { T o; point((void *)a); o = *a; *a = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { T o; point((void *)a); o = *a; *a = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { T o; point((void *)a); o = *a; *a = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { T o; point((void *)a); o = *a; *a = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { T o; point((void *)a); o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { T o; point((void *)a); o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { point((void *)a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { point((void *)a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { T o; point((void *)a); o = *a; if (o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)

/* ---------------------------------------------------------------- the things shared */
static rspinlock_t lock;
static volatile long counter;
static ratomic_t word;
static rref_t *ref;

static void ref_gone(robject_t *o) { event(cur, 2, 'd', 0, 0); r_ref_cleanup(o); }

static void body(int me)
{
	int i, tried = 0;
	for (i = 0; i < prog[me].n; i++) {
		char *o = prog[me].op[i];
		long arg = o[1] ? atol(o + 1) : 0, val = 0;
		if (o[0] == 'V' && !tried) continue;          /* unlock if trying worked */
		if (o[0] == 'K' && !tried) continue;          /* count if trying worked */
		event(me, 0, o[0] == 'V' ? 'U' : o[0] == 'K' ? 'C' : o[0], arg, 0);
		point(NULL);
		switch (o[0]) {
		case 'L': r_spinlock_lock(&lock); break;
		case 'U': case 'V': r_spinlock_unlock(&lock); tried = 0; break;
		case 'T': tried = val = r_spinlock_trylock(&lock) ? 1 : 0; break;
		case 'C': case 'K': val = counter; point((void *)&counter); counter = ++val; break;
		case 'I': val = r_ref_inc(ref); break;
		case 'D': val = r_ref_dec(ref); break;
		case 'G': val = r_ref_get(ref); break;
		case 'a': val = (int)r_atomic_add(&word, arg); break;
		case 's': val = (int)r_atomic_sub(&word, arg); break;
		case 'x': val = (int)r_atomic_exchange(&word, arg); break;
		case 'c': val = r_atomic_compare_and_exchange(&word, arg / 100, arg % 100) ? 1 : 0; break;
		case 'g': val = (int)r_atomic_get(&word); break;
		case 'w': r_atomic_set(&word, arg); break;
		default: exit(5);
		}
		event(me, 1, o[0] == 'V' ? 'U' : o[0] == 'K' ? 'C' : o[0], arg, val);
		point(NULL);
	}
	done[me] = 1;
	for (i = 0; i < nthreads; i++)
		if (!done[(me + 1 + i) % nthreads]) {
			cur = (me + 1 + i) % nthreads;
			since = 0;
			setcontext(&ctx[cur]);
		}
	setcontext(&mainctx);
}

static long one(int first)
{
	volatile int back = 0;
	int i;
	nev = 0; steps = 0; since = 0; prepos = 0; useless = 0;
	blk = NULL; freed = 0;
	cur = -1;
	counter = 0; word = 0;
	r_spinlock_init(&lock);
	ref = NULL;
	if (!strcmp(kind, "ref")) {
		ref = (rref_t *)r_object_create(sizeof(rref_t));
		r_ref_init((robject_t *)ref, R_OBJECT_REF, ref_gone, r_ref_copy, nthreads, RREF_TYPE_SHARED);
	}
	for (i = 0; i < nthreads; i++) {
		done[i] = 0;
		getcontext(&ctx[i]);
		ctx[i].uc_stack.ss_sp = stacks[i];
		ctx[i].uc_stack.ss_size = STACK;
		ctx[i].uc_link = &mainctx;
		makecontext(&ctx[i], (void (*)(void))body, 1, i);
	}
	getcontext(&mainctx);
	if (!back) {
		back = 1;
		cur = first;
		setcontext(&ctx[first]);
	}
	cur = -1;
	if (blk) free(blk), blk = NULL;
	return steps;
}

/* distinct histories, as text */
#define NH 20000
static char *hist[NH];
static unsigned long hsum[1 << 17];
static int nh;
static long nruns;
static void record(void)
{
	static char b[16384];
	char *p = b;
	int i;
	unsigned long h = 1469598103934665603ul, k;
	nruns++;
	*p++ = '[';
	for (i = 0; i < nev; i++)
		p += sprintf(p, "%s[%d,%d,\"%c\",%ld,%ld]", i ? "," : "", ev[i].th, ev[i].ph, ev[i].op, ev[i].arg, ev[i].val);
	*p++ = ']'; *p = 0;
	for (p = b; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ul;
	if (!h) h = 1;
	for (k = h & 0x1ffff; hsum[k]; k = (k + 1) & 0x1ffff)
		if (hsum[k] == h) return;
	if (nh >= NH) return;
	hsum[k] = h;
	hist[nh++] = strdup(b);
}

static long maxruns;
static void explore(int first, int bound, long from)
{
	long s, last;
	int t;
	last = one(first);
	if (useless) return;
	record();
	if (npre >= bound) return;
	for (s = from; s <= last && nruns < maxruns; s++)
		for (t = 0; t < nthreads; t++) {
			pre[npre].step = s;
			pre[npre].to = t;
			npre++;
			explore(first, bound, s + 1);
			npre--;
		}
}

static void run(int n, char **t)
{
	int i;
	if (!strcmp(t[0], "kind")) { strncpy(kind, t[1], 7); nthreads = 0; fprintf(OUT, "0"); }
	else if (!strcmp(t[0], "th")) {
		prog[nthreads].n = 0;
		for (i = 1; i < n && i <= MAXOPS; i++) prog[nthreads].op[prog[nthreads].n++] = strdup(t[i]);
		nthreads++;
		fprintf(OUT, "0");
	}
	else if (!strcmp(t[0], "go")) {           /* go BOUND MAXRUNS RANDOM SEED */
		int bound = atoi(t[1]);
		maxruns = atol(t[2]);
		nruns = 0; nh = 0;
		memset(hsum, 0, sizeof(hsum));
		randmode = 0; npre = 0;
		for (i = 0; i < nthreads; i++) explore(i, bound, 1);
		maxruns += atol(t[3]);
		randmode = 1;
		rs = strtoul(t[4], NULL, 10) * 2654435761ul + 12345;
		for (i = 0; i < atol(t[3]); i++) { one(i % nthreads); record(); }
		fprintf(OUT, "{\"runs\":%ld,\"h\":[", nruns);
		for (i = 0; i < nh; i++) { fprintf(OUT, "%s%s", i ? "," : "", hist[i]); free(hist[i]); }
		fprintf(OUT, "]}");
	}
	else exit(6);
}

int main(void)
{
	h_init();
	h_loop(NULL, run, NULL);
	return 0;
}
