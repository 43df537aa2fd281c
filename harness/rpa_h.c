/* Driver for the RPA engine: grammar databases, sessions, records. Public interface only. */
#include "hcommon.h"
#include <pthread.h>
#include "rlib/rmem.h"
#include "rlib/robject.h"
#include "rlib/rarray.h"
#include "rpa/rpadbex.h"
#include "rpa/rpastat.h"
#include "rpa/rparecord.h"
#include "rpa/rpaerror.h"

void rpa_stat_cachedisable(rpastat_t *stat, unsigned int disable);


#define ND 8
#define NS 8
static rpadbex_t *D[ND];
static rpastat_t *S[NS];
static int SD[NS];
static rarray_t *R[NS];
static char *IN[NS];
static char *SIN;	/* shared input */

static void end_case(void)
{
	int i;
	for (i = 0; i < NS; i++) {
		if (R[i]) r_object_destroy((robject_t *)R[i]);
		if (S[i]) rpa_stat_destroy(S[i]);
		free(IN[i]);
		R[i] = NULL; S[i] = NULL; IN[i] = NULL;
	}
	for (i = 0; i < ND; i++) {
		if (D[i]) rpa_dbex_destroy(D[i]);
		D[i] = NULL;
	}
}

static void puterr(long rc, rpa_errinfo_t *e)
{
	fprintf(OUT, "{\"rc\":%ld,\"mask\":%lu,\"code\":%ld,\"off\":%ld,\"line\":%ld,\"uid\":%ld,\"name\":",
		rc, e->mask, e->code, e->offset, e->line, e->ruleuid);
	h_putstr(e->name, strnlen(e->name, sizeof(e->name)));
	fprintf(OUT, "}");
}

static void putrecs(int s, const char *base)
{
	long i, n = R[s] ? (long)r_array_length(R[s]) : 0;
	fprintf(OUT, "[");
	for (i = 0; i < n; i++) {
		rparecord_t *r = (rparecord_t *)r_array_slot(R[s], i);
		fprintf(OUT, "%s[%u,%u,%u,%lu,%lu,%ld,%u,", i ? "," : "", r->type, r->ruleid, r->ruleuid,
			r->inputoff, r->inputsiz, (long)(r->input - base), r->usertype);
		h_putstr(r->rule, strlen(r->rule));
		fprintf(OUT, "]");
	}
	fprintf(OUT, "]");
}

static rparule_t rid_of(int s, const char *t)
{
	if (t[0] == '=') {
		long n;
		char *b = h_hex(t + 1, &n, 0);
		rparule_t r = rpa_dbex_lookup(D[SD[s]], b, (unsigned int)n);
		free(b);
		return r;
	}
	if (t[0] == 'L')
		return rpa_dbex_last(D[SD[s]]);
	if (t[0] == 'F')
		return rpa_dbex_first(D[SD[s]]);
	return atol(t);
}

static long cmpwalk(rarray_t *records, rparecord_t *rec, long n, rpointer ud)
{
	fprintf(OUT, "%s%ld", *(int *)ud ? "," : "", n);
	*(int *)ud = 1;
	return 0;
}

static long walkfn(rarray_t *records, long rec, rpointer ud)
{
	fprintf(OUT, "%s%ld", *(int *)ud ? "," : "", rec);
	*(int *)ud = 1;
	return 0;
}

/* Threads: each with a session of its own on one database, all running at the same time. */
typedef struct {
	int d, njobs, iters, bad;
	long *rid, *off;
	unsigned *enc;
	char **in;
	long *len;
	char **first;
	char *badtext;
} thr_t;
static int thr_go;

static char *thr_one(rpastat_t *st, rarray_t *recs, thr_t *x, int j)
{
	char *buf = NULL;
	size_t sz = 0;
	FILE *f;
	long ret, i;
	r_array_setlength(recs, 0);
	ret = rpa_stat_parse(st, x->rid[j], x->enc[j], x->in[j], x->in[j], x->in[j] + x->len[j], recs);
	f = open_memstream(&buf, &sz);
	fprintf(f, "[%ld,[", ret);
	for (i = 0; ret >= 0 && i < (long)r_array_length(recs); i++) {
		rparecord_t *r = (rparecord_t *)r_array_slot(recs, i);
		fprintf(f, "%s[%u,%u,%u,%lu,%lu]", i ? "," : "", r->type, r->ruleid, r->ruleuid, r->inputoff, r->inputsiz);
	}
	fprintf(f, "],%ld]", ret < 0 ? rpa_stat_lasterror(st) : 0L);
	fclose(f);
	return buf;
}

static void *thr_main(void *p)
{
	thr_t *x = (thr_t *)p;
	int i, j;
	rpastat_t *st = rpa_stat_create(D[x->d], 0);
	rarray_t *recs = (rarray_t *)r_array_create(sizeof(rparecord_t));
	while (!__atomic_load_n(&thr_go, __ATOMIC_ACQUIRE))
		;
	for (i = 0; i < x->iters; i++) {
		for (j = 0; j < x->njobs; j++) {
			char *r = thr_one(st, recs, x, j);
			if (i == 0) {
				x->first[j] = r;
			} else {
				if (strcmp(r, x->first[j]) && !x->bad++)
					x->badtext = strdup(r);
				free(r);
			}
		}
	}
	r_object_destroy((robject_t *)recs);
	rpa_stat_destroy(st);
	return NULL;
}

/* thr D ITERS THREADS JOBS then JOBS times RID ENC INPUT; every thread starts at another job */
static void thr_run(int n, char **t)
{
	int d = atoi(t[1]), iters = atoi(t[2]), k = atoi(t[3]), jobs = atoi(t[4]), i, j;
	pthread_t *th = (pthread_t *)calloc(k, sizeof(*th));
	thr_t *x = (thr_t *)calloc(k, sizeof(*x));
	(void)n;
	thr_go = 0;
	for (i = 0; i < k; i++) {
		x[i].d = d; x[i].iters = iters; x[i].njobs = jobs;
		x[i].rid = calloc(jobs, sizeof(long)); x[i].enc = calloc(jobs, sizeof(unsigned));
		x[i].in = calloc(jobs, sizeof(char *)); x[i].len = calloc(jobs, sizeof(long)); x[i].first = calloc(jobs, sizeof(char *));
		for (j = 0; j < jobs; j++) {
			int s = (j + i) % jobs;
			x[i].rid[j] = atol(t[5 + 3 * s]);
			x[i].enc[j] = (unsigned)atol(t[6 + 3 * s]);
			x[i].in[j] = h_hex(t[7 + 3 * s], &x[i].len[j], 0);
		}
		pthread_create(&th[i], NULL, thr_main, &x[i]);
	}
	__atomic_store_n(&thr_go, 1, __ATOMIC_RELEASE);
	fprintf(OUT, "[");
	for (i = 0; i < k; i++) {
		pthread_join(th[i], NULL);
		fprintf(OUT, "%s{\"bad\":%d,\"badtext\":%s,\"r\":[", i ? "," : "", x[i].bad, x[i].badtext ? x[i].badtext : "[]");
		for (j = 0; j < jobs; j++) {
			int s = (j + jobs - i % jobs) % jobs;	/* in the order of the jobs */
			fprintf(OUT, "%s%s", j ? "," : "", x[i].first[s]);
		}
		fprintf(OUT, "]}");
	}
	fprintf(OUT, "]");
	for (i = 0; i < k; i++) {
		for (j = 0; j < jobs; j++) { free(x[i].in[j]); free(x[i].first[j]); }
		free(x[i].rid); free(x[i].enc); free(x[i].in); free(x[i].len); free(x[i].first); free(x[i].badtext);
	}
	free(x); free(th);
}

static void run(int n, char **t)
{
	const char *c = t[0];
	int a = n > 1 ? atoi(t[1]) : 0;
	long len;
	char *b;
	(void)cmpwalk;
	if (!strcmp(c, "new")) {
		D[a] = rpa_dbex_create();
		fprintf(OUT, "%d", D[a] != NULL);
	} else if (!strcmp(c, "del")) {
		rpa_dbex_destroy(D[a]); D[a] = NULL;
		fprintf(OUT, "0");
	} else if (!strcmp(c, "open")) {
		fprintf(OUT, "%d", rpa_dbex_open(D[a]));
	} else if (!strcmp(c, "close")) {
		rpa_dbex_close(D[a]);
		fprintf(OUT, "0");
	} else if (!strcmp(c, "comp")) {
		fprintf(OUT, "%d", rpa_dbex_compile(D[a]));
	} else if (!strcmp(c, "load")) {
		b = h_hex(t[2], &len, 0);
		fprintf(OUT, "%ld", rpa_dbex_load(D[a], b, (unsigned long)len));
		free(b);
	} else if (!strcmp(c, "loads")) {
		b = h_hex(t[2], &len, 1);
		fprintf(OUT, "%ld", rpa_dbex_load_s(D[a], b));
		free(b);
	} else if (!strcmp(c, "cfg")) {
		fprintf(OUT, "%ld", rpa_dbex_cfgset(D[a], strtoul(t[2], 0, 10), strtoul(t[3], 0, 10)));
	} else if (!strcmp(c, "cfgget")) {
		fprintf(OUT, "%ld", rpa_dbex_cfgget(D[a], strtoul(t[2], 0, 10)));
	} else if (!strcmp(c, "err")) {
		rpa_errinfo_t e;
		long rc;
		memset(&e, 0, sizeof(e));
		rc = rpa_dbex_lasterrorinfo(D[a], &e);
		puterr(rc, &e);
	} else if (!strcmp(c, "errc")) {
		fprintf(OUT, "%ld", rpa_dbex_lasterror(D[a]));
	} else if (!strcmp(c, "lookup")) {
		b = h_hex(t[2], &len, 0);
		fprintf(OUT, "%ld", rpa_dbex_lookup(D[a], b, (unsigned int)len));
		free(b);
	} else if (!strcmp(c, "lookups")) {
		b = h_hex(t[2], &len, 1);
		fprintf(OUT, "%ld", rpa_dbex_lookup_s(D[a], b));
		free(b);
	} else if (!strcmp(c, "first")) {
		fprintf(OUT, "%ld", rpa_dbex_first(D[a]));
	} else if (!strcmp(c, "last")) {
		fprintf(OUT, "%ld", rpa_dbex_last(D[a]));
	} else if (!strcmp(c, "next")) {
		fprintf(OUT, "%ld", rpa_dbex_next(D[a], atol(t[2])));
	} else if (!strcmp(c, "prev")) {
		fprintf(OUT, "%ld", rpa_dbex_prev(D[a], atol(t[2])));
	} else if (!strcmp(c, "table")) {
		/* the whole rule table, walked forward, then backward */
		rparule_t r;
		int first = 1;
		long cnt = 0;
		fprintf(OUT, "{\"f\":[");
		for (r = rpa_dbex_first(D[a]); r >= 0 && cnt < 1000; r = rpa_dbex_next(D[a], r), cnt++) {
			const char *nm = rpa_dbex_name(D[a], r);
			long sl = rpa_dbex_strlen(D[a], r), sc;
			char *buf;
			fprintf(OUT, "%s{\"id\":%ld,\"name\":", first ? "" : ",", r);
			if (nm) h_putstr(nm, strlen(nm)); else fprintf(OUT, "\"?\"");
			buf = (char *)malloc(sl > 0 ? sl + 1 : 1);
			memset(buf, 1, sl > 0 ? sl + 1 : 1);
			sc = rpa_dbex_strncpy(D[a], buf, r, sl > 0 ? sl + 1 : 1);
			fprintf(OUT, ",\"len\":%ld,\"cpy\":%ld,\"text\":", sl, sc);
			h_puthex(buf, sl > 0 ? strnlen(buf, sl) : 0);
			free(buf);
			fprintf(OUT, "}");
			first = 0;
		}
		fprintf(OUT, "],\"b\":[");
		first = 1; cnt = 0;
		for (r = rpa_dbex_last(D[a]); r >= 0 && cnt < 1000; r = rpa_dbex_prev(D[a], r), cnt++) {
			fprintf(OUT, "%s%ld", first ? "" : ",", r);
			first = 0;
		}
		fprintf(OUT, "],\"first\":%ld,\"last\":%ld}", rpa_dbex_first(D[a]), rpa_dbex_last(D[a]));
	} else if (!strcmp(c, "name")) {
		const char *nm = rpa_dbex_name(D[a], atol(t[2]));
		if (nm) h_putstr(nm, strlen(nm)); else fprintf(OUT, "0");
	} else if (!strcmp(c, "cpy")) {
		long sz = atol(t[3]), sc;
		char *buf = (char *)malloc(sz ? sz : 1);
		memset(buf, 'Z', sz ? sz : 1);
		sc = rpa_dbex_strncpy(D[a], buf, atol(t[2]), sz);
		fprintf(OUT, "[%ld,", sc);
		h_puthex(buf, sz);
		fprintf(OUT, "]");
		free(buf);
	} else if (!strcmp(c, "exe")) {
		fprintf(OUT, "%d", rpa_dbex_executable(D[a]) != NULL);
	} else if (!strcmp(c, "exeoff")) {
		fprintf(OUT, "%d", rpa_dbex_executableoffset(D[a], atol(t[2])) >= 0);
	} else if (!strcmp(c, "st")) {
		SD[a] = atoi(t[2]);
		S[a] = rpa_stat_create(D[SD[a]], n > 3 ? strtoul(t[3], 0, 10) : 0);
		R[a] = (rarray_t *)r_array_create(sizeof(rparecord_t));
		fprintf(OUT, "%d", S[a] != NULL);
	} else if (!strcmp(c, "sdel")) {
		rpa_stat_destroy(S[a]); S[a] = NULL;
		r_object_destroy((robject_t *)R[a]); R[a] = NULL;
		fprintf(OUT, "0");
	} else if (!strcmp(c, "nocache")) {
		rpa_stat_cachedisable(S[a], atoi(t[2]));
		fprintf(OUT, "0");
	} else if (!strcmp(c, "match") || !strcmp(c, "parse") || !strcmp(c, "parsea") || !strcmp(c, "scan") || !strcmp(c, "exec")) {
		/* match S RULE ENC INPUT [OFFSET]; '.' for INPUT keeps the previous one */
		rparule_t rid = rid_of(a, t[2]);
		unsigned enc = (unsigned)strtoul(t[3], 0, 10);
		long off = n > 5 ? atol(t[5]) : 0, ret;
		static long lens[NS];
		if (strcmp(t[4], ".")) {
			if (t[4][0] == '@' && IN[a]) {
				/* new content in the old place (as far as it fits) */
				char *nb = h_hex(t[4] + 1, &len, 0);
				if (len <= lens[a]) {
					memcpy(IN[a], nb, len);
					lens[a] = len;
					free(nb);
				} else {
					free(IN[a]);
					IN[a] = nb;
					lens[a] = len;
				}
			} else {
				free(IN[a]);
				IN[a] = h_hex(t[4][0] == '@' ? t[4] + 1 : t[4], &lens[a], 0);
			}
		}
		b = IN[a]; len = lens[a];
		if (c[0] == 'm') {
			ret = rpa_stat_match(S[a], rid, enc, b + off, b, b + len);
			fprintf(OUT, "%ld", ret);
		} else if (c[0] == 'e') {
			long eo = rpa_dbex_executableoffset(D[SD[a]], rid);
			ret = rpa_stat_exec(S[a], rpa_dbex_executable(D[SD[a]]), eo, enc, b + off, b, b + len, NULL);
			fprintf(OUT, "%ld", ret);
		} else if (c[0] == 'p') {
			if (c[5] != 'a')	/* parsea: append to what is there */
				r_array_setlength(R[a], 0);
			ret = rpa_stat_parse(S[a], rid, enc, b + off, b, b + len, R[a]);
			fprintf(OUT, "[%ld,", ret);
			putrecs(a, b);
			fprintf(OUT, "]");
		} else {
			const char *where = NULL;
			ret = rpa_stat_scan(S[a], rid, enc, b + off, b, b + len, &where);
			fprintf(OUT, "[%ld,%ld]", ret, where ? (long)(where - b) : -1L);
		}
	} else if (!strcmp(c, "scanall")) {
		/* repeated scanning, each from the end of the previous match */
		rparule_t rid = rid_of(a, t[2]);
		unsigned enc = (unsigned)strtoul(t[3], 0, 10);
		long ret, cnt = 0, off = 0;
		free(IN[a]);
		b = IN[a] = h_hex(t[4], &len, 0);
		fprintf(OUT, "[");
		for (;;) {
			const char *where = NULL;
			ret = rpa_stat_scan(S[a], rid, enc, b + off, b, b + len, &where);
			if (ret <= 0 || cnt > 200)
				break;
			fprintf(OUT, "%s[%ld,%ld]", cnt ? "," : "", (long)(where - b), ret);
			off = (long)(where - b) + ret;
			cnt++;
		}
		fprintf(OUT, "%s[-1,%ld]]", cnt ? "," : "", ret);
	} else if (!strcmp(c, "serr")) {
		rpa_errinfo_t e;
		long rc;
		memset(&e, 0, sizeof(e));
		rc = rpa_stat_lasterrorinfo(S[a], &e);
		puterr(rc, &e);
	} else if (!strcmp(c, "serrc")) {
		fprintf(OUT, "%ld", rpa_stat_lasterror(S[a]));
	} else if (!strcmp(c, "abort")) {
		fprintf(OUT, "%d", rpa_stat_abort(S[a]));
	} else if (!strcmp(c, "nav")) {
		/* every navigation function on every record of the last parse */
		long i, k = (long)r_array_length(R[a]);
		fprintf(OUT, "[");
		for (i = -1; i <= k; i++) {
			rarray_t *x = R[a];
			fprintf(OUT, "%s[%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld]", i >= 0 ? "," : "",
				rpa_recordtree_get(x, i, RPA_RECORD_START), rpa_recordtree_get(x, i, RPA_RECORD_END),
				rpa_recordtree_firstchild(x, i, RPA_RECORD_START), rpa_recordtree_firstchild(x, i, RPA_RECORD_END),
				rpa_recordtree_lastchild(x, i, RPA_RECORD_START), rpa_recordtree_lastchild(x, i, RPA_RECORD_END),
				rpa_recordtree_next(x, i, RPA_RECORD_START), rpa_recordtree_next(x, i, RPA_RECORD_END),
				rpa_recordtree_prev(x, i, RPA_RECORD_START), rpa_recordtree_prev(x, i, RPA_RECORD_END),
				rpa_recordtree_parent(x, i, RPA_RECORD_START), rpa_recordtree_parent(x, i, RPA_RECORD_END),
				rpa_recordtree_size(x, i));
		}
		fprintf(OUT, "]");
	} else if (!strcmp(c, "walk")) {
		int sep = 0;
		long rc;
		fprintf(OUT, "{\"v\":[");
		rc = rpa_recordtree_walk(R[a], atol(t[2]), 0, walkfn, &sep);
		fprintf(OUT, "],\"rc\":%ld}", rc);
	} else if (!strcmp(c, "rcopy")) {
		/* rcopy S REC: copy of the branch into a fresh array */
		rarray_t *dst = (rarray_t *)r_array_create(sizeof(rparecord_t)), *sv = R[a];
		long rc = rpa_recordtree_copy(dst, R[a], atol(t[2]));
		fprintf(OUT, "[%ld,", rc);
		R[a] = dst;
		putrecs(a, IN[a]);
		R[a] = sv;
		fprintf(OUT, "]");
		r_object_destroy((robject_t *)dst);
	} else if (!strcmp(c, "rmove")) {
		/* rmove S DST SRC SIZE on the session's records */
		long rc;
		long dst = atol(t[2]), src = atol(t[3]), sz = atol(t[4]), k = (long)r_array_length(R[a]);
		rarray_t *x = (rarray_t *)r_array_create(sizeof(rparecord_t)), *sv = R[a];
		long i;
		for (i = 0; i < k; i++)
			r_array_add(x, r_array_slot(sv, i));
		rc = rpa_recordtree_move(x, dst, src, sz);
		fprintf(OUT, "[%ld,", rc);
		R[a] = x;
		putrecs(a, IN[a]);
		R[a] = sv;
		fprintf(OUT, "]");
		r_object_destroy((robject_t *)x);
	} else if (!strcmp(c, "settype")) {
		rpa_record_setusertype(R[a], atol(t[2]), (ruint32)strtoul(t[3], 0, 10), (rvalset_t)atoi(t[4])); fprintf(OUT, "0");
	} else if (!strcmp(c, "gettype")) {
		fprintf(OUT, "%ld", rpa_record_getusertype(R[a], atol(t[2])));
	} else if (!strcmp(c, "getuid")) {
		fprintf(OUT, "%ld", rpa_record_getruleuid(R[a], atol(t[2])));
	} else if (!strcmp(c, "recs")) {
		putrecs(a, IN[a]);
	} else if (!strcmp(c, "thr")) {
		thr_run(n, t);
	} else if (!strcmp(c, "mem")) {
		fprintf(OUT, "%lu", (unsigned long)r_debug_get_allocmem());
	} else {
		fprintf(OUT, "\"unknown command\"");
	}
}

int main(void)
{
	h_init();
	h_loop(NULL, run, end_case);
	return 0;
}
