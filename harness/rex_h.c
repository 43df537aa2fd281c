/* Driver of the regular expression engine. Texts are given in hex.
 *   bl H | add H UD | addp H UD PREV | sim H | dfa SUB | dsim H | walk H | re K H | m K ENC H | s K ENC H | del K */
#include "rlib/rmem.h"
#include "rlib/rutf.h"
#include "rex/rexdb.h"
#include "rex/rexdfa.h"
#include "rex/rexregex.h"
#include "rex/rexnfasimulator.h"
#include "rex/rexdfasimulator.h"
#include "hcommon.h"

#define NRE 8
static rexdb_t *N, *D;
static rexdfa_t *F;
static long start;
static rex_nfasimulator_t *SI;
static rex_dfasimulator_t *DI;
static rexregex_t *R[NRE];

static void begin(void)
{
	N = rex_db_create(REXDB_TYPE_NFA);
	start = -1;
}

static void end(void)
{
	int i;
	for (i = 0; i < NRE; i++)
		if (R[i]) rex_regex_destroy(R[i]), R[i] = NULL;
	rex_dfa_destroy(F), F = NULL;
	rex_db_destroy(D), D = NULL;
	rex_db_destroy(N), N = NULL;
	rex_nfasimulator_destroy(SI), SI = NULL;
	rex_dfasimulator_destroy(DI), DI = NULL;
}

static long clip(rexchar_t c) { return c > 0x7fffffff ? 0x7fffffffL : (long)c; }

/* user data wider than an int, so that losing a half of it shows */
static rexuserdata_t wide(long u) { return ((rexuserdata_t)u << 40) + (rexuserdata_t)u; }
static long narrow(rexuserdata_t x) { return wide((long)(x & 0xffffff)) == x ? (long)(x & 0xffffff) : -1; }

static void accs(long q)
{
	rexdfss_t *ss;
	long k;
	fprintf(OUT, "[");
	for (k = 0; (ss = rex_dfa_accsubstate(F, q, k)) != NULL; k++)
		fprintf(OUT, "%s%ld", k ? "," : "", narrow(ss->userdata));
	fprintf(OUT, "]");
}

static void dump(void)
{
	long q, k;
	rexdfs_t *s;
	rexdft_t *t;
	rexdfss_t *ss;
	fprintf(OUT, "[");
	for (q = 0; (s = rex_dfa_state(F, q)) != NULL; q++) {
		fprintf(OUT, "%s{\"type\":%ld,\"tr\":[", q ? "," : "", (long)s->type);
		for (k = 0; (t = rex_dfa_transition(F, q, k)) != NULL; k++)
			fprintf(OUT, "%s[%ld,%ld,%ld]", k ? "," : "", clip(t->lowin), clip(t->highin), (long)t->state);
		fprintf(OUT, "],\"acc\":");
		accs(q);
		fprintf(OUT, ",\"sub\":[");
		{
			int first = 1;
			for (k = 0; (ss = rex_dfa_substate(F, q, k)) != NULL; k++)
				if (ss->type == REX_STATETYPE_ACCEPT) fprintf(OUT, "%s%ld", first ? "" : ",", narrow(ss->userdata)), first = 0;
		}
		fprintf(OUT, "]}");
	}
	fprintf(OUT, "]");
}

static void run(int n, char **t)
{
	long len = 0, k, j;
	char *b = NULL;
	const char *c = t[0];
	if (!strcmp(c, "bl")) {
		b = h_hex(t[1], &len, 0);
		fprintf(OUT, "%ld", rex_db_setblanks(N, b, len));
	} else if (!strcmp(c, "add") || !strcmp(c, "addp")) {
		long r, prev = c[3] ? atol(t[3]) : start;
		b = h_hex(t[1], &len, 0);
		r = rex_db_addexpression(N, prev, b, len, wide(atol(t[2])));
		if (r >= 0) start = r;
		fprintf(OUT, "[%ld,%ld]", r, (long)rex_db_numstates(N));
	} else if (!strcmp(c, "sim")) {
		size_t r = 0;
		b = h_hex(t[1], &len, 0);
		if (!SI) SI = rex_nfasimulator_create();
		if (start >= 0) r = rex_nfasimulator_run(SI, N, start, b, len);
		fprintf(OUT, "[");
		for (k = 0; k < (long)r; k++) {
			rex_accept_t *a = (rex_accept_t *)r_array_slot(SI->accepts, k);
			fprintf(OUT, "%s[%ld,%ld,%ld]", k ? "," : "", (long)a->count, (long)a->inputsize, narrow(a->state->userdata));
		}
		fprintf(OUT, "]");
	} else if (!strcmp(c, "dfa")) {
		rex_dfa_destroy(F);
		rex_db_destroy(D);
		D = NULL, F = NULL;
		if (start < 0) { fprintf(OUT, "null"); return; }
		D = rex_db_createdfa(N, start);
		F = rex_db_todfa(D, atoi(t[1]));
		dump();
	} else if (!strcmp(c, "dsim")) {
		size_t r;
		if (!F) { fprintf(OUT, "null"); return; }
		b = h_hex(t[1], &len, 0);
		if (!DI) DI = rex_dfasimulator_create();
		r = rex_dfasimulator_run(DI, D, REX_DFA_STARTSTATE, b, len);
		fprintf(OUT, "{\"ret\":%ld,\"acc\":[", (long)r);
		for (k = 0; k < (long)r_array_length(DI->accepts); k++) {
			rex_accept_t *a = (rex_accept_t *)r_array_slot(DI->accepts, k);
			fprintf(OUT, "%s[%ld,%ld,", k ? "," : "", (long)a->count, (long)a->inputsize);
			accs(a->state->uid);
			fprintf(OUT, "]");
		}
		fprintf(OUT, "]}");
	} else if (!strcmp(c, "walk")) {
		long q = REX_DFA_STARTSTATE, p = 0, inc;
		ruint32 wc;
		int first = 1;
		if (!F) { fprintf(OUT, "null"); return; }
		b = h_hex(t[1], &len, 0);
		fprintf(OUT, "[");
		while ((inc = r_utf8_mbtowc(&wc, (unsigned char *)b + p, (unsigned char *)b + len)) > 0) {
			rexdfa_t *f = F;
			REX_DFA_NEXT(f, q, wc, &q);
			if (q != (long)rex_dfa_next(F, first ? REX_DFA_STARTSTATE : j, wc)) { fprintf(OUT, "\"macro and function differ\""); break; }
			j = q;
			p += inc;
			if (!first) fputc(',', OUT);
			first = 0;
			if (REX_DFA_STATE(F, q)->type == REX_STATETYPE_ACCEPT) accs(q);
			else fprintf(OUT, "[]");
		}
		fprintf(OUT, "]");
	} else if (!strcmp(c, "re")) {
		k = atol(t[1]);
		b = h_hex(t[2], &len, 0);
		if (R[k]) rex_regex_destroy(R[k]);
		R[k] = rex_regex_create(b, len);
		fprintf(OUT, "%d", R[k] != NULL);
	} else if (!strcmp(c, "m") || !strcmp(c, "s")) {
		const char *w = NULL;
		int r;
		k = atol(t[1]);
		b = h_hex(t[3], &len, 0);
		if (!R[k]) fprintf(OUT, "-9");
		else if (c[0] == 'm') fprintf(OUT, "%d", rex_regex_match(R[k], atoi(t[2]), b, b + len));
		else {
			r = rex_regex_scan(R[k], atoi(t[2]), b, b + len, &w);
			fprintf(OUT, "[%ld,%d]", r > 0 ? (long)(w - b) : 0, r);
			if (rex_regex_scan(R[k], atoi(t[2]), b, b + len, NULL) != r) fprintf(OUT, ",\"differs without where\"");
		}
	} else if (!strcmp(c, "del")) {
		k = atol(t[1]);
		rex_regex_destroy(R[k]);
		R[k] = NULL;
		fprintf(OUT, "0");
	} else exit(5);
	free(b);
}

int main(void)
{
	h_init();
	h_loop(begin, run, end);
	return 0;
}
