/* Included by the epilog of generated scanners: tokenises the texts given in hex, one per line. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "rlib/rutf.h"

static void drv_list(rexdfss_t *ss, long n, int accepting)
{
	long k, f = 1;
	printf("[");
	for (k = 0; k < n; k++)
		if (!accepting || ss[k].type == REX_STATETYPE_ACCEPT)
			printf("%s%ld", f ? "" : ",", (long)ss[k].userdata), f = 0;
	printf("]");
}

static int drv_same(rexdfs_t *s)
{
	long k, j = 0;
	for (k = 0; k < (long)s->nsubstates; k++)
		if (ccdfa.substates[s->substates + k].type == REX_STATETYPE_ACCEPT) {
			if (j >= (long)s->naccsubstates || ccdfa.substates[s->substates + k].userdata != ccdfa.accsubstates[s->accsubstates + j].userdata)
				return 0;
			j++;
		}
	return j == (long)s->naccsubstates;
}

int main(int argc, char **argv)
{
	static char line[1 << 20];
	rexdfa_t *dfa = &ccdfa;
	while (fgets(line, sizeof(line), stdin)) {
		long len = strspn(line, "0123456789abcdef") / 2, k, p = 0, inc, first = 1;
		unsigned char *b = malloc(len + 1);
		for (k = 0; k < len; k++) {
			unsigned v;
			sscanf(line + 2 * k, "%2x", &v);
			b[k] = v;
		}
		printf("[");
		while (p < len) {
			long q = p, end = 0, st = REX_DFA_STARTSTATE, best = 0;
			ruint32 wc;
			while ((inc = r_utf8_mbtowc(&wc, b + q, b + len)) > 0) {
				REX_DFA_NEXT(dfa, st, wc, &st);
				if (st == REX_DFA_DEADSTATE) break;
				q += inc;
				if (REX_DFA_STATE(dfa, st)->type == REX_STATETYPE_ACCEPT) end = q, best = st;
			}
			if (!first) printf(",");
			first = 0;
			if (end) {
				rexdfs_t *s = REX_DFA_STATE(dfa, best);
				printf("[%ld,", end - p);
				drv_list(REX_DFA_ACCSUBSTATE(dfa, best, 0), s->naccsubstates, 0);
				if (argc > 1 && !drv_same(s)) printf(",\"substates differ\"");
				printf("]");
				p = end;
			} else {
				inc = r_utf8_mbtowc(&wc, b + p, b + len);
				printf("[%ld,[]]", inc);
				p += inc;
			}
		}
		printf("]\n");
		free(b);
	}
	return 0;
}
