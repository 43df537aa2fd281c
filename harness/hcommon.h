/* Helpers shared by the drivers: read one case per line, write one JSON line per case. */
#ifndef HCOMMON_H
#define HCOMMON_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static FILE *OUT;

/* The library prints to stdout here and there: keep the protocol on a private descriptor. */
static void h_init(void)
{
	int fd = dup(1);
	OUT = fdopen(fd, "w");
	if (!freopen("/dev/null", "w", stdout))
		exit(3);
	setvbuf(OUT, NULL, _IOFBF, 1 << 16);
}

static int h_hexval(int c)
{
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'f') return c - 'a' + 10;
	return -1;
}

/* "-" is the empty string.  The buffer is exactly as large as the data (plus nothing), so that the
 * address sanitizer sees any access behind its end; with z != 0 a NUL is appended. */
static char *h_hex(const char *h, long *len, int z)
{
	long n = (h[0] == '-') ? 0 : (long)strlen(h) / 2, i;
	char *b = (char *)malloc(n + (z ? 1 : 0) + ((n == 0 && !z) ? 1 : 0));
	for (i = 0; i < n; i++)
		b[i] = (char)(h_hexval(h[2 * i]) * 16 + h_hexval(h[2 * i + 1]));
	if (z) b[n] = 0;
	if (len) *len = n;
	return b;
}

static void h_puthex(const char *b, long n)
{
	long i;
	fputc('"', OUT);
	for (i = 0; i < n; i++)
		fprintf(OUT, "%02x", (unsigned char)b[i]);
	fputc('"', OUT);
}

static void h_putstr(const char *s, long n)
{
	long i;
	fputc('"', OUT);
	for (i = 0; i < n; i++) {
		unsigned char c = (unsigned char)s[i];
		if (c == '"' || c == '\\') fprintf(OUT, "\\%c", c);
		else if (c < 32 || c > 126) fprintf(OUT, "\\u%04x", c);
		else fputc(c, OUT);
	}
	fputc('"', OUT);
}

/* splits in place; returns the number of tokens */
static int h_split(char *s, char **tok, int max)
{
	int n = 0;
	while (*s && n < max) {
		while (*s == ' ') s++;
		if (!*s) break;
		tok[n++] = s;
		while (*s && *s != ' ') s++;
		if (*s) *s++ = 0;
	}
	return n;
}

/* With H_MEM set, "a" holds the memory account before, after each command, and after the cleanup. */
#ifdef __cplusplus
extern "C"
#endif
size_t r_debug_get_allocmem() __attribute__((weak));

/* Calls run(cmd, tokens) for each ';'-separated command of each line. Every line gives {"r":[...]}. */
static void h_loop(void (*begin)(void), void (*run)(int n, char **tok), void (*end)(void))
{
	char *line = NULL;
	size_t cap = 0;
	ssize_t len;
	int mem = getenv("H_MEM") != NULL && r_debug_get_allocmem != NULL;
	long *acc = (long *)malloc(sizeof(long) * 100002), na;
	while ((len = getline(&line, &cap, stdin)) > 0) {
		char *p = line, *q;
		int first = 1;
		while (len > 0 && (line[len - 1] == '\n' || line[len - 1] == '\r')) line[--len] = 0;
		na = 0;
		if (mem) acc[na++] = (long)r_debug_get_allocmem();
		if (begin) begin();
		fprintf(OUT, "{\"r\":[");
		while (p && *p) {
			char *tok[4096];
			int n;
			q = strchr(p, ';');
			if (q) *q++ = 0;
			n = h_split(p, tok, 4096);
			if (n) {
				if (!first) fputc(',', OUT);
				first = 0;
				run(n, tok);
				if (mem && na < 100000) acc[na++] = (long)r_debug_get_allocmem();
			}
			p = q;
		}
		fprintf(OUT, "]");
		if (end) end();
		if (mem) {
			long i;
			acc[na++] = (long)r_debug_get_allocmem();
			fprintf(OUT, ",\"a\":[");
			for (i = 0; i < na; i++) fprintf(OUT, "%s%ld", i ? "," : "", acc[i]);
			fprintf(OUT, "]");
		}
		fprintf(OUT, "}\n");
		fflush(OUT);
	}
	free(acc);
	free(line);
}
#endif
