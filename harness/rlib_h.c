/* Driver for the containers, objects, characters and strings of rlib. */
#include "hcommon.h"
#include "rlib/rarray.h"
#include "rlib/rcarray.h"
#include "rlib/rharray.h"
#include "rlib/rhash.h"
#include "rlib/rmap.h"
#include "rlib/rmem.h"
#include "rlib/rstring.h"
#include "rlib/rutf.h"
#include "rlib/rcharconv.h"
#include "rlib/rref.h"
#include "rlib/rgc.h"
#include "rlib/ratomic.h"
#include "rlib/rspinlock.h"
#include <pthread.h>

/* an element of any size carries a value 0..35; 0 is all zeros */
static unsigned char EB[64];
static void *mkel(int v, long elt)
{
	long j;
	for (j = 0; j < elt; j++) EB[j] = (unsigned char)((v * (2 * (j % 4) + 1)) & 255);
	return EB;
}

static int getel(const void *p, long elt)
{
	const unsigned char *b = (const unsigned char *)p;
	long j;
	if (!b) return -3;
	for (j = 0; j < elt; j++)
		if (b[j] != (unsigned char)((b[0] * (2 * (j % 4) + 1)) & 255)) return -2;
	return b[0];
}

static void nums(const long *v, long n)
{
	long i;
	fputc('[', OUT);
	for (i = 0; i < n; i++) fprintf(OUT, "%s%ld", i ? "," : "", v[i]);
	fputc(']', OUT);
}

/* ---------------------------------------------------------------- arrays: two of them */
static rarray_t *A[2];
static void ar(int n, char **t)
{
	int o = atoi(t[1]);
	char *c = t[2];
	long x = n > 3 ? atol(t[3]) : 0, y = n > 4 ? atol(t[4]) : 0, ret = 0, i;
	rarray_t *a = A[o];
	if (!strcmp(c, "new")) { if (a) r_array_destroy(a); A[o] = a = r_array_create(x); }
	else if (!strcmp(c, "add")) ret = r_array_add(a, mkel(x, a->elt_size));
	else if (!strcmp(c, "addz")) ret = r_array_add(a, NULL);
	else if (!strcmp(c, "ins")) ret = r_array_insert(a, x, mkel(y, a->elt_size));
	else if (!strcmp(c, "insz")) ret = r_array_insert(a, x, NULL);
	else if (!strcmp(c, "repl")) ret = r_array_replace(a, x, mkel(y, a->elt_size));
	else if (!strcmp(c, "replz")) ret = r_array_replace(a, x, NULL);
	else if (!strcmp(c, "setlen")) ret = r_array_setlength(a, x);
	else if (!strcmp(c, "rmlast")) ret = r_array_removelast(a);
	else if (!strcmp(c, "del")) r_array_delete(a, x);
	else if (!strcmp(c, "move")) ret = r_array_move(a, x, y, atol(t[5]));
	else if (!strcmp(c, "expand")) r_array_expand(a, x);
	else if (!strcmp(c, "slotset")) r_memcpy(r_array_slot_expand(a, x), mkel(y, a->elt_size), a->elt_size);
	else if (!strcmp(c, "push")) { memset(EB, 0, 8); mkel(x, 4); r_array_push(a, *(unsigned int *)EB, unsigned int); ret = r_array_length(a); }
	else if (!strcmp(c, "pop")) { unsigned int u = r_array_pop(a, unsigned int); ret = getel(&u, 4); }
	else if (!strcmp(c, "last")) { if (r_array_empty(a)) ret = r_array_lastslot(a) ? -4 : -3; else { unsigned int u = r_array_last(a, unsigned int); ret = getel(&u, 4); if (ret != getel(r_array_lastslot(a), 4)) ret = -5; } }
	else if (!strcmp(c, "sort")) r_array_sort(a, unsigned int);
	else if (!strcmp(c, "copy")) { if (A[1 - o]) r_array_destroy(A[1 - o]); A[1 - o] = (rarray_t *)r_array_copy((robject_t *)a); ret = A[1 - o]->elt_size == a->elt_size ? 0 : -9; }
	else if (!strcmp(c, "dump")) {
		fputc('[', OUT);
		for (i = 0; i < (long)r_array_length(a); i++) fprintf(OUT, "%s%d", i ? "," : "", getel(r_array_slot(a, i), a->elt_size));
		fputc(']', OUT);
		return;
	} else exit(5);
	fprintf(OUT, "[%ld,%ld]", ret, (long)r_array_length(a));
}

static rcarray_t *CA[2];
#define NADDR 5000
static void *addr[2][NADDR];
static void cr(int n, char **t)
{
	int o = atoi(t[1]);
	char *c = t[2];
	long x = n > 3 ? atol(t[3]) : 0, y = n > 4 ? atol(t[4]) : 0, ret = 0, i, moved = 0;
	rcarray_t *a = CA[o];
	if (!strcmp(c, "new")) { if (a) r_carray_destroy(a); CA[o] = a = r_carray_create(x); memset(addr[o], 0, sizeof(addr[o])); }
	else if (!strcmp(c, "add")) ret = r_carray_add(a, mkel(x, a->elt_size));
	else if (!strcmp(c, "addz")) ret = r_carray_add(a, NULL);
	else if (!strcmp(c, "repl")) ret = r_carray_replace(a, x, mkel(y, a->elt_size));
	else if (!strcmp(c, "replz")) ret = r_carray_replace(a, x, NULL);
	else if (!strcmp(c, "setlen")) r_carray_setlength(a, x);
	else if (!strcmp(c, "inc")) r_carray_inclength(a);
	else if (!strcmp(c, "expand")) r_carray_checkexpand(a, x);
	else if (!strcmp(c, "slotset")) r_memcpy(r_carray_slot_expand(a, x), mkel(y, a->elt_size), a->elt_size);
	else if (!strcmp(c, "copy")) {
		if (CA[1 - o]) r_carray_destroy(CA[1 - o]);
		CA[1 - o] = (rcarray_t *)r_carray_copy((robject_t *)a);
		memset(addr[1 - o], 0, sizeof(addr[0]));
	} else if (!strcmp(c, "dump")) {
		fputc('[', OUT);
		for (i = 0; i < (long)r_carray_length(a); i++) fprintf(OUT, "%s%d", i ? "," : "", getel(r_carray_slot(a, i), a->elt_size));
		fputc(']', OUT);
		return;
	} else exit(5);
	for (i = 0; i < (long)r_carray_length(a) && i < NADDR; i++) {
		void *p = r_carray_slot(a, i);
		if (addr[o][i] && addr[o][i] != p) moved++;
		addr[o][i] = p;
	}
	if (r_carray_size(a) < (long)r_carray_length(a)) moved = -1;
	fprintf(OUT, "[%ld,%ld,%ld]", ret, (long)r_carray_length(a), moved);
}

/* ---------------------------------------------------------------- hash tables; keys stay where they are */
static rhash_t *H;
static int hkind;
static struct { char *s; rstr_t r; rstring_t *g; long l; } K[2][400];
static int nk[2];
static const void *key(const char *s, int w)     /* w: a second copy, so that contents count, not addresses */
{
	int i;
	if (!strcmp(s, "-")) s = "";
	for (i = 0; i < nk[w]; i++)
		if (!strcmp(K[w][i].s, s)) break;
	if (i == nk[w]) {
		if (i >= 400) exit(9);
		K[w][i].s = strdup(s);
		K[w][i].r.str = K[w][i].s;
		K[w][i].r.size = strlen(s);
		K[w][i].g = r_string_create_from_ansi(s);
		K[w][i].l = atol(s);
		nk[w]++;
	}
	return hkind == 0 ? (void *)K[w][i].s : hkind == 1 ? (void *)&K[w][i].r : hkind == 2 ? (void *)&K[w][i].l : (void *)K[w][i].g;
}

static void hs(int n, char **t)
{
	char *c = t[1];
	long v[2000], m = 0;
	rhash_node_t *p;
	if (!strcmp(c, "new")) {
		hkind = atoi(t[2]);
		if (H) r_hash_destroy(H);
		H = r_hash_create(atoi(t[3]), hkind == 0 ? r_hash_strequal : hkind == 1 ? r_hash_rstrequal : hkind == 2 ? r_hash_longequal : r_hash_rstring_equal,
				hkind == 0 ? r_hash_strhash : hkind == 1 ? r_hash_rstrhash : hkind == 2 ? r_hash_longhash : r_hash_rstring_hash);
		fprintf(OUT, "0");
	}
	else if (!strcmp(c, "ins")) { r_hash_insert_index(H, key(t[2], 0), atol(t[3])); fprintf(OUT, "0"); }
	else if (!strcmp(c, "insobj")) { r_hash_insert_object(H, key(t[2], 0), (rpointer)atol(t[3])); fprintf(OUT, "0"); }
	else if (!strcmp(c, "rem")) { r_hash_remove(H, key(t[2], 1)); fprintf(OUT, "0"); }
	else if (!strcmp(c, "remall")) { r_hash_removeall(H); fprintf(OUT, "0"); }
	else if (!strcmp(c, "look")) fprintf(OUT, "%ld", (long)r_hash_lookup_index(H, key(t[2], 1)));
	else if (!strcmp(c, "tail")) fprintf(OUT, "%ld", (long)r_hash_taillookup_index(H, key(t[2], 1)));
	else if (!strcmp(c, "lookobj")) fprintf(OUT, "%ld", (long)r_hash_lookup_object(H, key(t[2], 1)));
	else if (!strcmp(c, "walk")) { for (p = r_hash_nodelookup(H, NULL, key(t[2], 1)); p && m < 2000; p = r_hash_nodelookup(H, p, key(t[2], 1))) v[m++] = (long)r_hash_index(p); nums(v, m); }
	else if (!strcmp(c, "back")) { for (p = r_hash_nodetaillookup(H, NULL, key(t[2], 1)); p && m < 2000; p = r_hash_nodetaillookup(H, p, key(t[2], 1))) v[m++] = (long)r_hash_index(p); nums(v, m); }
	else exit(5);
}

/* ---------------------------------------------------------------- maps */
static rmap_t *M;
static long melt;
static void mp(int n, char **t)
{
	char *c = t[1];
	const char *k = n > 2 ? (strcmp(t[2], "-") ? t[2] : "") : "";
	long v[3000], m = 0;
	size_t i;
	if (!strcmp(c, "new")) { if (M) r_map_destroy(M); melt = atol(t[2]); M = r_map_create(melt, atoi(t[3])); fprintf(OUT, "0"); }
	else if (!strcmp(c, "add")) fprintf(OUT, "%ld", (long)r_map_add_s(M, k, mkel(atoi(t[3]), melt)));
	else if (!strcmp(c, "addn")) fprintf(OUT, "%ld", (long)r_map_add(M, k, atol(t[4]), mkel(atoi(t[3]), melt)));
	else if (!strcmp(c, "addz")) fprintf(OUT, "%ld", (long)r_map_add_s(M, k, NULL));
	else if (!strcmp(c, "addl")) fprintf(OUT, "%ld", (long)r_map_add_l(M, atol(k), mkel(atoi(t[3]), melt)));
	else if (!strcmp(c, "addd")) fprintf(OUT, "%ld", (long)r_map_add_d(M, atof(k), mkel(atoi(t[3]), melt)));
	else if (!strcmp(c, "look")) fprintf(OUT, "%ld", (long)r_map_lookup_s(M, k));
	else if (!strcmp(c, "lookn")) fprintf(OUT, "%ld", (long)r_map_lookup(M, k, atol(t[3])));
	else if (!strcmp(c, "lookl")) fprintf(OUT, "%ld", (long)r_map_lookup_l(M, atol(k)));
	else if (!strcmp(c, "lookd")) fprintf(OUT, "%ld", (long)r_map_lookup_d(M, atof(k)));
	else if (!strcmp(c, "tail")) fprintf(OUT, "%ld", (long)r_map_taillookup_s(M, k));
	else if (!strcmp(c, "tailn")) fprintf(OUT, "%ld", (long)r_map_taillookup(M, k, atol(t[3])));
	else if (!strcmp(c, "del")) fprintf(OUT, "%d", r_map_delete(M, atol(k)) ? 1 : 0);
	else if (!strcmp(c, "set")) fprintf(OUT, "%ld", (long)r_map_setvalue(M, atol(k), mkel(atoi(t[3]), melt)));
	else if (!strcmp(c, "first")) fprintf(OUT, "%ld", (long)r_map_first(M));
	else if (!strcmp(c, "last")) fprintf(OUT, "%ld", (long)r_map_last(M));
	else if (!strcmp(c, "next")) fprintf(OUT, "%ld", (long)r_map_next(M, atol(k)));
	else if (!strcmp(c, "prev")) fprintf(OUT, "%ld", (long)r_map_prev(M, atol(k)));
	else if (!strcmp(c, "key")) { rstring_t *s = r_map_key(M, atol(k)); if (!s) fprintf(OUT, "\"<none>\""); else h_putstr(s->str, s->size); }
	else if (!strcmp(c, "val")) fprintf(OUT, "%d", getel(r_map_value(M, atol(k)), melt));
	else if (!strcmp(c, "walk")) { for (i = r_map_first(M); i != (size_t)-1 && m < 3000; i = r_map_next(M, i)) v[m++] = (long)i; nums(v, m); }
	else if (!strcmp(c, "back")) { for (i = r_map_last(M); i != (size_t)-1 && m < 3000; i = r_map_prev(M, i)) v[m++] = (long)i; nums(v, m); }
	else exit(5);
}

/* ---------------------------------------------------------------- named arrays: two of them */
static rharray_t *N[2];
static long nelt[2];
static void na(int n, char **t)
{
	int o = atoi(t[1]);
	char *c = t[2];
	const char *k = n > 3 ? (strcmp(t[3], "-") ? t[3] : "") : "";
	long x = n > 4 ? atol(t[4]) : 0, v[2000], m = 0;
	rhash_node_t *p;
	rharray_t *a = N[o];
	if (!strcmp(c, "new")) { if (a) r_harray_destroy(a); nelt[o] = atol(k); N[o] = r_harray_create(nelt[o]); fprintf(OUT, "0"); }
	else if (!strcmp(c, "add")) fprintf(OUT, "%ld", r_harray_add_s(a, k, mkel(x, nelt[o])));
	else if (!strcmp(c, "addn")) fprintf(OUT, "%ld", r_harray_add(a, k, atol(t[5]), mkel(x, nelt[o])));
	else if (!strcmp(c, "addz")) fprintf(OUT, "%ld", r_harray_add_s(a, k, NULL));
	else if (!strcmp(c, "repl")) fprintf(OUT, "%ld", r_harray_replace_s(a, k, mkel(x, nelt[o])));
	else if (!strcmp(c, "repln")) fprintf(OUT, "%ld", r_harray_replace(a, k, atol(t[5]), mkel(x, nelt[o])));
	else if (!strcmp(c, "look")) fprintf(OUT, "%ld", r_harray_lookup_s(a, k));
	else if (!strcmp(c, "lookn")) fprintf(OUT, "%ld", r_harray_lookup(a, k, x));
	else if (!strcmp(c, "tail")) fprintf(OUT, "%ld", r_harray_taillookup_s(a, k));
	else if (!strcmp(c, "tailn")) fprintf(OUT, "%ld", r_harray_taillookup(a, k, x));
	else if (!strcmp(c, "walk")) { for (p = r_harray_nodelookup_s(a, NULL, k); p && m < 2000; p = r_harray_nodelookup_s(a, p, k)) v[m++] = (long)r_hash_index(p); nums(v, m); }
	else if (!strcmp(c, "back")) { for (p = r_harray_nodetaillookup_s(a, NULL, k); p && m < 2000; p = r_harray_nodetaillookup_s(a, p, k)) v[m++] = (long)r_hash_index(p); nums(v, m); }
	else if (!strcmp(c, "get")) fprintf(OUT, "%d", getel(r_harray_get(a, atol(k)), nelt[o]));
	else if (!strcmp(c, "set")) fprintf(OUT, "%d", r_harray_set(a, atol(k), mkel(x, nelt[o])));
	else if (!strcmp(c, "len")) fprintf(OUT, "%ld", (long)r_harray_length(a));
	else if (!strcmp(c, "copy")) {
		if (N[1 - o]) r_harray_destroy(N[1 - o]);
		nelt[1 - o] = nelt[o];
		N[1 - o] = (rharray_t *)r_harray_copy((robject_t *)a);
		fprintf(OUT, "0");
	}
	else if (!strcmp(c, "drop")) { if (N[o]) r_harray_destroy(N[o]); N[o] = NULL; fprintf(OUT, "0"); }
	else if (!strcmp(c, "dump")) {
		long i;
		fputc('[', OUT);
		for (i = 0; i < (long)r_harray_length(a); i++) fprintf(OUT, "%s%d", i ? "," : "", getel(r_harray_slot(a, i), nelt[o]));
		fputc(']', OUT);
	}
	else exit(5);
}

/* ---------------------------------------------------------------- objects and collectors */
#define MAXOB 4096
static struct { robject_t *o; int live; } OB[MAXOB];
static int gone[MAXOB], ngone;
static void ob_gone(robject_t *o)
{
	int i;
	for (i = 0; i < MAXOB; i++)
		if (OB[i].live && OB[i].o == o) break;
	if (i < MAXOB) OB[i].live = 0;
	if (ngone < MAXOB) gone[ngone++] = i < MAXOB ? i : -1;
}
static void ob_cleanobj(robject_t *o) { ob_gone(o); r_object_cleanup(o); }
static void ob_cleanref(robject_t *o) { ob_gone(o); r_ref_cleanup(o); }
static void ob_cleangc(robject_t *o) { ob_gone(o); r_gc_cleanup(o); }
static int ob_id(robject_t *o)
{
	int i;
	for (i = 1; i < MAXOB; i++)
		if (OB[i].live && OB[i].o == o) return i;
	return o ? -1 : 0;
}
static void ob_new(int id, robject_t *o) { if (id < 1 || id >= MAXOB || OB[id].live || !o) exit(9); OB[id].o = o; OB[id].live = 1; }

static void ob(int n, char **t)
{
	char *c = t[1];
	int id = atoi(t[2]), x = n > 3 ? atoi(t[3]) : 0, i;
	long ret = 0;
	robject_t *o = OB[id].live ? OB[id].o : NULL;
	ngone = 0;
	if (!strcmp(c, "ref")) { o = r_object_create(sizeof(rref_t)); r_ref_init(o, R_OBJECT_REF, ob_cleanref, r_ref_copy, x, RREF_TYPE_SHARED); ob_new(id, o); }
	else if (!strcmp(c, "kref")) { o = (robject_t *)r_ref_create((rref_type_t)x); o->cleanup = ob_cleanref; ob_new(id, o); ret = r_ref_typeget((rref_t *)o); }
	else if (!strcmp(c, "obj")) { o = r_object_create(sizeof(robject_t) + 24); r_object_init(o, R_OBJECT_USER, ob_cleanobj, r_object_copy); ob_new(id, o); }
	else if (!strcmp(c, "gc")) { o = (robject_t *)r_gc_create(); o->cleanup = ob_cleangc; ob_new(id, o); }
	else if (!strcmp(c, "inc")) ret = r_ref_inc((rref_t *)o);
	else if (!strcmp(c, "dec")) ret = r_ref_dec((rref_t *)o);
	else if (!strcmp(c, "get")) ret = r_ref_get((rref_t *)o);
	else if (!strcmp(c, "type")) { r_ref_typeset((rref_t *)o, (rref_type_t)x); ret = r_ref_typeget((rref_t *)o); }
	else if (!strcmp(c, "kind")) ret = r_ref_typeget((rref_t *)o);
	else if (!strcmp(c, "copy")) { robject_t *p = o->copy(o); p->cleanup = ob_cleanref; ob_new(x, p); ret = r_ref_get((rref_t *)p) == 1 ? (long)r_ref_typeget((rref_t *)p) : -9; }
	else if (!strcmp(c, "add")) r_gc_add((rgc_t *)OB[x].o, o);
	else if (!strcmp(c, "remove")) { if (!r_list_empty(&o->lnk)) r_list_del(&o->lnk); r_list_init(&o->lnk); r_object_gcset(o, NULL); }
	else if (!strcmp(c, "where")) ret = ob_id((robject_t *)r_object_gcget(o));
	else if (!strcmp(c, "destroy")) r_object_destroy(o);
	else if (!strcmp(c, "collect")) r_gc_deallocateall((rgc_t *)o);
	else if (!strcmp(c, "count")) ret = r_list_count(r_gc_head((rgc_t *)o));
	else exit(5);
	fprintf(OUT, "[%ld,[", ret);
	for (i = 0; i < ngone; i++) fprintf(OUT, "%s%d", i ? "," : "", gone[i]);
	fprintf(OUT, "]]");
}

/* ---------------------------------------------------------------- linked lists: two of them */
static struct { int id; rlink_t l; } LK[64];
static rhead_t LH[2];
static int lkid(rlist_t *p) { int i; for (i = 1; i < 64; i++) if (p == &LK[i].l) return i; return p ? -1 : 0; }
static void ls(int n, char **t)
{
	int o = atoi(t[1]), x = n > 3 ? atoi(t[3]) : 0, y = n > 4 ? atoi(t[4]) : 0;
	char *c = t[2];
	rlist_t *p, *s;
	long ret = 0, v[64], m = 0;
	if (!LH[0].next) { r_list_init(&LH[0]); r_list_init(&LH[1]); }
	if (!strcmp(c, "addh")) r_list_addh(&LH[o], &LK[x].l);
	else if (!strcmp(c, "addt")) r_list_addt(&LH[o], &LK[x].l);
	else if (!strcmp(c, "addafter")) r_list_add(&LK[x].l, &LK[y].l, LK[y].l.next);
	else if (!strcmp(c, "del")) r_list_del(&LK[x].l);
	else if (!strcmp(c, "next")) ret = lkid(r_list_next(&LH[o], &LK[x].l));
	else if (!strcmp(c, "prev")) ret = lkid(r_list_prev(&LH[o], &LK[x].l));
	else if (!strcmp(c, "first")) ret = lkid(r_list_first(&LH[o]));
	else if (!strcmp(c, "last")) ret = lkid(r_list_last(&LH[o]));
	else if (!strcmp(c, "count")) ret = r_list_count(&LH[o]);
	else if (!strcmp(c, "empty")) ret = r_list_empty(&LH[o]) ? 1 : 0;
	else if (!strcmp(c, "splice")) r_list_splice(&LH[1 - o], &LH[o]);
	else if (!strcmp(c, "spliceat")) r_list_splice(&LH[1 - o], &LK[x].l);
	else if (!strcmp(c, "walk")) { r_list_for_eachsafe(p, s, &LH[o]) if (m < 64) v[m++] = lkid(p); nums(v, m); return; }
	else if (!strcmp(c, "back")) { r_list_foreachreverse(p, &LH[o]) if (m < 64) v[m++] = lkid(p); nums(v, m); return; }
	else exit(5);
	fprintf(OUT, "%ld", ret);
}

/* ---------------------------------------------------------------- blocks: mm OP ID N Z -> [account, greatest, contents right] */
static struct { unsigned char *p; long n; } MB[64];
static void mm(int n, char **t)
{
	char *c = t[1];
	int id = atoi(t[2]), ok = 1;
	long k = atol(t[3]), z = atol(t[4]), i, keep = 0;
	unsigned char *p = MB[id].p;
	if (!strcmp(c, "mal")) p = (unsigned char *)r_malloc(k);
	else if (!strcmp(c, "zm")) { p = (unsigned char *)r_zmalloc(k); for (i = 0; i < k; i++) ok &= p[i] == 0; }
	else if (!strcmp(c, "cal")) { p = (unsigned char *)r_calloc(k, z); k *= z; for (i = 0; i < k; i++) ok &= p[i] == 0; }
	else if (!strcmp(c, "re")) { keep = p ? MB[id].n : 0; p = (unsigned char *)r_realloc(p, k); for (i = 0; i < k && i < keep; i++) ok &= p[i] == (unsigned char)(id * 7 + i); }
	else if (!strcmp(c, "free")) { for (i = 0; i < MB[id].n; i++) ok &= p[i] == (unsigned char)(id * 7 + i); r_free(p); p = NULL; k = 0; }
	else if (!strcmp(c, "none")) { r_free(NULL); p = NULL; k = 0; id = 63; }
	else if (!strcmp(c, "reset")) { r_debug_reset_maxmem(); p = NULL; k = 0; id = 63; }
	else exit(5);
	MB[id].p = p;
	MB[id].n = k;
	for (i = 0; i < k; i++) p[i] = (unsigned char)(id * 7 + i);
	fprintf(OUT, "[%ld,%ld,%d]", (long)r_debug_get_allocmem(), (long)r_debug_get_maxmem(), ok);
}

/* ---------------------------------------------------------------- threads of the processor */
static volatile ratomic_t sw;
static rspinlock_t slk;
static volatile long scount;
static volatile int sinside, sover;
static long each;
static int nth, sgone, szero;
static char swhat[8];
static ratomic_t *sold;
static rref_t *sref;
static pthread_barrier_t sbar;
static volatile long sentries[16];
static void sref_gone(robject_t *o) { __sync_fetch_and_add(&sgone, 1); r_ref_cleanup(o); }
static void section(void)
{
	if (__sync_fetch_and_add(&sinside, 1)) __sync_fetch_and_add(&sover, 1);
	scount = scount + 1;
	__sync_fetch_and_sub(&sinside, 1);
}
static void *sbody(void *a)
{
	long me = (long)a, k;
	pthread_barrier_wait(&sbar);
	for (k = 0; k < each; k++) {
		if (!strcmp(swhat, "add")) sold[me * each + k] = r_atomic_add(&sw, 3);
		else if (!strcmp(swhat, "sub")) sold[me * each + k] = r_atomic_sub(&sw, 3);
		else if (!strcmp(swhat, "xchg")) sold[me * each + k] = r_atomic_exchange(&sw, (ratomic_t)(me * each + k + 1));
		else if (!strcmp(swhat, "cas")) { ratomic_t o; do o = r_atomic_get(&sw); while (!r_atomic_compare_and_exchange(&sw, o, o + 1)); sentries[me]++; }
		else if (!strcmp(swhat, "lock")) { r_spinlock_lock(&slk); section(); r_spinlock_unlock(&slk); }
		else if (!strcmp(swhat, "try")) { if (r_spinlock_trylock(&slk)) { section(); sentries[me]++; r_spinlock_unlock(&slk); } }
		else if (!strcmp(swhat, "mem")) { char *p = (char *)r_malloc(8 + (k * 13 + me) % 50); if (k % 3 == 0) p = (char *)r_realloc(p, 100 + k % 7); r_free(p); }
		else if (!strcmp(swhat, "ref")) { r_ref_inc(sref); if (!r_ref_dec(sref)) __sync_fetch_and_add(&szero, 1); }
	}
	if (!strcmp(swhat, "ref") && !r_ref_dec(sref)) __sync_fetch_and_add(&szero, 1);
	return NULL;
}
static int cmpat(const void *a, const void *b) { ratomic_t x = *(const ratomic_t *)a, y = *(const ratomic_t *)b; return x < y ? -1 : x > y; }
static void st(int n, char **t)
{
	pthread_t th[16];
	long i, e = 0, diff = 1, base;
	strncpy(swhat, t[1], 7);
	nth = atoi(t[2]);
	each = atol(t[3]);
	sw = 0; scount = 0; sinside = sover = sgone = szero = 0;
	memset((void *)sentries, 0, sizeof(sentries));
	sold = (ratomic_t *)calloc(nth * each + 1, sizeof(ratomic_t));
	r_spinlock_init(&slk);
	sref = (rref_t *)r_object_create(sizeof(rref_t));
	r_ref_init((robject_t *)sref, R_OBJECT_REF, sref_gone, r_ref_copy, nth, RREF_TYPE_SHARED);
	pthread_barrier_init(&sbar, NULL, nth);
	base = (long)r_debug_get_allocmem();
	for (i = 0; i < nth; i++) pthread_create(&th[i], NULL, sbody, (void *)i);
	for (i = 0; i < nth; i++) pthread_join(th[i], NULL);
	for (i = 0; i < nth; i++) e += sentries[i];
	if (!strcmp(swhat, "xchg")) sold[nth * each] = sw;
	else sold[nth * each] = 1;         /* never an old value of a word counted in threes */
	qsort(sold, nth * each + 1, sizeof(ratomic_t), cmpat);
	for (i = 0; i < nth * each; i++) if (sold[i] == sold[i + 1]) diff = 0;
	if (!strcmp(swhat, "add") || !strcmp(swhat, "sub")) fprintf(OUT, "[%d,%ld]", (int)sw, diff);
	else if (!strcmp(swhat, "cas")) fprintf(OUT, "[%d,%ld]", (int)sw, e);
	else if (!strcmp(swhat, "xchg")) fprintf(OUT, "[%ld,%ld]", (long)sold[nth * each], diff && sold[0] == 0);
	else if (!strcmp(swhat, "lock")) fprintf(OUT, "[%ld,%d]", scount, sover);
	else if (!strcmp(swhat, "try")) fprintf(OUT, "[%ld,%d]", e - scount, sover);
	else if (!strcmp(swhat, "mem")) fprintf(OUT, "[%ld,%d]", (long)r_debug_get_allocmem() - base, r_debug_get_maxmem() >= base);
	else fprintf(OUT, "[%d,%d]", szero, sgone);
	if (strcmp(swhat, "ref")) r_object_destroy((robject_t *)sref);
	free(sold);
	pthread_barrier_destroy(&sbar);
}

/* ---------------------------------------------------------------- characters: uc CODEC FROM COUNT SIZE and so on */
static void bytes(const unsigned char *b, long n)
{
	long i;
	fputc('[', OUT);
	for (i = 0; i < n; i++) fprintf(OUT, "%s%d", i ? "," : "", b[i]);
	fputc(']', OUT);
}
static int u_enc(int e, ruint32 w, unsigned char *b, ruint32 size) { return e == 0 ? r_utf8_wctomb(w, b, size) : r_utf16_wctomb(w, b, size); }
static int u_dec(int e, ruint32 *w, const unsigned char *b, const unsigned char *end) { return e == 0 ? r_utf8_mbtowc(w, b, end) : r_utf16_mbtowc(w, b, end); }
static void uc(int n, char **t)
{
	char *c = t[1];
	int e = atoi(t[2]);
	long from = n > 3 ? atol(t[3]) : 0, cnt = n > 4 ? atol(t[4]) : 0, size = n > 5 ? atol(t[5]) : 8, i;
	fputc('[', OUT);
	if (!strcmp(c, "dec")) {          /* uc dec CODEC hex... */
		for (i = 3; i < n; i++) {
			long len;
			char *b = h_hex(t[i], &len, 0);
			ruint32 w = 77777;
			int k = u_dec(e, &w, (unsigned char *)b, (unsigned char *)b + len);
			fprintf(OUT, "%s[%ld,%d]", i > 3 ? "," : "", (long)w, k);
			free(b);
		}
	} else if (!strcmp(c, "case")) {
		for (i = 0; i < cnt; i++)
			fprintf(OUT, "%s[%lu,%lu,%lu]", i ? "," : "", r_charicase(from + i), r_charlow(from + i), r_charhigh(from + i));
	} else
		for (i = 0; i < cnt; i++) {
			unsigned char *b = (unsigned char *)malloc(size ? size : 1), *x;
			ruint32 w = 77777;
			int k = u_enc(e, (ruint32)(from + i), size ? b : b + 1, (ruint32)size), m = 0;
			if (i) fputc(',', OUT);
			if (!strcmp(c, "enc")) bytes(b, k > size ? size : k);
			else {
				x = (unsigned char *)malloc(k ? k : 1);
				memcpy(x, b, k);
				if (k) m = u_dec(e, &w, x, x + k);
				fprintf(OUT, "[%ld,%d]", k ? (long)w : -1L, m);
				free(x);
			}
			free(b);
		}
	fputc(']', OUT);
}

/* ---------------------------------------------------------------- string objects: four of them */
static rstring_t *SG[5];
static void sg(int n, char **t)
{
	char *c = t[1], *b = NULL;
	int o = atoi(t[2]);
	rstring_t *x = NULL;
	long len = 0, k = n > 4 ? atol(t[4]) : 0;
	if (!strcmp(c, "new")) { b = t[3][0] == 'z' ? NULL : h_hex(t[3], &len, 1); x = r_string_create_from_ansi(b); }
	else if (!strcmp(c, "len")) { b = t[3][0] == 'z' ? NULL : h_hex(t[3], &len, k > (long)(strlen(t[3]) / 2) || t[3][0] == '-'); x = r_string_create_from_str_len(b, k); }
	else if (!strcmp(c, "cp")) x = r_string_create_from_string(SG[atoi(t[3])]);
	else if (!strcmp(c, "ocopy")) x = (rstring_t *)SG[atoi(t[3])]->obj.copy((robject_t *)SG[atoi(t[3])]);
	else if (!strcmp(c, "cat")) x = r_string_cat(SG[atoi(t[3])], SG[k]);
	else if (!strcmp(c, "catl")) { b = t[3][0] == 'z' ? NULL : h_hex(t[3], &len, k > (long)(strlen(t[3]) / 2) || t[3][0] == '-'); r_string_cat_len(SG[o], b, k); }
	else if (!strcmp(c, "int")) x = r_string_create_from_int((rint64)strtoll(t[3], NULL, 10));
	else if (!strcmp(c, "dbl")) x = r_string_create_from_double((double)atol(t[3]) / 64.0);
	else if (strcmp(c, "get")) exit(5);
	if (strcmp(c, "catl") && strcmp(c, "get")) {
		if (SG[o]) r_string_destroy(SG[o]);
		SG[o] = x;
	}
	free(b);
	x = SG[o];
	fprintf(OUT, "[%ld,", (long)x->size);
	bytes((unsigned char *)x->str, x->size);
	fprintf(OUT, ",%d,%d]", x->str[x->size], r_string_empty(x));
}

/* ---------------------------------------------------------------- helpers: hp NAME A B N M */
static void hp(int n, char **t)
{
	char *c = t[1], *a, *b, *d = NULL, *e = NULL;
	long la, lb, k = atol(t[4]), m = atol(t[5]), r;
	a = t[2][0] == 'z' ? NULL : h_hex(t[2], &la, strcmp(c, "rdup"));
	if (!a) la = 0;
	b = h_hex(t[3], &lb, 1);
	if (!strcmp(c, "cmp")) { r = r_strcmp(a, b); fprintf(OUT, "%d", r < 0 ? -1 : r > 0); }
	else if (!strcmp(c, "ncmp")) { r = r_strncmp(a, b, k); fprintf(OUT, "%d", r < 0 ? -1 : r > 0); }
	else if (!strcmp(c, "eqn")) fprintf(OUT, "%d", r_stringncmp(a, b, k) ? 1 : 0);
	else if (!strcmp(c, "len")) fprintf(OUT, "%ld", (long)r_strlen(a));
	else if (!strcmp(c, "str")) { d = r_strstr(a, b); fprintf(OUT, "%ld", d ? (long)(d - a) : -1); d = NULL; }
	else if (!strcmp(c, "chr")) { d = r_strchr(a, (int)k); fprintf(OUT, "%ld", d ? (long)(d - a) : -1); d = NULL; }
	else if (!strcmp(c, "trim")) { r_strtrimr(a, b); bytes((unsigned char *)a, strlen(a)); }
	else if (!strcmp(c, "dup")) { e = r_strdup(a); bytes((unsigned char *)e, strlen(e)); r_free(e); }
	else if (!strcmp(c, "ndup")) { e = r_strndup(a, k); bytes((unsigned char *)e, k + 1); r_free(e); }
	else if (!strcmp(c, "cpy")) { d = (char *)malloc(la + 1); r_strcpy(d, a); bytes((unsigned char *)d, strlen(d)); }
	else if (!strcmp(c, "ncpy")) { d = (char *)malloc(k ? k : 1); r_strncpy(d, a, k); bytes((unsigned char *)d, k); }
	else if (!strcmp(c, "cat")) { d = (char *)malloc(la + lb + 1); strcpy(d, a); r_strcat(d, b); bytes((unsigned char *)d, strlen(d)); }
	else if (!strcmp(c, "ncat")) { d = (char *)malloc(la + (k < lb ? k : lb) + 1); strcpy(d, a); r_strncat(d, b, k); bytes((unsigned char *)d, strlen(d)); }
	else if (!strcmp(c, "rdup")) { rstr_t *s = r_rstrdup(a, (unsigned)k); fprintf(OUT, "[%ld,", (long)s->size); bytes((unsigned char *)s->str, k + 1); fprintf(OUT, "]"); r_rstr_free(s); }
	else if (!strcmp(c, "print")) { d = (char *)malloc(m ? m : 1); r = r_snprintf(d, m, "%s:%d", a, (int)k); fprintf(OUT, "[%ld,", r); bytes((unsigned char *)d, m ? (long)strlen(d) : 0); fprintf(OUT, "]"); }
	else if (!strcmp(c, "tol")) { r = r_strtol(a, &e, (int)k); fprintf(OUT, "[%ld,%ld]", r, (long)(e - a)); }
	else if (!strcmp(c, "toul")) { r = (long)r_strtoul(a, &e, (int)k); fprintf(OUT, "[%ld,%ld]", r, (long)(e - a)); }
	else if (!strcmp(c, "tod")) { double f = r_strtod(a, &e); fprintf(OUT, "[%ld,%ld]", (long)(f * 64), (long)(e - a)); }
	else exit(5);
	free(d); free(a); free(b);
}

static void run(int n, char **t)
{
	if (!strcmp(t[0], "ar")) ar(n, t);
	else if (!strcmp(t[0], "cr")) cr(n, t);
	else if (!strcmp(t[0], "hs")) hs(n, t);
	else if (!strcmp(t[0], "mp")) mp(n, t);
	else if (!strcmp(t[0], "na")) na(n, t);
	else if (!strcmp(t[0], "ob")) ob(n, t);
	else if (!strcmp(t[0], "ls")) ls(n, t);
	else if (!strcmp(t[0], "st")) st(n, t);
	else if (!strcmp(t[0], "mm")) mm(n, t);
	else if (!strcmp(t[0], "uc")) uc(n, t);
	else if (!strcmp(t[0], "sg")) sg(n, t);
	else if (!strcmp(t[0], "hp")) hp(n, t);
	else exit(8);
}

static void end(void)
{
	int i, w;
	for (i = 0; i < 2; i++) {
		if (A[i]) r_array_destroy(A[i]), A[i] = NULL;
		if (CA[i]) r_carray_destroy(CA[i]), CA[i] = NULL;
		if (N[i]) r_harray_destroy(N[i]), N[i] = NULL;
	}
	if (H) r_hash_destroy(H), H = NULL;
	if (M) r_map_destroy(M), M = NULL;
	for (w = 0; w < 2; w++) {
		for (i = 0; i < nk[w]; i++) { free(K[w][i].s); r_string_destroy(K[w][i].g); }
		nk[w] = 0;
	}
	memset(addr, 0, sizeof(addr));
	for (i = 1; i < MAXOB; i++)
		if (OB[i].live) r_object_destroy(OB[i].o);
	memset(OB, 0, sizeof(OB));
	memset(LH, 0, sizeof(LH));
	for (i = 0; i < 63; i++)
		if (MB[i].p) r_free(MB[i].p), MB[i].p = NULL, MB[i].n = 0;
	for (i = 0; i < 5; i++)
		if (SG[i]) r_string_destroy(SG[i]), SG[i] = NULL;
}

int main(void)
{
	h_init();
	h_loop(NULL, run, end);
	return 0;
}
