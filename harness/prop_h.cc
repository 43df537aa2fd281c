/* Driver of the property trees (J06). */
#include "json_dump.h"
#include "rexjsonrpc/property.h"

enum color : int { red, green, blue };
static int64_t v_i64[4];
static int v_i32[4];
static color v_enum[4];
static double v_dbl[4];
static std::string v_str[4];
static bool v_bool[4];
static property *root;
static long ids[4096];
struct note { long id; value v; };
static std::vector<note> notes;

static value arr(const std::function<value(int)> &f, int i, int n) { array a; for (int j = 0; j < n; j++) a.push_back(f(i + j)); return value(a); }
static value raw(const std::string &s) { value v; v = s.c_str(); return v; }
static value var(const std::string &t, int i)
{
	if (t == "i64") return value((long)v_i64[i]);
	if (t == "i32") return value(v_i32[i]);
	if (t == "enum") return value((int)v_enum[i]);
	if (t == "dbl") return value(v_dbl[i]);
	if (t == "str") return raw(v_str[i]);
	return value(v_bool[i]);
}

/* m N (NAME node)* | a N node* | l TYPE I ACC CHK ID | r TYPE I N ACC CHK ID | e */
static char **tk;
static property build()
{
	std::string t = *tk++;
	if (t == "e") return property();
	if (t == "m") {
		int n = atoi(*tk++);
		/* the map can only be made from a list */
		std::vector<std::pair<std::string, property> > v;
		for (int i = 0; i < n; i++) {
			std::string k = str(*tk++);
			property p = build();
			v.push_back(std::make_pair(k, p));
		}
		switch (n) {
		case 0: return property_map();
		case 1: return property_map({{v[0].first, v[0].second}});
		case 2: return property_map({{v[0].first, v[0].second}, {v[1].first, v[1].second}});
		case 3: return property_map({{v[0].first, v[0].second}, {v[1].first, v[1].second}, {v[2].first, v[2].second}});
		default: return property_map({{v[0].first, v[0].second}, {v[1].first, v[1].second}, {v[2].first, v[2].second}, {v[3].first, v[3].second}});
		}
	}
	if (t == "a") {
		int n = atoi(*tk++);
		property p = property_array();
		for (int i = 0; i < n; i++) {
			property q = build();
			p.push_back(q);
		}
		return p;
	}
	std::string ty = *tk++;
	int i = atoi(*tk++), n = t == "r" ? atoi(*tk++) : 1;
	property_access acc = (property_access)atoi(*tk++);
	int chk = atoi(*tk++);
	long id = atol(*tk++);
	bool range = t == "r";
	ids[id] = id;
	std::function<void(const value&)> check = [chk](const value &v)->void {
		if (chk == 1 || (chk == 2 && v.get_type() == int_type && v.get_int64() > 50))
			throw std::runtime_error("refused");
	};
	std::function<void(void*)> mod = [ty, i, n, range](void *ctx)->void {
		note x;
		x.id = *(long *)ctx;
		x.v = range ? arr([ty](int j)->value { return var(ty, j); }, i, n) : var(ty, i);
		notes.push_back(x);
	};
#define MAKE(T, V) if (ty == T) { \
		if (range) return property(V + i, (size_t)n, acc, check, mod, &ids[id]); \
		if (chk == 0 && id == 0) return acc == readwrite ? property(V + i) : property(V + i, acc); \
		return property(V + i, acc, check, mod, &ids[id]); }
	MAKE("i64", v_i64) MAKE("i32", v_i32) MAKE("enum", v_enum) MAKE("dbl", v_dbl) MAKE("str", v_str)
	if (id == 0) return acc == readwrite ? property(v_bool + i) : property(v_bool + i, acc);
	return property(v_bool + i, acc, check, mod, &ids[id]);
}

/* nHEX: navigate; w/i0/kHEX: subscripts */
static property &find(const char *p)
{
	if (p[0] == 'n') return root->navigate(str(p + 1));
	property *x = root;
	const char *q = strchr(p, '/');
	while (q) {
		const char *e = strchr(q + 1, '/');
		std::string s(q + 1, e ? e - q - 1 : strlen(q + 1));
		if (s[0] == 'i') x = &(*x)[(size_t)atol(s.c_str() + 1)];
		else x = &(*x)[str(s.c_str() + 1)];
		q = e;
	}
	return *x;
}

static void vars(const char *t)
{
	fprintf(OUT, "\"%s\":[", t);
	for (int i = 0; i < 4; i++) {
		if (i) fputc(',', OUT);
		dump(var(t, i));
	}
	fputc(']', OUT);
}

static void run(int n, char **tok)
{
	std::string op = tok[0];
	int x = 0;
	value ret;
	notes.clear();
	try {
		if (op == "build") {
			tk = tok + 1;
			property *p = new property(build());
			delete root;
			root = p;
		} else if (op == "clone") {
			property *p = new property(*root);
			delete root;
			root = p;
		} else if (op == "steal") {
			property *p = new property(std::move(*root));
			delete root;
			root = p;
		} else if (op == "set") {
			value v;
			property &p = find(tok[1]);
			v.read(str(tok[2]));
			p.set_prop(v);
		} else if (op == "get") {
			ret = find(tok[1]).get_prop();
		} else if (op == "access") {
			ret = (int)((const property &)find(tok[1])).access();
		} else if (op == "enum") {
			array a;
			find(tok[1]).enumerate_children(str(tok[2]), [&a](const std::string &path, property &p)->void {
				a.push_back(raw(path + " " + std::to_string((int)p.access())));
			});
			ret = a;
		} else if (op == "json") {
			ret = find(tok[1]).to_json();
		} else if (op == "push") {
			tk = tok + 2;
			property q = build();
			find(tok[1]).push_back(q);
		} else if (op == "empty") {
			find(tok[1]) = property();
		} else if (op == "assign") {
			property &d = find(tok[1]);
			property &s = find(tok[2]);
			d = s;
		}
	} catch (std::exception &e) {
		x = 1;
		ret = value();
	}
	fprintf(OUT, "{\"x\":%d,\"ret\":", x);
	dump(ret);
	fprintf(OUT, ",\"log\":[");
	for (size_t i = 0; i < notes.size(); i++) {
		fprintf(OUT, "%s[%ld,", i ? "," : "", notes[i].id);
		dump(notes[i].v);
		fputc(']', OUT);
	}
	fprintf(OUT, "],\"vars\":{");
	vars("i64"); fputc(',', OUT); vars("i32"); fputc(',', OUT); vars("enum"); fputc(',', OUT);
	vars("dbl"); fputc(',', OUT); vars("str"); fputc(',', OUT); vars("bool");
	fprintf(OUT, "}}");
}

static void begin(void)
{
	for (int i = 0; i < 4; i++) {
		v_i64[i] = 0; v_i32[i] = 0; v_enum[i] = red; v_dbl[i] = 0; v_str[i] = ""; v_bool[i] = false;
	}
	root = new property();
}
static void end(void) { delete root; root = NULL; }

int main(void)
{
	h_init();
	h_loop(begin, run, end);
	return 0;
}
