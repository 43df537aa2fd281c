/* Driver of the JSON libraries (J01..J04): rexjson++.cpp and rexjson.c. */
#include "json_dump.h"
#include "rexjson.h"

/* read HEX MAX HOW: HOW 0 value::read(string), 1 value::read(chars), 2 read_no_throw, 3 input; 4, 5 without a limit */
static void do_read(int how, const std::string &t, long max)
{
	value v;
	int ok = 1;
	v = "before";
	try {
		switch (how) {
		case 0: v.read(t, max); break;
		case 1: { std::vector<char> c(t.begin(), t.end()); v.read(c.data(), c.size(), max); break; }
		case 2: ok = read_no_throw(v, t, max); break;
		case 3: { std::istringstream is(t); input in(is); in.read_steam(v, max); break; }
		case 4: v = read(t); break;
		case 5: { std::vector<char> c(t.begin(), t.end()); v = read(c.data(), c.size()); break; }
		}
	} catch (std::exception &e) {
		ok = 0;
	}
	fprintf(OUT, "{\"ok\":%d,\"v\":", ok);
	if (ok) dump(v); else leaf("null", "");
	fputc('}', OUT);
}

static void special(value &v)
{
	if (v.get_type() == str_type) {
		if (v.get_str() == "@inf") v = std::numeric_limits<double>::infinity();
		else if (v.get_str() == "@-inf") v = -std::numeric_limits<double>::infinity();
		else if (v.get_str() == "@nan") v = std::numeric_limits<double>::quiet_NaN();
		else if (v.get_str() == "@snan") v = -std::numeric_limits<double>::quiet_NaN();
	} else if (v.get_type() == array_type) {
		for (size_t i = 0; i < v.get_array().size(); i++) special(v[i]);
	} else if (v.get_type() == obj_type) {
		for (object::iterator it = v.get_obj().begin(); it != v.get_obj().end(); ++it) special(it->second);
	}
}

/* write HEX HOW pretty nullprop tab prec crlf */
static void do_write(const std::string &t, int how, bool pretty, bool np, long tab, long prec, const std::string &crlf)
{
	value v;
	std::string o;
	v.read(t, 1000);
	special(v);
	switch (how) {
	case 0: o = v.write(pretty, np, tab, prec); break;
	case 1: o = output(pretty, np, tab, prec, crlf).write(v); break;
	case 2: { std::ostringstream os; output(pretty, np, tab, prec, crlf).write(v, os); o = os.str(); break; }
	case 3: o = write(v); break;
	case 4: o = write_formatted(v); break;
	case 5: { output out(pretty, np, tab, prec, crlf); out.write(value(1.5)); out.write(v); o = out.write(v); break; }
	}
	ints(o);
}

/* c HEX RECSIZE MAX */
static void do_c(const char *hex, long recsize, long max)
{
	long n, i;
	char *b = h_hex(hex, &n, 0);
	rexjson_record_t *recs = (rexjson_record_t *)malloc(recsize * sizeof(rexjson_record_t));
	rexjson_t ctx;
	for (i = 0; i < recsize; i++) {            /* what an earlier text may have left */
		recs[i].rectype = i % 3 ? REXJSON_RECORD_BEGIN : REXJSON_RECORD_END;
		recs[i].valtype = REXJSON_VALUE_INT;
		recs[i].name = recs[i].namesize = recs[i].value = recs[i].valuesize = 0;
	}
	memset(&ctx, 0x5a, sizeof ctx);
	ssize_t ret = rexjson_parse_buffer(&ctx, recs, recsize, b, n, max);
	fprintf(OUT, "{\"ret\":%ld,\"err\":%d,\"off\":%ld,\"recs\":[", (long)ret, ret < 0 ? rexjson_get_error(&ctx) : 0, ret < 0 ? (long)rexjson_get_error_offset(&ctx) : 0);
	if (ret >= 0) {
		for (i = 0; i < recsize; i++)
			fprintf(OUT, "%s[%d,%d,%ld,%ld,%ld,%ld]", i ? "," : "", recs[i].rectype, recs[i].valtype,
				(long)recs[i].name, (long)recs[i].namesize, (long)recs[i].value, (long)recs[i].valuesize);
	}
	fprintf(OUT, "],\"nav\":[");
	if (ret >= 0) {
		std::vector<long> st;
		bool first = true;
		long steps = 0;
		st.push_back(0);
		while (!st.empty() && steps++ < 100000) {
			long r = st.back();
			fprintf(OUT, "%s[%ld,%ld]", first ? "" : ",", r, (long)st.size());
			first = false;
			long ch = rexjson_recordtree_firstchild(recs, recsize, r);
			if (ch >= 0) {
				st.push_back(ch);
				continue;
			}
			while (!st.empty()) {
				long nx = rexjson_recordtree_next(recs, recsize, st.back());
				if (nx >= 0) {
					st.back() = nx;
					break;
				}
				st.pop_back();
			}
		}
	}
	fprintf(OUT, "],\"out\":[%ld,%ld,%ld,%ld]", (long)rexjson_recordtree_firstchild(recs, recsize, -1), (long)rexjson_recordtree_next(recs, recsize, -1),
		(long)rexjson_recordtree_firstchild(recs, recsize, recsize), (long)rexjson_recordtree_next(recs, recsize, recsize));
	if (ret >= 0 && recsize) {
		FILE *nul = fopen("/dev/null", "w");
		rexjson_dump_tree(nul, recs, recsize, 0, b, 0);
		rexjson_dump_records(nul, recs, recsize, b);
		fclose(nul);
	}
	fputc('}', OUT);
	free(recs);
	free(b);
}

static long live_blocks;
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); live_blocks++; return p; }
void operator delete(void *p) noexcept { if (p) live_blocks--; free(p); }
void operator delete(void *p, size_t) noexcept { if (p) live_blocks--; free(p); }

/* ---- values with a history: v OP PATH ... */
#define NREG 3
static value *regs[NREG];

static value &at(const char *path)
{
	value *v = regs[atoi(path)];
	const char *p = strchr(path, '/');
	while (p) {
		const char *q = strchr(p + 1, '/');
		std::string s(p + 1, q ? q - p - 1 : strlen(p + 1));
		if (s[0] == 'i') v = &(*v)[(size_t)atol(s.c_str() + 1)];
		else v = &(*v)[str(s.c_str() + 1)];
		p = q;
	}
	return *v;
}

static void assign(value &v, const char *t, const char *a, int how)
{
	switch (t[0]) {
	case 'n': if (how) v = value(); else v = value::null; break;
	case 'b': if (how == 1) v = value((bool)atoi(a)); else if (how == 2) v.set_bool(atoi(a)); else v = (bool)atoi(a); break;
	case 'i': if (how == 1) v = value(atoi(a)); else if (how == 2) v.set_int(atoi(a)); else if (how == 3) v = value((unsigned)atoi(a)); else v = atoi(a); break;
	case 'l': if (how == 1) v = value(atol(a)); else if (how == 2) v.set_int((int64_t)atoll(a)); else if (how == 3) v = value((unsigned long long)atoll(a)); else if (how == 4) v = value((unsigned long)atoll(a)); else if (how == 5) v = value(atoll(a)); else v = (int64_t)atoll(a); break;
	case 'd': if (how == 1) v = value(atof(a)); else if (how == 2) v.set_real(atof(a)); else v = atof(a); break;
	case 'c': if (how == 1) v = value(str(a).c_str()); else if (how == 2) v.set_str(str(a).c_str()); else v = str(a).c_str(); break;
	case 's': if (how == 1) v = value(str(a)); else if (how == 2) v.set_str(str(a)); else v = str(a); break;
	case 'o': if (how == 1) v = value(object()); else if (how == 2) v.set_object(object()); else v = object(); break;
	case 'a': if (how == 1) v = value(array()); else if (how == 2) v.set_array(array()); else v = array(); break;
	}
}

static void get(value &v, const std::string &t)
{
	const value &c = v;
	if (t == "type") leaf("str", value::get_typename(v.get_type()));
	else if (t == "name") leaf("str", v.get_typename());
	else if (t == "null") leaf("bool", flag(c.is_null()));
	else if (t == "str") leaf("str", c.get_str());
	else if (t == "bool") leaf("bool", flag(c.get_bool()));
	else if (t == "int") leaf("int", std::to_string(c.get_int()));
	else if (t == "int64") leaf("int", std::to_string((long long)c.get_int64()));
	else if (t == "real") leafreal(c.get_real());
	else if (t == "obj") { value x; x = c.get_obj(); dump(x); }
	else if (t == "arr") { value x; x = c.get_array(); dump(x); }
	else if (t == "mobj") { value x(v.get_obj()); dump(x); }
	else if (t == "marr") { value x(v.get_array()); dump(x); }
	else if (t == "tstr") leaf("str", c.get_value<std::string>());
	else if (t == "tbool") leaf("bool", flag(c.get_value<bool>()));
	else if (t == "tint") leaf("int", std::to_string(c.get_value<int>()));
	else if (t == "tint64") leaf("int", std::to_string((long long)c.get_value<int64_t>()));
	else if (t == "treal") leafreal(c.get_value<double>());
	else if (t == "tfloat") leafreal(c.get_value<float>());
	else if (t == "cbool") leaf("bool", flag((bool)v));
	else if (t == "cint") leaf("int", std::to_string((int)v));
	else if (t == "cint64") leaf("int", std::to_string((long long)(int64_t)v));
	else if (t == "creal") leafreal((double)v);
	else if (t == "cfloat") leafreal((float)v);
	else if (t == "dump") dump(c);
}

static void do_v(int n, char **tok)
{
	std::string op = tok[1];
	int threw = 0;
	fprintf(OUT, "{\"v\":");
	try {
		if (op == "set") {
			assign(at(tok[2]), tok[3], tok[4], atoi(tok[5]));
		} else if (op == "get") {
			get(at(tok[2]), tok[3]);
		} else if (op == "copy") {
			value &d = at(tok[2]);
			value &s = at(tok[3]);
			value &r = d = s;
			if (&r != &d) abort();
		} else if (op == "copyobj") {        /* assignment of the container inside */
			value &d = at(tok[2]);
			value &s = at(tok[3]);
			if (s.get_type() == array_type) d = s.get_array();
			else d = s.get_obj();
		} else if (op == "ctor") {
			value &s = at(tok[3]);
			value *x = new value(s);
			int r = atoi(tok[2]);
			delete regs[r];
			regs[r] = x;
		} else if (op == "move") {
			value &d = at(tok[2]);
			value &s = at(tok[3]);
			d.move(s);
		} else if (op == "push") {
			value &d = at(tok[2]);
			value &s = at(tok[3]);
			d.push_back(s) ;
		} else if (op == "pushn") {
			value &d = at(tok[2]);
			d.push_back() = atoi(tok[3]);
		} else if (op == "elem") {
			value &d = at(tok[2]);
			const array &a = d.get_array();
			dump(atol(tok[4]) ? a[(size_t)atol(tok[3])] : d.get_array()[(size_t)atol(tok[3])]);
		} else if (op == "read") {
			value &d = at(tok[2]);
			d.read(str(tok[3]));
		}
		if (op != "get" && op != "elem") leaf("null", "");
	} catch (std::exception &e) {
		threw = 1;
		leaf("null", "");
	}
	fprintf(OUT, ",\"x\":%d,\"r\":[", threw);
	for (int i = 0; i < NREG; i++) {
		if (i) fputc(',', OUT);
		dump(*regs[i]);
	}
	fprintf(OUT, "]}");
}

static long live0;
static void do_fin(void)
{
	for (int i = 0; i < NREG; i++) {
		delete regs[i];
		regs[i] = NULL;
	}
	fprintf(OUT, "%ld", live_blocks - live0);
}

static void begin(void) { live0 = live_blocks; for (int i = 0; i < NREG; i++) regs[i] = new value(); }
static void end(void) { for (int i = 0; i < NREG; i++) delete regs[i]; }

static void run(int n, char **tok)
{
	std::string op = tok[0];
	if (op == "read") do_read(atoi(tok[1]), str(tok[2]), atol(tok[3]));
	else if (op == "write") do_write(str(tok[1]), atoi(tok[2]), atoi(tok[3]), atoi(tok[4]), atol(tok[5]), atol(tok[6]), str(tok[7]));
	else if (op == "c") do_c(tok[1], atol(tok[2]), atol(tok[3]));
	else if (op == "v") do_v(n, tok);
	else if (op == "fin") do_fin();
}

int main(void)
{
	h_init();
	h_loop(begin, run, end);
	return 0;
}
