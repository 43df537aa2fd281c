/* Driver of the RPC server (J05). */
#include <array>
#include <tuple>
#include "json_dump.h"
#include "rexjsonrpc/rpcserver.h"

static std::vector<std::pair<std::string, value> > calls;

static void log(const char *kind, const array &ps) { calls.push_back(std::make_pair(std::string(kind), value(ps))); }
static array list() { return array(); }
template <typename A> static array list(A a) { array r; r.push_back(value(a)); return r; }
template <typename A, typename B> static array list(A a, B b) { array r; r.push_back(value(a)); r.push_back(value(b)); return r; }
static value raw(const std::string &s) { value v; v = s.c_str(); return v; }

static int f_pair(int a, int b) { log("pair", list(a, b)); return b; }
static std::string f_cat(std::string a, bool b) { array r; r.push_back(raw(a)); r.push_back(value(b)); log("cat", r); return b ? a : std::string(); }
static double f_real(double a) { log("real", list(a)); return a; }
static void f_nop(int64_t a) { log("nop", list((long)a)); }
static int f_none() { log("none", list()); return 7; }

struct Obj {
	int mem(int a, std::string b) { array r; r.push_back(value(a)); r.push_back(raw(b)); log("mem", r); return a; }
	std::string cmem(std::string a) const { array r; r.push_back(raw(a)); log("cmem", r); return a; }
};
static Obj obj;

class Srv : public rpc_server<Srv> {
public:
	static unsigned int *types(int ver)
	{
		static unsigned int a[] = { rpc_int_type | rpc_null_type, rpc_str_type };
		static unsigned int b[] = { rpc_int_type, rpc_str_type | rpc_null_type, rpc_obj_type | rpc_array_type | rpc_bool_type | rpc_real_type };
		return ver ? b : a;
	}
	value echo(array &params, rpc_exec_mode mode)
	{
		if (mode != execute)
			return noexec(params, mode, types(0), 2, "help echo");
		log("echo", params);
		return value(params);
	}
	value boom(array &params, rpc_exec_mode mode)
	{
		if (mode != execute)
			return noexec(params, mode, types(0), 2, "help boom");
		log("boom", params);
		throw std::runtime_error("boom");
	}
	value ver(array &params, rpc_exec_mode mode)
	{
		if (mode != execute)
			return noexec(params, mode, types(1), 3, "help ver");
		verify_parameters(params, types(1), 3);
		log("ver", params);
		return value(params);
	}
	void put(const std::string &name, const std::string &kind)
	{
		if (kind == "echo") add(name, &Srv::echo);
		else if (kind == "boom") add(name, this, &Srv::boom);
		else if (kind == "app") add(name, [this](array &params, rpc_exec_mode mode)->value {
				if (mode != execute)
					return noexec(params, mode, types(0), 2, "help app");
				log("app", params);
				throw create_rpc_error((rpc_error_code)-32050, "boom");
			});
		else if (kind == "ver") add(name, &Srv::ver);
		else if (kind == "pair") add(name, make_rpc_wrapper(f_pair, "help pair"));
		else if (kind == "cat") add(name, make_rpc_wrapper(f_cat, "help cat"));
		else if (kind == "real") add(name, make_rpc_wrapper(f_real, "help real"));
		else if (kind == "nop") add(name, make_rpc_wrapper(f_nop, "help nop"));
		else if (kind == "none") add(name, make_rpc_wrapper(f_none, "help none"));
		else if (kind == "mem") add(name, make_rpc_wrapper(&obj, &Obj::mem, "help mem"));
		else if (kind == "cmem") add(name, make_rpc_wrapper_const(&obj, &Obj::cmem, "help cmem"));
		else if (kind == "empty") add(name, rpc_method_type());
	}
};

static Srv *srv;
static value parse(const char *h) { value v; v.read(str(h), 1000); return v; }

static void run(int n, char **tok)
{
	std::string op = tok[0];
	calls.clear();
	if (op == "add") {
		int x = 0;
		try {
			srv->put(str(tok[1]), tok[2]);
		} catch (std::exception &e) {
			x = 1;
		}
		fprintf(OUT, "{\"x\":%d}", x);
	} else if (op == "types") {
		std::vector<unsigned int> m, b, c;
		for (int i = 1; i < n; i++) m.push_back(atoi(tok[i]));
		value s = Srv::create_json_spec(m.data(), m.size()), w = Srv::create_json_helpspec(m.data(), m.size());
		b = Srv::rpc_types(s.get_array());
		c = Srv::rpc_types(s.write());
		fprintf(OUT, "{\"ret\":");
		dump(s);
		fprintf(OUT, ",\"words\":");
		dump(w);
		fprintf(OUT, ",\"back\":[");
		for (size_t i = 0; i < b.size(); i++) fprintf(OUT, "%s%u", i ? "," : "", b == c ? b[i] : 1000);
		fprintf(OUT, "]}");
	} else if (op == "call") {
		value v;
		std::string how = tok[1];
		int x = 0;
		try {
			if (how == "text") v = srv->call(str(tok[2]), (rpc_exec_mode)atoi(tok[3]));
			else if (how == "value") v = srv->call(parse(tok[2]), (rpc_exec_mode)atoi(tok[3]));
			else v = srv->call(str(tok[2]), parse(tok[4]), parse(tok[5]).get_array(), (rpc_exec_mode)atoi(tok[3]));
		} catch (...) {
			x = 1;
		}
		fprintf(OUT, "{\"x\":%d,\"ret\":", x);
		dump(v);
		fprintf(OUT, ",\"log\":[");
		for (size_t i = 0; i < calls.size(); i++) {
			fprintf(OUT, "%s[", i ? "," : "");
			ints(calls[i].first);
			fputc(',', OUT);
			dump(calls[i].second);
			fputc(']', OUT);
		}
		fprintf(OUT, "]}");
	}
}

static void begin(void) { srv = new Srv(); }
static void end(void) { delete srv; }

int main(void)
{
	h_init();
	h_loop(begin, run, end);
	return 0;
}
