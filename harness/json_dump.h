/* Shared by the JSON drivers: values as RxJson has them. */
#ifndef JSON_DUMP_H
#define JSON_DUMP_H
#include <stdexcept>
#include <cmath>
#include <limits>
#include <vector>
#include <functional>
#include "rexjson++.h"
#include "hcommon.h"
using namespace rexjson;

static void ints(const std::string &s)
{
	fputc('[', OUT);
	for (size_t i = 0; i < s.size(); i++)
		fprintf(OUT, "%s%d", i ? "," : "", (unsigned char)s[i]);
	fputc(']', OUT);
}

static void real(double d)
{
	char b[64];
	if (d != d || d - d != 0) {
		fprintf(OUT, "[2]");
		return;
	}
	snprintf(b, sizeof b, "%.14e", fabs(d));
	std::string dg;
	char *p = b;
	for (; *p && *p != 'e'; p++)
		if (*p != '.') dg += *p;
	int x = atoi(p + 1) + 1;
	while (!dg.empty() && dg[dg.size() - 1] == '0') dg.erase(dg.size() - 1);
	if (dg.empty()) {
		fprintf(OUT, "[0,0]");
		return;
	}
	fprintf(OUT, "[%d,%d", d < 0, x);
	for (size_t i = 0; i < dg.size(); i++) fprintf(OUT, ",%d", dg[i]);
	fputc(']', OUT);
}

static void leaf(const char *t, const std::string &s)
{
	fprintf(OUT, "{\"t\":\"%s\",\"s\":", t);
	ints(s);
	fprintf(OUT, ",\"m\":[]}");
}

static void leafreal(double d)
{
	fprintf(OUT, "{\"t\":\"real\",\"s\":");
	real(d);
	fprintf(OUT, ",\"m\":[]}");
}

static std::string flag(bool b) { return std::string(1, b ? 1 : 0); }

static void dump(const value &v)
{
	switch (v.get_type()) {
	case null_type: leaf("null", ""); break;
	case bool_type: leaf("bool", flag(v.get_bool())); break;
	case int_type: leaf("int", std::to_string((long long)v.get_int64())); break;
	case real_type: leafreal(v.get_real()); break;
	case str_type: leaf("str", v.get_str()); break;
	case array_type: {
		const array &a = v.get_array();
		fprintf(OUT, "{\"t\":\"arr\",\"s\":[],\"m\":[");
		for (size_t i = 0; i < a.size(); i++) {
			fprintf(OUT, "%s{\"k\":[],\"v\":", i ? "," : "");
			dump(a[i]);
			fputc('}', OUT);
		}
		fprintf(OUT, "]}");
		break;
	}
	case obj_type: {
		const object &o = v.get_obj();
		bool first = true;
		fprintf(OUT, "{\"t\":\"obj\",\"s\":[],\"m\":[");
		for (object::const_iterator it = o.begin(); it != o.end(); ++it) {
			fprintf(OUT, "%s{\"k\":", first ? "" : ",");
			first = false;
			ints(it->first);
			fprintf(OUT, ",\"v\":");
			dump(it->second);
			fputc('}', OUT);
		}
		fprintf(OUT, "]}");
		break;
	}
	}
}

static std::string str(const char *h)
{
	long n;
	char *b = h_hex(h, &n, 0);
	std::string s(b, n);
	free(b);
	return s;
}

#endif
