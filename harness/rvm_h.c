/* Driver for the virtual machine, the code generator and the scopes. */
#include "hcommon.h"
#include "rvm/rvmcpu.h"
#include "rvm/rvmcodegen.h"
#include "rvm/rvmscope.h"
#include "rlib/rmem.h"

static struct { const char *n; int op; } OPS[] = {
	{"EXT", RVM_EXT}, {"ABORT", RVM_ABORT}, {"ASR", RVM_ASR}, {"SWI", RVM_SWI}, {"SWIID", RVM_SWIID}, {"CALL", RVM_CALL}, {"MOV", RVM_MOV}, {"MOVS", RVM_MOVS},
	{"SWP", RVM_SWP}, {"INC", RVM_INC}, {"DEC", RVM_DEC}, {"ADD", RVM_ADD}, {"ADDS", RVM_ADDS}, {"ADC", RVM_ADC}, {"AND", RVM_AND}, {"BIC", RVM_BIC},
	{"CLZ", RVM_CLZ}, {"CMN", RVM_CMN}, {"XOR", RVM_XOR}, {"SUB", RVM_SUB}, {"SUBS", RVM_SUBS}, {"SBC", RVM_SBC}, {"MUL", RVM_MUL}, {"MLS", RVM_MLS},
	{"MULS", RVM_MULS}, {"NOT", RVM_NOT}, {"DIV", RVM_DIV}, {"DVS", RVM_DVS}, {"DIVS", RVM_DIVS}, {"MOD", RVM_MOD}, {"MODS", RVM_MODS}, {"BX", RVM_BX},
	{"BXEQ", RVM_BXEQ}, {"BXNEQ", RVM_BXNEQ}, {"BXLEQ", RVM_BXLEQ}, {"BXGEQ", RVM_BXGEQ}, {"BXLES", RVM_BXLES}, {"BXGRE", RVM_BXGRE}, {"BXL", RVM_BXL},
	{"BL", RVM_BL}, {"B", RVM_B}, {"STR", RVM_STR}, {"STRP", RVM_STRP}, {"STRB", RVM_STRB}, {"STRH", RVM_STRH}, {"STRW", RVM_STRW}, {"STRR", RVM_STRR},
	{"LDR", RVM_LDR}, {"LDRP", RVM_LDRP}, {"LDRB", RVM_LDRB}, {"LDRH", RVM_LDRH}, {"LDRW", RVM_LDRW}, {"LDRR", RVM_LDRR}, {"CFLAG", RVM_CFLAG},
	{"CLR", RVM_CLR}, {"CLRR", RVM_CLRR}, {"LSL", RVM_LSL}, {"LSR", RVM_LSR}, {"LSRS", RVM_LSRS}, {"STM", RVM_STM}, {"LDM", RVM_LDM}, {"STS", RVM_STS},
	{"LDS", RVM_LDS}, {"ORR", RVM_ORR}, {"PUSH", RVM_PUSH}, {"POP", RVM_POP}, {"CMP", RVM_CMP}, {"NOP", RVM_NOP}, {"BEQ", RVM_BEQ}, {"BNEQ", RVM_BNEQ},
	{"BLEQ", RVM_BLEQ}, {"BGEQ", RVM_BGEQ}, {"BLES", RVM_BLES}, {"BGRE", RVM_BGRE}, {"RET", RVM_RET}, {"ROR", RVM_ROR}, {"PUSHM", RVM_PUSHM},
	{"POPM", RVM_POPM}, {"TST", RVM_TST}, {"TEQ", RVM_TEQ}, {"ADDRS", RVM_ADDRS}, {"SETTYPE", RVM_SETTYPE}, {"TYPE", RVM_TYPE}, {"USR", RVM_USER128}, {NULL, 0}
};

static int opno(const char *n)
{
	int i;
	for (i = 0; OPS[i].n; i++)
		if (!strcmp(OPS[i].n, n)) return OPS[i].op;
	fprintf(stderr, "op %s?\n", n);
	exit(4);
}

static void limbs(ruword w)
{
	fprintf(OUT, "[%u,%u,%u,%u]", (unsigned)(w & 0xffff), (unsigned)((w >> 16) & 0xffff), (unsigned)((w >> 32) & 0xffff), (unsigned)(w >> 48));
}

/* ---------------------------------------------------------------- one instruction on full words */
#define NALU 13
static void alu(char **t)   /* alu OP o1 o2 o3 status data r0..r12 ty0..ty12 */
{
	rvmcpu_t *cpu = rvm_cpu_create_default();
	rvm_asmins_t *p = (rvm_asmins_t *)malloc(2 * sizeof(*p));
	int i, ret;
	p[0] = rvm_asm(opno(t[1]), atoi(t[2]), atoi(t[3]), atoi(t[4]), strtoull(t[6], NULL, 16));
	p[1] = rvm_asm(RVM_EXT, XX, XX, XX, 0);
	for (i = 0; i < NALU; i++) {
		rvmreg_t r;
		memset(&r, 0, sizeof(r));
		RVM_REG_SETU(&r, strtoull(t[7 + i], NULL, 16));
		RVM_REG_SETTYPE(&r, atoi(t[7 + NALU + i]));
		rvm_cpu_setreg(cpu, i, &r);
	}
	cpu->status = atoi(t[5]);
	ret = rvm_cpu_exec(cpu, p, 0);
	fprintf(OUT, "{\"ret\":%d,\"err\":%d,\"st\":%d,\"r\":[", ret, (int)cpu->error, (int)cpu->status);
	for (i = 0; i < NALU; i++) {
		if (i) fputc(',', OUT);
		limbs(RVM_REG_GETU(rvm_cpu_getreg(cpu, i)));
	}
	fprintf(OUT, "],\"t\":[");
	for (i = 0; i < NALU; i++)
		fprintf(OUT, "%s%d", i ? "," : "", rvm_reg_gettype(rvm_cpu_getreg(cpu, i)));
	fprintf(OUT, "]}");
	rvm_cpu_destroy(cpu);
	free(p);
}

/* ---------------------------------------------------------------- one memory instruction on bytes */
static void memop(char **t)   /* mem OP o1 o2 base-reg offset maskreg data(hex mem) r0..r7 */
{
	rvmcpu_t *cpu = rvm_cpu_create_default();
	rvm_asmins_t *p = (rvm_asmins_t *)malloc(2 * sizeof(*p));
	long n, i;
	char *mem = h_hex(t[6], &n, 0);
	int ret;
	p[0] = rvm_asm(opno(t[1]), atoi(t[2]), atoi(t[3]), XX, 0);
	p[1] = rvm_asm(RVM_EXT, XX, XX, XX, 0);
	for (i = 0; i < 8; i++) {
		rvmreg_t r;
		memset(&r, 0, sizeof(r));
		RVM_REG_SETU(&r, strtoull(t[7 + i], NULL, 16));
		rvm_cpu_setreg(cpu, i, &r);
	}
	RVM_CPUREG_SETP(cpu, atoi(t[4]), mem + atoi(t[5]));
	ret = rvm_cpu_exec(cpu, p, 0);
	fprintf(OUT, "{\"ret\":%d,\"err\":%d,\"m\":[", ret, (int)cpu->error);
	for (i = 0; i < n; i++) fprintf(OUT, "%s%d", i ? "," : "", (unsigned char)mem[i]);
	fprintf(OUT, "],\"r\":[");
	for (i = 0; i < 8; i++) {
		ruword w = RVM_REG_GETU(rvm_cpu_getreg(cpu, i));
		if (i) fputc(',', OUT);
		if (w == (ruword)(mem + atoi(t[5]))) fprintf(OUT, "[0,0,0,1]"); else limbs(w);
	}
	fprintf(OUT, "]}");
	rvm_cpu_destroy(cpu);
	free(p);
	free(mem);
}

/* ---------------------------------------------------------------- programs */
#define PAD 40
#define MEMW 4
#define FUEL 300
static rvmcpu_t *C;
static rvm_asmins_t *code;
static long ncode, steps;
static rvmreg_t mem[MEMW];
static rvm_optable_t orig[RVM_COUNT];
static long log_[FUEL + 8], nlog, calls[FUEL + 8][2], ncalls;

static long enc(ruword w)
{
	char *p = (char *)w;
	if (p >= (char *)(code - 1) && p <= (char *)(code + ncode) && (p - (char *)(code - 1)) % sizeof(*code) == 0)
		return 2000000 + ((rvm_asmins_t *)p - code);
	if (p >= (char *)C->stack && p < (char *)C->stack + C->stacksize * sizeof(rvmreg_t))
		return ((p - (char *)C->stack) % sizeof(rvmreg_t)) ? 88888888 : 1000000 + (long)((rvmreg_t *)p - (rvmreg_t *)C->stack);
	if (p >= (char *)mem && p < (char *)(mem + MEMW))
		return 3000000 + (long)((rvmreg_t *)p - mem);
	if ((rword)w < 1000000 && (rword)w > -1000000) return (long)(rword)w;
	return 99999999;
}

static int goodcode(ruword w) { long e = enc(w); return e >= 1999999 && e < 2000000 + ncode - 1; }
static int goodreg(ruword w) { long e = enc(w); return (e >= 1000000 && e < 1900000) || (e >= 3000000 && e < 3000000 + MEMW); }

static int odd(ruword w) { return (rword)w >= 400000 || (rword)w <= -400000; }
static void stop(rvmcpu_t *cpu, int e) { rvm_cpu_abort(cpu); cpu->error = e; }

static void wrapper(rvmcpu_t *cpu, rvm_asmins_t *ins)
{
	int bad = 0;
	ruword x = RVM_CPUREG_GETU(cpu, ins->op1), y = RVM_CPUREG_GETU(cpu, ins->op2);
	if (steps++ >= FUEL) {
		rvm_cpu_abort(cpu);      /* as a user would */
		return;
	}
	log_[nlog++] = ins - code;
	switch (ins->opcode) {
	case RVM_LDRR: bad = !goodreg(y); break;
	case RVM_STRR: bad = RVM_CPUREG_GETTYPE(cpu, ins->op2) == RVM_DTYPE_POINTER && !goodreg(y); break;
	case RVM_CLRR: bad = !goodreg(x); break;
	case RVM_CALL:
		if (RVM_CPUREG_GETTYPE(cpu, ins->op1) == RVM_DTYPE_OPHANDLER) bad = ins->op1 != DA || RVM_REG_GETTYPE(&ins->data) != RVM_DTYPE_OPHANDLER;
		if (RVM_CPUREG_GETTYPE(cpu, ins->op1) == RVM_DTYPE_SWIID) bad = (x & 0xff) > 1 || x > 0xffff;
		break;
	case RVM_SWIID: bad = (x & 0xff) > 1 || x > 0xffff; break;
	case RVM_ADD: case RVM_SUB: case RVM_ADDS: case RVM_SUBS: case RVM_STS: case RVM_LDS: case RVM_ADDRS:
		bad = (ins->op2 != XX && odd(y)) || (ins->op3 != XX && odd(RVM_CPUREG_GETU(cpu, ins->op3)));
		break;
	case RVM_CMP: bad = odd(x) || odd(y); break;
	case RVM_MOVS: case RVM_SETTYPE: bad = odd(y); break;
	case RVM_INC: case RVM_DEC: case RVM_B: case RVM_BL: case RVM_BEQ: case RVM_BNEQ: case RVM_BLES: case RVM_BLEQ: case RVM_BGRE: case RVM_BGEQ:
		bad = odd(x);
		break;
	case RVM_PUSH: case RVM_POP: bad = odd(RVM_CPUREG_GETU(cpu, SP)); break;
	case RVM_PUSHM: case RVM_POPM: bad = odd(RVM_CPUREG_GETU(cpu, SP)) || x > 32767; break;
	case RVM_CFLAG: bad = x > 7; break;
	case RVM_ABORT: bad = x < 1 || x > 1000; break;
	}
	if (bad) {
		stop(cpu, 77);
		return;
	}
	orig[ins->opcode].op(cpu, ins);
	if (!cpu->abort && !goodcode(RVM_CPUREG_GETU(cpu, PC)))
		stop(cpu, 77);
}

static void swi_call(rvmcpu_t *cpu, rvm_asmins_t *ins, int id)
{
	if (ncalls < FUEL) {
		calls[ncalls][0] = id;
		calls[ncalls++][1] = enc(RVM_CPUREG_GETU(cpu, ins->op2));
	}
	RVM_CPUREG_SETU(cpu, R0, 500 + id);
}
static void swi_a0(rvmcpu_t *c, rvm_asmins_t *i) { swi_call(c, i, 0); }
static void swi_a1(rvmcpu_t *c, rvm_asmins_t *i) { swi_call(c, i, 1); }
static void swi_b0(rvmcpu_t *c, rvm_asmins_t *i) { swi_call(c, i, 256); }
static void swi_b1(rvmcpu_t *c, rvm_asmins_t *i) { swi_call(c, i, 257); }
static void swi_c0(rvmcpu_t *c, rvm_asmins_t *i) { swi_call(c, i, 99); }
static void usr_op(rvmcpu_t *c, rvm_asmins_t *i) { swi_call(c, i, 77); }
static rvm_switable_t TA[] = {{"one", swi_a0}, {"two", swi_a1}, {NULL, NULL}};
static rvm_switable_t TB[] = {{"two", swi_b0}, {"three", swi_b1}, {NULL, NULL}};
static rvm_switable_t TC[] = {{"thr", swi_c0}, {"three3", swi_c0}, {"one", swi_c0}, {NULL, NULL}};
static rvm_switable_t *TABS[] = {TA, TB, TC};

static void val(rvmreg_t *r, char k, long v)
{
	memset(r, 0, sizeof(*r));
	switch (k) {
	case 'u': rvm_reg_setunsigned(r, (ruword)(rword)v); break;
	case 'l': rvm_reg_setsigned(r, v); break;
	case 'b': rvm_reg_setboolean(r, v); break;
	case 'p': rvm_reg_setpointer(r, code + v); break;
	case 'f': rvm_reg_setpointer(r, code + v); rvm_reg_settype(r, RVM_DTYPE_FUNCTION); break;
	case 's': rvm_reg_setunsigned(r, v); rvm_reg_settype(r, RVM_DTYPE_SWIID); break;
	case 'm': rvm_reg_setpointer(r, mem + v); break;
	case 'h': rvm_reg_setophandler(r, (rpointer)usr_op); break;
	}
}

static rvm_asmins_t mk(char *s)
{
	char op[16], k;
	int a, b, c;
	long v;
	if (sscanf(s, "%15[^,],%d,%d,%d,%c,%ld", op, &a, &b, &c, &k, &v) != 6) exit(5);
	ruword o = !strcmp(op, "SWI") ? (ruword)RVM_OPSWI(v) : (ruword)opno(op);
	switch (k) {
	case 'u': return rvm_asm(o, a, b, c, (ruword)(rword)v);
	case 'l': return rvm_asml(o, a, b, c, v);
	case 'b': return rvm_asmb(o, a, b, c, v);
	case 'p': return rvm_asmp(o, a, b, c, code + v);
	case 'f': return rvm_asmf(o, a, b, c, (ruword)(code + v));
	case 's': return rvm_asms(o, a, b, c, v);
	case 'm': return rvm_asmp(o, a, b, c, mem + v);
	}
	rvm_asmins_t i = rvm_asmp(o, a, b, c, NULL);
	val(&i.data, k, v);
	return i;
}

static void regout(rvmreg_t *r)
{
	long e = RVM_REG_GETTYPE(r) == RVM_DTYPE_OPHANDLER ? 0 : enc(RVM_REG_GETU(r));
	fprintf(OUT, "[%ld,%d]", e, RVM_REG_GETTYPE(r));
}

static void prog(int n, char **t)   /* prog mode stacksize off nstack ins... */
{
	int mode = atoi(t[1]), off = atoi(t[3]), ns = atoi(t[4]), i, ret;
	long m;
	rvm_asmins_t *buf;
	ncode = n - 5;
	buf = (rvm_asmins_t *)calloc(ncode + 2 * PAD, sizeof(*buf));      /* zero is EXT */
	code = buf + PAD;
	C = rvm_cpu_create(atoi(t[2]));
	memset(C->stack, 0, C->stacksize * sizeof(rvmreg_t));
	for (i = 0; i < MEMW; i++) rvm_reg_init(&mem[i]), rvm_reg_setunsigned(&mem[i], 0);
	rvm_cpu_addswitable(C, "alpha", TA);
	rvm_cpu_addswitable(C, "beta", TB);
	rvm_cpu_setophandler(C, RVM_USER128, "USR", usr_op);
	for (i = 0; i < ncode; i++)
		code[i] = mk(t[5 + i]);
	nlog = ncalls = steps = 0;
	if (mode == 1) {
		memcpy(orig, C->ops, sizeof(orig));
		for (i = 0; i < RVM_COUNT; i++)
			if (orig[i].op) rvm_cpu_setophandler(C, i, orig[i].name, wrapper);
	}
	if (mode != 1) {      /* a program that fails before it leaves nothing behind */
		rvm_asmins_t bad[2] = {rvm_asm(RVM_ABORT, DA, XX, XX, 13), rvm_asm(RVM_EXT, XX, XX, XX, 0)};
		rvmreg_t z;
		rvm_cpu_exec(C, bad, 0);
		rvm_reg_init(&z);
		rvm_reg_setunsigned(&z, 0);
		rvm_cpu_setreg(C, DA, &z);
	}
	ret = mode == 2 ? rvm_cpu_exec_debug(C, code, off) : rvm_cpu_exec(C, code, off);
	fprintf(OUT, "{\"ret\":%d,\"err\":%d,\"st\":%d,\"r\":[", ret, (int)C->error, (int)C->status);
	for (i = 0; i < 15; i++) {
		if (i) fputc(',', OUT);
		regout(rvm_cpu_getreg(C, i));
	}
	fprintf(OUT, "],\"s\":[");
	for (i = 0; i < ns && i < (int)C->stacksize; i++) {
		if (i) fputc(',', OUT);
		regout((rvmreg_t *)C->stack + i);
	}
	fprintf(OUT, "],\"m\":[");
	for (i = 0; i < MEMW; i++) {
		if (i) fputc(',', OUT);
		regout(&mem[i]);
	}
	fprintf(OUT, "],\"calls\":[");
	for (m = 0; m < ncalls; m++) fprintf(OUT, "%s[%ld,%ld]", m ? "," : "", calls[m][0], calls[m][1]);
	fprintf(OUT, "],\"log\":[");
	for (m = 0; m < nlog; m++) fprintf(OUT, "%s%ld", m ? "," : "", log_[m]);
	fprintf(OUT, "]}");
	rvm_cpu_destroy(C);
	C = NULL;
	free(buf);
}

/* ---------------------------------------------------------------- switables: one processor per line */
static rvmcpu_t *SC;
static void swi(int n, char **t)
{
	if (!SC) SC = rvm_cpu_create_default();
	if (!strcmp(t[1], "add")) fprintf(OUT, "%d", rvm_cpu_addswitable(SC, t[2], TABS[atoi(t[3])]) < 0 ? -1 : 0);
	else if (!strcmp(t[2], "-")) fprintf(OUT, "%d", rvm_cpu_swilookup_s(SC, NULL, t[3]));
	else fprintf(OUT, "%d", rvm_cpu_swilookup_s(SC, t[2], t[3]));
}

/* ---------------------------------------------------------------- code generator */
static rvm_codegen_t *G;
static const char *Z(char *s) { return strcmp(s, "-") ? s : ""; }

static void linkout(void)
{
	rvm_codelabel_t *err = NULL;
	int ret = rvm_codegen_relocate(G, &err);
	fprintf(OUT, "{\"ret\":%d,\"err\":", ret);
	if (ret && err && err->name) h_putstr(err->name->str, err->name->size); else fprintf(OUT, "\"\"");
	fprintf(OUT, "}");
}

static void opnd(int o)
{
	const char *n = o == DA ? "\"DA\"" : o == XX ? "\"XX\"" : o == SP ? "\"SP\"" : o == FP ? "\"FP\"" : o == LR ? "\"LR\"" : NULL;
	if (n) fprintf(OUT, "%s", n); else fprintf(OUT, "%d", o);
}

/* all instructions; k tells whether the data is a number N, points into the code C or into the data D */
static void dump(void)
{
	long k, m, n = (long)rvm_codegen_getcodesize(G), size = (long)sizeof(rvm_asmins_t);
	char *base = (char *)rvm_codegen_getcode(G, 0), *data = (char *)r_array_slot(G->staticdata, 0);
	long nd = (long)r_array_length(G->staticdata);

	fprintf(OUT, "[");
	for (k = 0; k < n; k++) {
		rvm_asmins_t *i = rvm_codegen_getcode(G, k);
		char *p = (char *)i->data.v.w;
		for (m = 0; OPS[m].n && OPS[m].op != i->opcode; m++) ;
		fprintf(OUT, "%s{\"o\":\"%s\",\"a\":[", k ? "," : "", OPS[m].n ? OPS[m].n : "?");
		opnd(i->op1); fputc(',', OUT); opnd(i->op2); fputc(',', OUT); opnd(i->op3);
		if (data && p >= data && p < data + nd) {
			/* v: read as a place in the code (one far behind its end may lie in the data) */
			fprintf(OUT, "],\"k\":\"D\",\"v\":%ld,\"al\":%ld,\"z\":%ld,\"b\":[", base && (p - base) % size == 0 && labs(p - base) < 1000000000 ? (long)(p - base) / size : -999999L,
				(long)(p - data) % 8, (long)i->data.size);
			for (m = 0; m < 40 && p + m < data + nd; m++) fprintf(OUT, "%s%d", m ? "," : "", (unsigned char)p[m]);
			fprintf(OUT, "]}");
		} else if (base && p >= base - size && p <= base + 100 * n * size && (p - base) % size == 0)
			fprintf(OUT, "],\"k\":\"C\",\"v\":%ld}", (long)(p - base) / size);
		else
			fprintf(OUT, "],\"k\":\"N\",\"v\":%ld}", (rword)p > -1000000000 && (rword)p < 1000000000 ? (long)(rword)p : 999999999L);
	}
	fprintf(OUT, "]");
}

static long IX(const char *a)      /* a label's number, or $name */
{
	return a[0] == '$' ? rvm_codemap_lookup_s(G->codemap, a[1] == '-' ? "" : a + 1) : atol(a);
}

static void cg(int n, char **t)
{
	char *c = t[1];
	long v;
	if (!G) G = rvm_codegen_create();
	if (!strcmp(c, "ins")) fprintf(OUT, "%lu", rvm_codegen_addins(G, rvm_asm(RVM_NOP, R0, R1, R2, atoi(t[2]))));
	else if (!strcmp(c, "label")) fprintf(OUT, "%ld", rvm_codegen_addlabel_s(G, Z(t[2]), atoi(t[3])));
	else if (!strcmp(c, "here")) fprintf(OUT, "%ld", rvm_codegen_addlabel_default_s(G, Z(t[2])));
	else if (!strcmp(c, "heren")) fprintf(OUT, "%ld", rvm_codegen_addlabel_default(G, t[2], atoi(t[3])));       /* a prefix of the name */
	else if (!strcmp(c, "num")) fprintf(OUT, "%ld", rvm_codegen_add_numlabel_s(G, t[2], atoi(t[3])));
	else if (!strcmp(c, "invnum")) fprintf(OUT, "%ld", rvm_codegen_invalid_add_numlabel_s(G, t[2], atoi(t[3])));
	else if (!strcmp(c, "inv")) fprintf(OUT, "%ld", rvm_codegen_invalid_addlabel_s(G, Z(t[2])));
	else if (!strcmp(c, "labins")) fprintf(OUT, "%lu", rvm_codegen_addlabelins_s(G, Z(t[2]), rvm_asm(RVM_NOP, R0, R1, R2, atoi(t[3]))));
	else if (!strcmp(c, "rel")) fprintf(OUT, "%lu", rvm_codegen_addrelocins_s(G, (rvm_reloctype_t)atoi(t[3]), Z(t[2]), rvm_asm(RVM_NOP, DA, R1, R2, 0)));
	else if (!strcmp(c, "relidx")) fprintf(OUT, "%lu", rvm_codegen_index_addrelocins(G, (rvm_reloctype_t)atoi(t[3]), IX(t[2]), rvm_asm(RVM_NOP, DA, R1, R2, 0)));
	else if (!strcmp(c, "redef")) fprintf(OUT, "%ld", rvm_codegen_redefinelabel(G, IX(t[2]), atoi(t[3])));
	else if (!strcmp(c, "redefhere")) fprintf(OUT, "%ld", rvm_codegen_redefinelabel_default(G, IX(t[2])));
	else if (!strcmp(c, "redefptr")) fprintf(OUT, "%ld", rvm_codegen_redefinepointer(G, IX(t[2]), (rpointer)(ruword)atol(t[3])));
	else if (!strcmp(c, "str")) fprintf(OUT, "%ld", rvm_codegen_addstring_s(G, Z(t[2]), Z(t[3])));
	else if (!strcmp(c, "data")) { long len; char *b = h_hex(t[3], &len, 0); v = rvm_codegen_adddata_s(G, Z(t[2]), b, len); free(b); fprintf(OUT, "%ld", v); }
	else if (!strcmp(c, "off")) fprintf(OUT, "%ld", rvm_codemap_addoffset_s(G->codemap, Z(t[2]), IX(t[3]), atol(t[4]) * (atoi(t[5]) ? (long)sizeof(rvm_asmins_t) : 1)));
	else if (!strcmp(c, "valid")) fprintf(OUT, "%ld", rvm_codegen_validlabel(G, IX(t[2])));
	else if (!strcmp(c, "look")) fprintf(OUT, "%ld", rvm_codemap_lookup_s(G->codemap, Z(t[2])));
	else if (!strcmp(c, "lookadd")) fprintf(OUT, "%ld", rvm_codemap_lookupadd_s(G->codemap, Z(t[2])));
	else if (!strcmp(c, "last")) fprintf(OUT, "%ld", rvm_codemap_lastlabel(G->codemap));
	else if (!strcmp(c, "name")) {
		rvm_codelabel_t *l = rvm_codemap_label(G->codemap, IX(t[2]));
		if (!l) fprintf(OUT, "\"<none>\""); else h_putstr(l->name->str, l->name->size);
	}
	else if (!strcmp(c, "size")) fprintf(OUT, "%lu", rvm_codegen_getcodesize(G));
	else if (!strcmp(c, "cut")) { rvm_codegen_setcodesize(G, atoi(t[2])); fprintf(OUT, "0"); }
	else if (!strcmp(c, "repl")) fprintf(OUT, "%lu", rvm_codegen_replaceins(G, atoi(t[2]), rvm_asm(RVM_NOP, R0, R1, R2, atoi(t[3]))));
	else if (!strcmp(c, "src")) { rvm_codegen_setsource(G, atoi(t[2])); fprintf(OUT, "0"); }
	else if (!strcmp(c, "getsrc")) fprintf(OUT, "%ld", rvm_codegen_getsource(G, atoi(t[2])));
	else if (!strcmp(c, "func")) fprintf(OUT, "%u", rvm_codegen_funcstart_s(G, Z(t[2]), atoi(t[3])));
	else if (!strcmp(c, "vfunc")) fprintf(OUT, "%u", rvm_codegen_vargs_funcstart_s(G, Z(t[2])));
	else if (!strcmp(c, "fend")) { rvm_codegen_funcend(G); fprintf(OUT, "0"); }
	else if (!strcmp(c, "clear")) { rvm_codegen_clear(G); fprintf(OUT, "0"); }
	else if (!strcmp(c, "link")) linkout();
	else if (!strcmp(c, "fill")) { int k; for (k = 0; k < atoi(t[2]); k++) rvm_codegen_addins(G, rvm_asm(RVM_NOP, R0, R1, R2, 0)); fprintf(OUT, "%lu", rvm_codegen_getcodesize(G)); }
	else if (!strcmp(c, "dump")) dump();
	else exit(6);
}

/* ---------------------------------------------------------------- scopes */
static rvm_scope_t *S;
static void sc(int n, char **t)
{
	char *c = t[1];
	if (!S) S = rvm_scope_create();
	if (!strcmp(c, "push")) { rvm_scope_push(S); fprintf(OUT, "%u", rvm_scope_count(S)); }
	else if (!strcmp(c, "pop")) { rvm_scope_pop(S); fprintf(OUT, "%u", rvm_scope_count(S)); }
	else if (!strcmp(c, "off")) { rvm_scope_addoffset(S, t[2], atoi(t[4]), atoi(t[3])); fprintf(OUT, "%u", rvm_scope_numentries(S)); }
	else if (!strcmp(c, "ptr")) { rvm_scope_addpointer(S, t[2], atoi(t[4]), (rpointer)(ruword)atol(t[3])); fprintf(OUT, "%u", rvm_scope_numentries(S)); }
	else if (!strcmp(c, "look") || !strcmp(c, "tip")) {
		rvm_varmap_t *v = c[0] == 'l' ? rvm_scope_lookup(S, t[2], atoi(t[3])) : rvm_scope_tiplookup(S, t[2], atoi(t[3]));
		if (!v) fprintf(OUT, "[]");
		else {
			fputc('[', OUT);
			h_putstr(v->name, strlen(v->name));
			if (v->datatype == VARMAP_DATATYPE_OFFSET) fprintf(OUT, ",0,%ld]", (long)v->data.offset);
			else fprintf(OUT, ",1,%ld]", (long)(ruword)v->data.ptr);
		}
	}
	else if (!strcmp(c, "n")) fprintf(OUT, "[%u,%u]", rvm_scope_count(S), rvm_scope_numentries(S));
	else exit(7);
}

static void run(int n, char **t)
{
	if (!strcmp(t[0], "alu")) alu(t);
	else if (!strcmp(t[0], "mem")) memop(t);
	else if (!strcmp(t[0], "prog")) prog(n, t);
	else if (!strcmp(t[0], "swi")) swi(n, t);
	else if (!strcmp(t[0], "cg")) cg(n, t);
	else if (!strcmp(t[0], "sc")) sc(n, t);
	else exit(8);
}

static void end(void)
{
	if (SC) { rvm_cpu_destroy(SC); SC = NULL; }
	if (G) { rvm_codegen_destroy(G); G = NULL; }
	if (S) { rvm_scope_destroy(S); S = NULL; }
}

int main(void)
{
	h_init();
	h_loop(NULL, run, end);
	return 0;
}
