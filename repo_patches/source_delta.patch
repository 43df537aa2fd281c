From 13729a48b0ab5812eecc4130b76df82daf526b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 01/68] fix: a group, exclusion or negation in front of a
 reference is not left recursion

The loop detection only stopped at single characters, classes and references,
so a rule like  a ::= ('x') <a> | 'z'  was compiled as if it was left recursive
and failed to match, looped forever or read in front of the input.
---
 rpa/rpadbex.c | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 83347c6..3550822 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1118,6 +1118,34 @@ void rpa_dbex_destroy(rpadbex_t *dbex)
 }
 
 
+/*
+ * Can this element of a sequence succeed without consuming input?
+ */
+static int rpa_parseinfo_nullable(rpadbex_t *dbex, long rec)
+{
+	long i;
+	rparecord_t *prec = (rparecord_t *)r_array_slot(dbex->records, rec);
+
+	if (prec->usertype & RPA_MATCH_OPTIONAL)
+		return 1;
+	switch (prec->ruleuid) {
+	case RPA_PRODUCTION_BRACKETEXP:
+	case RPA_PRODUCTION_REQOP:
+	case RPA_PRODUCTION_ANCHOROP:
+		for (i = rpa_recordtree_firstchild(dbex->records, rec, RPA_RECORD_START); i >= 0; i = rpa_recordtree_next(dbex->records, i, RPA_RECORD_START)) {
+			if (!rpa_parseinfo_nullable(dbex, i))
+				return 0;
+		}
+		return 1;
+	case RPA_PRODUCTION_MINOP:
+		i = rpa_recordtree_firstchild(dbex->records, rec, RPA_RECORD_START);
+		return i >= 0 ? rpa_parseinfo_nullable(dbex, i) : 1;
+	default:
+		return 0;
+	};
+}
+
+
 static int rpa_parseinfo_loopdetect_do(rpadbex_t *dbex, long parent, long loopto, int inderction)
 {
 	unsigned long namesiz;
@@ -1165,8 +1193,13 @@ static int rpa_parseinfo_loopdetect_do(rpadbex_t *dbex, long parent, long loopto
 				break;
 		}
 
-		if ((prec->usertype & RPA_MATCH_OPTIONAL) == 0 && (prec->ruleuid == RPA_PRODUCTION_CREF || prec->ruleuid == RPA_PRODUCTION_AREF ||
-				prec->ruleuid == RPA_PRODUCTION_CHAR || prec->ruleuid == RPA_PRODUCTION_CLS || prec->ruleuid == RPA_PRODUCTION_SPECIALCHAR))
+		/*
+		 * The operands of these are all tried at the same position.
+		 */
+		if (prec->ruleuid == RPA_PRODUCTION_ALTBRANCH || prec->ruleuid == RPA_PRODUCTION_NEGBRANCH ||
+				prec->ruleuid == RPA_PRODUCTION_REQOP || prec->ruleuid == RPA_PRODUCTION_NOROP)
+			continue;
+		if (!rpa_parseinfo_nullable(dbex, i))
 			break;
 
 	}
-- 
2.43.0


From d713177461351b140ce1f505b87ad2261f2e1044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 02/68] fix: first-character bitmaps must let expressions
 through that can match nothing

With bitmaps on  ( 'a'? ) 'b'  did not match "b": the bitmap of the group
contained only 'a'.
---
 rpa/rpabitmap.c | 5 +++++
 rpa/rpastat.c   | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/rpa/rpabitmap.c b/rpa/rpabitmap.c
index 0f6eae8..c770de6 100644
--- a/rpa/rpabitmap.c
+++ b/rpa/rpabitmap.c
@@ -169,6 +169,11 @@ static long rpa_bitmap_set_expression(rarray_t *records, rparecord_t *record, lo
 			if (!(childrecord->usertype & RPA_MATCH_OPTIONAL))
 				break;
 		}
+		/*
+		 * The expression can succeed without consuming anything, whatever comes next.
+		 */
+		if (child < 0)
+			RPA_BITMAP_SETALL(RPA_RECORD2BITMAP(record));
 	}
 	return 0;
 }
diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 6e7f10f..d2d1919 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -299,7 +299,7 @@ rboolean rpa_stat_matchbitmap(rpastat_t *stat, long top, rpabitmap_t bitmap)
 	rpainput_t *in = &stat->instack[top];
 
 	if (in->eof)
-		return 0;
+		return (bitmap == (rpabitmap_t)-1) ? TRUE : FALSE;
 	if (stat->encoding & RPA_ENCODING_ICASE) {
 		ret = (RPA_BITMAP_GETBIT(&bitmap, in->wc % RPA_BITMAP_BITS) || RPA_BITMAP_GETBIT(&bitmap, in->iwc % RPA_BITMAP_BITS)) ? TRUE : FALSE;
 	} else {
-- 
2.43.0


From bfac1253ac53a1e02565765a196c8712630c925a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 03/68] fix: first-character bitmaps must not filter out left
 recursive references

A left recursive reference contributed no bit at all, so with bitmaps on
  a ::= <b> x | z
  b ::= <a> y | w
did not match "wx" from a.
---
 rpa/rpabitmap.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rpa/rpabitmap.c b/rpa/rpabitmap.c
index c770de6..5ae0bac 100644
--- a/rpa/rpabitmap.c
+++ b/rpa/rpabitmap.c
@@ -270,7 +270,12 @@ static long rpa_bitmap_set_numrng(rarray_t *records, rparecord_t *record, long r
 static long rpa_bitmap_set_ref(rarray_t *records, rparecord_t *record, long rec, rpointer userdata)
 {
 	rpa_bitmapcompiler_t *bc = (rpa_bitmapcompiler_t*)userdata;
-	if ((record->type & RPA_RECORD_END) && (record->usertype & RPA_LOOP_PATH) == 0) {
+	if ((record->type & RPA_RECORD_END) && (record->usertype & RPA_LOOP_PATH)) {
+		/*
+		 * What a left recursive reference can start with is not known here.
+		 */
+		RPA_BITMAP_SETALL(RPA_RECORD2BITMAP(record));
+	} else if (record->type & RPA_RECORD_END) {
 		long child = rpa_recordtree_firstchild(records, rec, RPA_RECORD_END);
 		if (child >= 0) {
 			rparecord_t *childrecord = rpa_record_get(records, child);
-- 
2.43.0


From 0113899ea9b4ed0757ed2cda239594f74b333099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 04/68] fix: records of a left recursive rule that also has a
 recursive right operand

The rearrangement took the start records of right operands for further nesting
levels of the left operand and moved the left operand into them; it also
printed a debug line to stdout.
---
 rpa/rpastat.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index d2d1919..f02c1e0 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -165,16 +165,20 @@ static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
 					erec = rpa_record_get(records, temp_start);
 					if (erec && (erec->input >= srec->input) && (erec->input + erec->inputsiz <= srec->input + srec->inputsiz)) {
 						strayrecs_start = temp_start;
-						r_printf("----> strayrecs_start = %ld\n", strayrecs_start);
 						continue;
 					}
 					break;
 				}
 				strayrecs_size = strayrecs_end - strayrecs_start + 1;
 
+				/*
+				 * The stray records belong into the innermost of the nested loop records
+				 * that covers them, the ones behind it are operands to the right.
+				 */
+				erec = rpa_record_get(records, strayrecs_start);
 				for (j = 0; j < size; j++) {
 					srec = (rparecord_t *) r_array_slot(records, i + j);
-					if (!(srec->usertype & RPA_LOOP_PATH) || !(srec->type & RPA_RECORD_START)) {
+					if (!(srec->usertype & RPA_LOOP_PATH) || !(srec->type & RPA_RECORD_START) || srec->input > erec->input) {
 						break;
 					}
 					ssize++;
-- 
2.43.0


From b1e44ea55d7c82bb5fd039e93815332d5fdbeb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 05/68] fix: bitmaps must not hide a rule abort

A rule whose abort directive stands behind the first rule using it, or that is
tried in an exclusion, was skipped by the bitmap of the surrounding expression
instead of aborting the parse.
---
 rpa/rpabitmap.c |  7 +++++++
 rpa/rpadbex.c   | 29 +++++++++++++++++++++++++++--
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/rpa/rpabitmap.c b/rpa/rpabitmap.c
index 5ae0bac..a20c4f1 100644
--- a/rpa/rpabitmap.c
+++ b/rpa/rpabitmap.c
@@ -202,6 +202,13 @@ static long rpa_bitmap_set_minop(rarray_t *records, rparecord_t *record, long re
 		if (child >= 0) {
 			rparecord_t *childrecord = rpa_record_get(records, child);
 			RPA_BITMAP_SETVAL(RPA_RECORD2BITMAP(record), RPA_BITMAP_GETVAL(RPA_RECORD2BITMAP(childrecord)));
+			/*
+			 * The excluded expressions are tried first, a rule in there may abort.
+			 */
+			child = rpa_recordtree_lastchild(records, rec, RPA_RECORD_END);
+			childrecord = rpa_record_get(records, child);
+			if (RPA_BITMAP_GETVAL(RPA_RECORD2BITMAP(childrecord)) == (rpabitmap_t)-1)
+				RPA_BITMAP_SETALL(RPA_RECORD2BITMAP(record));
 		}
 	}
 	return 0;
diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 3550822..3f39580 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -55,6 +55,32 @@ static void rpa_dbex_buildbitmapinfo(rpadbex_t *dbex);
 static void rpa_dbex_buildbitmapinfo_for_rule(rpadbex_t *dbex, rparule_t rid);
 static void rpa_dbex_bitmapinfo_set_all(rpadbex_t *dbex, rparule_t rid);
 
+/*
+ * Is there an abort directive for this rule, wherever it is in the text?
+ */
+static int rpa_dbex_hasabortdirective(rpadbex_t *dbex, rparule_t rid)
+{
+	rharray_t *rules = dbex->rules;
+	rpa_ruleinfo_t *info;
+	const char *rulename = NULL, *name = NULL;
+	unsigned long rulenamesize = 0, namesize = 0;
+	unsigned long i;
+
+	info = (rpa_ruleinfo_t *)r_harray_get(rules, rid);
+	if (!info || info->type != RPA_RULEINFO_NAMEDRULE || rpa_dbex_rulename(dbex, info->startrec, &rulename, &rulenamesize) < 0)
+		return 0;
+	for (i = 0; i < r_array_length(rules->members); i++) {
+		info = (rpa_ruleinfo_t *)r_harray_get(rules, i);
+		if (!info || rpa_dbex_record(dbex, info->startrec)->ruleuid != RPA_PRODUCTION_DIRECTIVEABORT)
+			continue;
+		if (rpa_dbex_rulename(dbex, info->startrec, &name, &namesize) == 0 &&
+			namesize == rulenamesize && r_strncmp(name, rulename, namesize) == 0)
+			return 1;
+	}
+	return 0;
+}
+
+
 static void rpa_dbex_buildbitmapinfo_for_rule(rpadbex_t *dbex, rparule_t rid)
 {
 	rpa_bitmapcompiler_t bc;
@@ -64,11 +90,10 @@ static void rpa_dbex_buildbitmapinfo_for_rule(rpadbex_t *dbex, rparule_t rid)
 	r_memset(&bc, 0, sizeof(bc));
 	bc.dbex = dbex;
 	if ((info = (rpa_ruleinfo_t *)r_harray_get(rules, rid)) != NULL) {
-		rpa_rulepref_t *rulepref = rpa_compiler_rulepref_lookup_s(dbex->co, rpa_dbex_name(dbex, rid));
 		rparecord_t *record = rpa_record_get(dbex->records, info->startrec);
 		RPA_BITMAP_SETALL(RPA_RECORD2BITMAP(record));
 		rpa_recordtree_walk(dbex->records, info->startrec, 0, rpa_bitmap_set, (rpointer)&bc);
-		if (rulepref && (rulepref->flags & RPA_RFLAG_ABORTONFAIL))
+		if (rpa_dbex_hasabortdirective(dbex, rid))
 			rpa_dbex_bitmapinfo_set_all(dbex, rid);
 	}
 }
-- 
2.43.0


From ef6472a51d2ea3089f2607220265449047a5a4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 06/68] fix: the grammar parser accepted '::' for '::=' and
 directives without a rule name

The failure of the last element of these rules was not checked.
---
 rpa/rpaparser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rpa/rpaparser.c b/rpa/rpaparser.c
index a912117..eba2b1c 100644
--- a/rpa/rpaparser.c
+++ b/rpa/rpaparser.c
@@ -254,6 +254,7 @@ static void rpa_production_directive_emit(rpa_parser_t *pa)
 	rpa_compiler_reference_nan_s(co, "space");
 	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
 	rpa_compiler_reference_nan_s(co, "rulename");
+	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
 
 	rpa_compiler_rule_end(co);
 }
@@ -285,6 +286,7 @@ static void rpa_production_directive_abort(rpa_parser_t *pa)
 	rpa_compiler_reference_nan_s(co, "space");
 	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
 	rpa_compiler_reference_nan_s(co, "rulename");
+	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
 
 	rpa_compiler_rule_end(co);
 }
@@ -382,6 +384,7 @@ static void rpa_production_directive_noemit(rpa_parser_t *pa)
 	rpa_compiler_reference_nan_s(co, "space");
 	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
 	rpa_compiler_reference_nan_s(co, "rulename");
+	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
 
 	rpa_compiler_rule_end(co);
 }
@@ -586,6 +589,7 @@ static void rpa_production_assign(rpa_parser_t *pa)
 	rvm_codegen_addins(co->cg, rvm_asm(RPA_MATCHCHR_NAN, DA, XX, XX, ':'));
 	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RPA_MATCHCHR_NAN, DA, XX, XX, '='));
+	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
 
 	rpa_compiler_reference_mop_s(co, "space");
 
-- 
2.43.0


From b241a5689ca095287475f6a3e9f5b756cb333a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 07/68] fix: recompiling a database must not use bitmaps and
 loop marks of the previous rules

---
 rpa/rpadbex.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 3f39580..be37077 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1278,6 +1278,14 @@ static void rpa_dbex_buildloopinfo(rpadbex_t *dbex)
 	rharray_t *rules = dbex->rules;
 	rpa_ruleinfo_t *info;
 
+	/*
+	 * Drop the marks left by a previous close, rules might have been redefined since.
+	 */
+	for (i = 0; i < r_array_length(dbex->records); i++) {
+		rparecord_t *prec = (rparecord_t *)r_array_slot(dbex->records, i);
+		prec->usertype &= RPA_MATCH_MASK;
+	}
+
 	for (i = 0; i < r_array_length(rules->members); i++) {
 		if ((info = (rpa_ruleinfo_t *)r_harray_get(rules, i)) != NULL)
 			rpa_parseinfo_marklooppath(dbex, info->startrec);
@@ -1980,6 +1988,7 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 {
 	rparule_t rid;
 	rvm_codelabel_t *labelerr;
+	unsigned long i;
 
 	if (!dbex)
 		return -1;
@@ -1987,6 +1996,11 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTCLOSED);
 		return -1;
 	}
+	/*
+	 * Bitmaps of a previous compilation don't count, rules might have been redefined since.
+	 */
+	for (i = 0; i < r_array_length(dbex->records); i++)
+		((rparecord_t *)r_array_slot(dbex->records, i))->userdata = 0;
 	/*
 	 * By default all production rules emit
 	 */
-- 
2.43.0


From 8182e3cba6dca3f95eddec7d218d7ab4731ced44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 08/68] fix: a left recursive rule that matches without growing
 must stop

---
 rpa/rpacompiler.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index 5fd7847..e246452 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -385,11 +385,11 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 {
 	rpa_ruledef_t exp = r_array_pop(co->expressions, rpa_ruledef_t);
 
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R3, R_LOO, XX, 0));		// Save LOO to R3 before restoring the old one
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R0, XX, XX, 0));		// Pop the accumulated ret, although ignored here
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R3, XX, XX, 0));		// Pop the accumulated ret, the size matched so far
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POPM, DA, XX, XX, BIT(R1)|BIT(R_LOO)|BIT(R_OTP)|BIT(LR)));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_SUBS, R0, R_TOP, R_OTP, 0));
-	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, exp.failidx, rvm_asm(RVM_BEQ, DA, XX, XX, 0));	// ------------- R_TOP is the same
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_CMP, R0, R3, XX, 0));
+	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, exp.failidx, rvm_asm(RVM_BLEQ, DA, XX, XX, 0));	// ------------- The match didn't grow
 	if (exp.rulepref && (exp.rulepref->flags & RPA_RFLAG_EMITRECORD)) {                                            //       |
 		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_EMITEND, DA, R_OTP, R0, 0)); //      |
 	}
@@ -398,8 +398,9 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, exp.loopidx, rvm_asm(RVM_B, DA, XX, XX, 0));        //          |
 	rvm_codegen_redefinelabel_default(co->cg, exp.failidx);	                                                    //          |
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_REC, R1, XX, 0));	         //        <-------------------------------------
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOVS, R0, DA, XX, -1));
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_TOP, R_OTP, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R0, R3, XX, 0));
+	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, exp.successidx, rvm_asm(RVM_B, DA, XX, XX, 0));
 
 	/*
 	 *  END FAILED:
@@ -408,6 +409,8 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R3, R_LOO, XX, 0));		// Save LOO to R3 before restoring the old one
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R0, XX, XX, 0));		// Pop the accumulated ret, use it to save the status for return
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POPM, DA, XX, XX, BIT(R_REC)|BIT(R_LOO)|BIT(R_TOP)|BIT(LR)));
+	rvm_codegen_redefinelabel_default(co->cg, exp.successidx);
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_OTP, R_TOP, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_CMP, R0, DA, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_BGRE, DA, XX, XX, 3));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOVS, R0, DA, XX, -1));
-- 
2.43.0


From 4daefaed0dbf176ca2af92821280990991685b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 09/68] fix: a failed attempt at growing a left recursive rule
 must not block its other alternatives

---
 rpa/rpacompiler.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index e246452..931633c 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -738,7 +738,6 @@ int rpa_compiler_nonloopybranch_end(rpa_compiler_t *co)
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R1, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R0, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_SUBS, R0, R_TOP, R1, 0));
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_LOO, R0, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
 	rvm_codegen_redefinelabel_default(co->cg, exp.endidx);
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, LR, XX, XX, 0));
-- 
2.43.0


From 4c9e152689d0e097b5c5f3e36f25777613588882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 10/68] fix: rules inlined by left recursion lost their number
 and directives

---
 rpa/rpadbex.c     | 58 ++++++++++++++++++++++++++++++++++++++++-------
 rpa/rpadbexpriv.h |  1 +
 2 files changed, 51 insertions(+), 8 deletions(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index be37077..ac336f9 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -47,6 +47,7 @@ static int rpa_dbex_rulename(rpadbex_t *dbex, long rec, const char **name, unsig
 static int rpa_parseinfo_loopdetect(rpadbex_t *dbex, long parent, long loopto);
 static long rpa_dbex_firstinlined(rpadbex_t *dbex);
 static int rpa_dbex_findinlined(rpadbex_t *dbex, long startrec);
+static void rpa_dbex_setrulepref(rpadbex_t *dbex, rpa_ruleinfo_t *info);
 static int rpa_dbex_playchildrecords(rpadbex_t *dbex, long rec);
 static int rpa_dbex_playreversechildrecords(rpadbex_t *dbex, long rec);
 static int rpa_dbex_playrecord(rpadbex_t *dbex, long rec);
@@ -1050,10 +1051,12 @@ static int rpa_dbex_rh_aref(rpadbex_t *dbex, long rec)
 				 * RPA_MATCH_MULTIPLE
 				 */
 				rpa_compiler_exp_begin(dbex->co, RPA_MATCH_OPTIONAL, 0);
+				rpa_dbex_setrulepref(dbex, info);
 				rpa_dbex_playrecord(dbex, info->startrec);
 				rvm_codegen_index_addrelocins(dbex->co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(dbex->co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
 				rpa_compiler_exp_end(dbex->co);
 			} else {
+				rpa_dbex_setrulepref(dbex, info);
 				rpa_dbex_playrecord(dbex, info->startrec);
 			}
 		}
@@ -1957,6 +1960,47 @@ const char *rpa_dbex_version()
 }
 
 
+/*
+ * The preferences of a rule come from the directives above it, also when
+ * the rule gets inlined (because of left recursion) somewhere else.
+ */
+static void rpa_dbex_buildrulepref(rpadbex_t *dbex)
+{
+	rparule_t rid;
+	rpa_ruleinfo_t *info;
+	rpa_rulepref_t *pref;
+
+	/*
+	 * By default all production rules emit
+	 */
+	rpa_dbex_setemit(dbex, TRUE);
+
+	for (rid = rpa_dbex_first(dbex); rid >= 0; rid = rpa_dbex_next(dbex, rid)) {
+		info = (rpa_ruleinfo_t *)r_harray_get(dbex->rules, rid);
+		if (!info)
+			continue;
+		if (info->type == RPA_RULEINFO_DIRECTIVE) {
+			rpa_dbex_playrecord(dbex, info->startrec);
+		} else if (info->type == RPA_RULEINFO_NAMEDRULE) {
+			pref = rpa_compiler_rulepref_lookup_s(dbex->co, rpa_dbex_name(dbex, rid));
+			if (pref)
+				info->rulepref = *pref;
+			info->rulepref.ruleid = rid;
+		}
+	}
+}
+
+
+static void rpa_dbex_setrulepref(rpadbex_t *dbex, rpa_ruleinfo_t *info)
+{
+	const char *name = NULL;
+	unsigned long namesize;
+
+	if (rpa_dbex_rulename(dbex, info->startrec, &name, &namesize) == 0)
+		*rpa_compiler_rulepref(dbex->co, name, namesize) = info->rulepref;
+}
+
+
 static int rpa_dbex_compile_rule(rpadbex_t *dbex, rparule_t rid)
 {
 	long codeoff;
@@ -1966,17 +2010,18 @@ static int rpa_dbex_compile_rule(rpadbex_t *dbex, rparule_t rid)
 		return -1;
 	codeoff = rvm_codegen_getcodesize(dbex->co->cg);
 	/*
-	 * Set the rid in the rulepref, so the compiler associates this rule
-	 * with the correct rid.
+	 * Set the rulepref, so the compiler associates this rule
+	 * with the correct rid and flags.
 	 */
-	rpa_compiler_rulepref_set_ruleid_s(dbex->co, rpa_dbex_name(dbex, rid), rid);
+	if (info->type == RPA_RULEINFO_NAMEDRULE)
+		rpa_dbex_setrulepref(dbex, info);
 
 	/*
 	 * Build the bitmap
 	 */
 	if (dbex->bitmap)
 		rpa_dbex_getrulebitmap(dbex, rid);
-	if (rpa_dbex_playrecord(dbex, info->startrec) < 0)
+	if (info->type != RPA_RULEINFO_DIRECTIVE && rpa_dbex_playrecord(dbex, info->startrec) < 0)
 		return -1;
 	info->codeoff = codeoff;
 	info->codesiz = rvm_codegen_getcodesize(dbex->co->cg) - codeoff;
@@ -2001,13 +2046,10 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 	 */
 	for (i = 0; i < r_array_length(dbex->records); i++)
 		((rparecord_t *)r_array_slot(dbex->records, i))->userdata = 0;
-	/*
-	 * By default all production rules emit
-	 */
 	if (dbex->co)
 		rpa_compiler_destroy(dbex->co);
 	dbex->co = rpa_compiler_create();
-	rpa_dbex_setemit(dbex, TRUE);
+	rpa_dbex_buildrulepref(dbex);
 
 	for (rid = rpa_dbex_first(dbex); rid >= 0; rid = rpa_dbex_next(dbex, rid)) {
 		if (rpa_dbex_compile_rule(dbex, rid) < 0) {
diff --git a/rpa/rpadbexpriv.h b/rpa/rpadbexpriv.h
index 8eadaa7..caac403 100644
--- a/rpa/rpadbexpriv.h
+++ b/rpa/rpadbexpriv.h
@@ -48,6 +48,7 @@ typedef struct rpa_ruleinfo_s {
 	long codeoff;
 	long codesiz;
 	unsigned long type;
+	rpa_rulepref_t rulepref;
 } rpa_ruleinfo_t;
 
 
-- 
2.43.0


From 37af1651eb7e0a9724ddbf7a6b7762f527d71e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 11/68] fix: bitmaps must not hide an abort inside an exclusion

---
 rpa/rpabitmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpa/rpabitmap.c b/rpa/rpabitmap.c
index a20c4f1..7f45ee4 100644
--- a/rpa/rpabitmap.c
+++ b/rpa/rpabitmap.c
@@ -207,8 +207,8 @@ static long rpa_bitmap_set_minop(rarray_t *records, rparecord_t *record, long re
 			 */
 			child = rpa_recordtree_lastchild(records, rec, RPA_RECORD_END);
 			childrecord = rpa_record_get(records, child);
-			if (RPA_BITMAP_GETVAL(RPA_RECORD2BITMAP(childrecord)) == (rpabitmap_t)-1)
-				RPA_BITMAP_SETALL(RPA_RECORD2BITMAP(record));
+			RPA_BITMAP_SETVAL(RPA_RECORD2BITMAP(record),
+				RPA_BITMAP_GETVAL(RPA_RECORD2BITMAP(record)) | RPA_BITMAP_GETVAL(RPA_RECORD2BITMAP(childrecord)));
 		}
 	}
 	return 0;
-- 
2.43.0


From 5a49578589e63d0758ddfb490e19c366512267b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 12/68] fix: loading rules must use the given size instead of
 stopping at a NUL

---
 rpa/rpadbex.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index ac336f9..c08bcf1 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1507,8 +1507,12 @@ long rpa_dbex_load(rpadbex_t *dbex, const char *rules, unsigned long size)
 		return -1;
 	}
 
-	text = r_strndup(rules, size);
+	/*
+	 * The size counts, not the first NUL: it is a separator in the rules.
+	 */
+	text = (char *)r_zmalloc(size + 1);
 	R_ASSERT(text);
+	r_memcpy(text, rules, size);
 	r_array_add(dbex->text, &text);
 	r_array_setlength(dbex->temprecords, 0);
 	if ((ret = rpa_parser_load(dbex->pa, text, size, dbex->temprecords)) < 0) {
-- 
2.43.0


From f4e29dd5b7ed304a880309bec74965cefab2b0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:25 +0000
Subject: [PATCH 13/68] fix: an unresolved symbol in a left recursive rule was
 reported as a generic compile error

---
 rpa/rpadbex.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index c08bcf1..77a7331 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -2050,6 +2050,7 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 	 */
 	for (i = 0; i < r_array_length(dbex->records); i++)
 		((rparecord_t *)r_array_slot(dbex->records, i))->userdata = 0;
+	r_memset(&dbex->err, 0, sizeof(dbex->err));
 	if (dbex->co)
 		rpa_compiler_destroy(dbex->co);
 	dbex->co = rpa_compiler_create();
@@ -2057,7 +2058,11 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 
 	for (rid = rpa_dbex_first(dbex); rid >= 0; rid = rpa_dbex_next(dbex, rid)) {
 		if (rpa_dbex_compile_rule(dbex, rid) < 0) {
-			RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_COMPILE);
+			/*
+			 * Unresolved symbol is more specific
+			 */
+			if (dbex->err.code != RPA_E_UNRESOLVEDSYMBOL)
+				RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_COMPILE);
 			return -1;
 		}
 	}
-- 
2.43.0


From 533761cc00dbd0a44b616065d4874a0aaabf26e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:22 +0000
Subject: [PATCH 14/68] fix: closing a closed database lost the compiled code

---
 rpa/rpadbex.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 77a7331..dbc10ea 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1485,6 +1485,13 @@ void rpa_dbex_close(rpadbex_t *dbex)
 {
 	if (!dbex)
 		return;
+	if (dbex->rules) {
+		/*
+		 * Dbex is not open, don't lose the compiled code
+		 */
+		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTOPEN);
+		return;
+	}
 	rpa_dbex_buildruleinfo(dbex);
 	rpa_dbex_buildloopinfo(dbex);
 //	if (dbex->bitmap)
-- 
2.43.0


From f5c195b7e639a02a608abc403b5ca36bb670e9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:32 +0000
Subject: [PATCH 15/68] fix: a stack overflow in the virtual machine must end
 in an error, not in an assertion

---
 rpa/rpastat.c | 16 ++++++----------
 rvm/rvmcpu.h  |  2 +-
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index f02c1e0..81d9235 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -126,16 +126,12 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 		ret = rvm_cpu_exec(stat->cpu, prog, off);
 	}
 	if (ret < 0) {
-		if (!stat->cpu->error) {
-			if (stat->cpu->error) {
-				RPA_STAT_SETERROR_CODE(stat, stat->cpu->error);
-			} else {
-				/*
-				 * We should never get to here. Error have to be more
-				 * specific and set at the places they are detected.
-				 */
-				RPA_STAT_SETERROR_CODE(stat, RPA_E_EXECUTION);
-			}
+		if (rpa_stat_lasterror(stat) == RPA_E_NONE) {
+			/*
+			 * Nothing more specific was set at the place the error was
+			 * detected, for example the stack is too small for this input.
+			 */
+			RPA_STAT_SETERROR_CODE(stat, RPA_E_EXECUTION);
 		}
 		return -1;
 	}
diff --git a/rvm/rvmcpu.h b/rvm/rvmcpu.h
index 26fe889..224f205 100644
--- a/rvm/rvmcpu.h
+++ b/rvm/rvmcpu.h
@@ -417,7 +417,7 @@ enum {
 };
 
 #define RVM_STACK_CHUNK 256
-#define RVM_ABORT(__cpu__, __e__) do { __cpu__->error = (__e__); (__cpu__)->abort = 1; R_ASSERT(0); return; } while (0)
+#define RVM_ABORT(__cpu__, __e__) do { __cpu__->error = (__e__); (__cpu__)->abort = 1; return; } while (0)
 #define BIT(__shiftby__) (1 << (__shiftby__))
 #define BITR(__f__, __l__, __r__) (((__r__) >= (__f__) && (__r__) <= (__l__)) ? BIT(__r__) : 0)
 #define BITS(__f__, __l__)  (BITR(__f__, __l__, R0)) | (BITR(__f__, __l__, R1)) | (BITR(__f__, __l__, R2)) | (BITR(__f__, __l__, R3)) | \
-- 
2.43.0


From 82bed3a760506be279c77ea4b721e06fd9ef7940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 16/68] fix: input outside of the given range must be refused

---
 rpa/rpastat.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 81d9235..963b426 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -118,7 +118,10 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 		return -1;
 	}
 	rpa_stat_cacheinvalidate(stat);
-	rpa_stat_init(stat, encoding, input, start, end, records);
+	if (rpa_stat_init(stat, encoding, input, start, end, records) < 0) {
+		RPA_STAT_SETERROR_CODE(stat, RPA_E_INVALIDINPUT);
+		return -1;
+	}
 
 	if (stat->debug) {
 		ret = rvm_cpu_exec_debug(stat->cpu, prog, off);
-- 
2.43.0


From 5f7635582bedd6da705aeae7c2de209e188c90d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 17/68] fix: a load that the parser gives up on must leave an
 error code

---
 rpa/rpadbex.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index dbc10ea..1446263 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1523,7 +1523,10 @@ long rpa_dbex_load(rpadbex_t *dbex, const char *rules, unsigned long size)
 	r_array_add(dbex->text, &text);
 	r_array_setlength(dbex->temprecords, 0);
 	if ((ret = rpa_parser_load(dbex->pa, text, size, dbex->temprecords)) < 0) {
-
+		/*
+		 * The parser gave up, for example the rules are nested too deep.
+		 */
+		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_EXECUTION);
 		return -1;
 	}
 	if (ret != (long)size) {
-- 
2.43.0


From 6c2b94db30655be996b4659a3056a95433562c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 18/68] fix: copying a branch copied the first records of the
 array instead

---
 rpa/rparecord.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index fa4f1c9..ca4d13c 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -193,7 +193,7 @@ long rpa_recordtree_copy(rarray_t *dst, rarray_t *src, long rec)
 	size = rpa_recordtree_size(src, rec);
 
 	for (i = 0; i < size; i++) {
-		prec = rpa_record_get(src, i);
+		prec = rpa_record_get(src, rec + i);
 		r_array_add(dst, prec);
 	}
 	return size;
-- 
2.43.0


From 965deae753140c27f4de2e443e6fc32bcf8cbc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 19/68] fix: user type and uid of a record outside of the array
 read or wrote outside of it

---
 rpa/rparecord.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index ca4d13c..2928bbc 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -271,7 +271,7 @@ long rpa_record_getruleuid(rarray_t *records, long rec)
 	if (rec < 0)
 		return -1;
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0 || rec >= (long)r_array_length(records))
 		return -1;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	return prec->ruleuid;
@@ -285,12 +285,12 @@ void rpa_record_setusertype(rarray_t *records, long rec, ruint32 usertype, rvals
 	if (rec < 0)
 		return;
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0 || rec >= (long)r_array_length(records))
 		return;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	rpa_recordptr_setusertype(prec, usertype, op);
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_END);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0 || rec >= (long)r_array_length(records))
 		return;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	rpa_recordptr_setusertype(prec, usertype, op);
@@ -304,7 +304,7 @@ long rpa_record_getusertype(rarray_t *records, long rec)
 	if (rec < 0)
 		return -1;
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0 || rec >= (long)r_array_length(records))
 		return -1;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	return prec->usertype;
-- 
2.43.0


From 0332aa38ecacecbca376193f239fedae1b5e40c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:15 +0000
Subject: [PATCH 20/68] fix: a left recursive parse rearranged records of
 earlier parses in the same array

---
 rpa/rpastat.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 963b426..479b288 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -145,13 +145,13 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 	return ret;
 }
 
-static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
+static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records, long first)
 {
 	rparecord_t *srec, *erec;
 	long i, temp_start, strayrecs_start, strayrecs_size, strayrecs_end;
 	long size = r_array_length(records);
 
-	for (i = 1; i < size; i++) {
+	for (i = first + 1; i < size; i++) {
 		srec = (rparecord_t *) r_array_slot(records, i);
 		if ((srec->usertype & RPA_LOOP_PATH) && (srec->type & RPA_RECORD_START)) {
 			erec = rpa_record_get(records, i - 1);
@@ -159,7 +159,7 @@ static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
 				long ssize = 0, j;
 				strayrecs_end = i - 1;
 				strayrecs_start = rpa_recordtree_get(records, strayrecs_end, RPA_RECORD_START);
-				for (temp_start = rpa_recordtree_prev(records, strayrecs_start, RPA_RECORD_START); temp_start >= 0;
+				for (temp_start = rpa_recordtree_prev(records, strayrecs_start, RPA_RECORD_START); temp_start >= first;
 					temp_start = rpa_recordtree_prev(records, strayrecs_start, RPA_RECORD_START)) {
 					erec = rpa_record_get(records, temp_start);
 					if (erec && (erec->input >= srec->input) && (erec->input + erec->inputsiz <= srec->input + srec->inputsiz)) {
@@ -193,7 +193,7 @@ static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
 
 	}
 
-	for (i = 0; i < size; i++) {
+	for (i = first; i < size; i++) {
 		erec = (rparecord_t *) r_array_slot(records, i);
 		erec->usertype = 0;
 	}
@@ -205,6 +205,7 @@ static long rpa_stat_exec_rid(rpastat_t *stat, rparule_t rid, unsigned int encod
 	long topsiz = 0;
 	rpainput_t *ptp;
 	long offset;
+	long first = records ? (long)r_array_length(records) : 0;
 	rvm_asmins_t *exec;
 
 
@@ -225,7 +226,7 @@ static long rpa_stat_exec_rid(rpastat_t *stat, rparule_t rid, unsigned int encod
 		return 0;
 	ptp = &stat->instack[topsiz];
 	if (records)
-		rpa_stat_normalizeleftrecursion(stat, records);
+		rpa_stat_normalizeleftrecursion(stat, records, first);
 	return (long)(ptp->input - input);
 }
 
-- 
2.43.0


From 03474ff2418776f5af6a072b06fbb1220e31439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:56 +0000
Subject: [PATCH 21/68] fix: rules with more than 128 levels of records were
 silently cut off

---
 rpa/rparecord.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index 2928bbc..eeeb413 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -227,20 +227,18 @@ int rpa_recordtree_move(rarray_t *records, long dst, long src, long size)
 
 long rpa_recordtree_walk(rarray_t *records, long rec, long level, rpa_recordtree_callback callback, rpointer userdata)
 {
-	long child;
+	long end = rpa_recordtree_get(records, rec, RPA_RECORD_END);
 
-	if (level > 128)
-		return -1;
+	/*
+	 * The records of a branch are next to each other, in the order of the walk.
+	 */
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (callback && callback(records, rec, userdata) < 0)
+	if (rec < 0 || end < 0)
 		return -1;
-	for (child = rpa_recordtree_firstchild(records, rec, RPA_RECORD_START); child >= 0; child = rpa_recordtree_next(records, child, RPA_RECORD_START)) {
-		if (rpa_recordtree_walk(records, child, level + 1, callback, userdata) < 0)
+	for (; rec <= end; rec++) {
+		if (callback && callback(records, rec, userdata) < 0)
 			return -1;
 	}
-	rec = rpa_recordtree_get(records, rec, RPA_RECORD_END);
-	if (callback && callback(records, rec, userdata) < 0)
-		return -1;
 	return 0;
 }
 
-- 
2.43.0


From 48c3af2eb92152c0313bdef39f229b136281c725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 22/68] fix: carry of ADC and SBC when the third operand is all
 ones

---
 rvm/rvmcpu.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index b95b6ed..7a0a12b 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -372,10 +372,11 @@ static void rvm_op_adds(rvmcpu_t *cpu, rvm_asmins_t *ins)
 static void rvm_op_adc(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
-	
-	res = op2 + op3 + (RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 1 : 0);
+	ruword carry = RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 1 : 0;
+
+	res = op2 + op3 + carry;
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
-	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, res < op2 || res < op3);
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, res < op2 || (carry && res == op2));
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_V, (op2 & RVM_SIGN_BIT) == (op3 & RVM_SIGN_BIT) &&
@@ -634,10 +635,11 @@ static void rvm_op_subs(rvmcpu_t *cpu, rvm_asmins_t *ins)
 static void rvm_op_sbc(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
+	ruword borrow = RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 0 : 1;
 
-	res = op2 - op3 + (RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 0 : -1);
+	res = op2 - op3 - borrow;
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
-	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, !(res > op2));	/* borrow = !carry */
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, !(op2 < op3 || (borrow && op2 == op3)));	/* borrow = !carry */
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_V, (op2 & RVM_SIGN_BIT) != (op3 & RVM_SIGN_BIT) &&
-- 
2.43.0


From 3a7f2af72b04e5549d9fc14d5d3561e1ec68270d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 23/68] fix: arithmetic shift right by more than one bit

---
 rvm/rvmcpu.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index 7a0a12b..6388165 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -446,8 +446,7 @@ static void rvm_op_asr(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
 	
-	res = op2 >> op3;
-	res |= op2 & RVM_SIGN_BIT;
+	res = (ruword)(((rword)op2) >> op3);
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
-- 
2.43.0


From 139d4c090509f1b29f26915e319cba6fcc1ba330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 24/68] fix: negative flag of the right shifts

---
 rvm/rvmcpu.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index 6388165..c888898 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -428,6 +428,7 @@ static void rvm_op_lsr(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 }
 
 
@@ -439,6 +440,7 @@ static void rvm_op_lsrs(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 }
 
 
-- 
2.43.0


From 9a003a278e19b138e7e5a44ddccf42a32d3095bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 25/68] fix: DVS and MODS of the smallest word by -1

---
 rvm/rvmcpu.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index c888898..16edf9a 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -715,12 +715,11 @@ static void rvm_op_mod(rvmcpu_t *cpu, rvm_asmins_t *ins)
 
 static void rvm_op_mods(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
-	rword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
+	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
 
 	if (!op3)
 		RVM_ABORT(cpu, RVM_E_DIVZERO);
 	res = op2 % op3;
-	r_printf("mod RES: %ld\n", res);
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
@@ -735,7 +734,7 @@ static void rvm_op_dvs(rvmcpu_t *cpu, rvm_asmins_t *ins)
 
 	if (!op3)
 		RVM_ABORT(cpu, RVM_E_DIVZERO);
-	res = (rword)(op2 / op3);
+	res = (op3 == -1) ? (rword)(0 - (ruword)op2) : (rword)(op2 / op3);
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
-- 
2.43.0


From 1d7d15eee6f93469ac3db547dd4c4963e2a494ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 26/68] fix: accessing the stack beyond its ends

---
 rvm/rvmcpu.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index 16edf9a..51f02d8 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -757,6 +757,8 @@ static void rvm_op_lds(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword sp = ((ins->op2 != XX) ? RVM_CPUREG_GETU(cpu, ins->op2) : 0) + ((ins->op3 != XX) ? RVM_CPUREG_GETU(cpu, ins->op3) : 0);
 
+	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp))
+		RVM_ABORT(cpu, RVM_E_NOMEM);
 	RVM_CPUREG_SET(cpu, ins->op1, RVM_STACK_READ(cpu->stack, sp));
 }
 
@@ -777,7 +779,7 @@ static void rvm_op_pushm(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	ruword bits = RVM_CPUREG_GETU(cpu, ins->op1);
 	ruword sp = RVM_CPUREG_GETU(cpu, SP);
 
-	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp + RVM_REGS_NUM))
+	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp + 1) || !RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp + RVM_REGS_NUM))
 		RVM_ABORT(cpu, RVM_E_NOMEM);
 
 	if (!(bits & ((1<<(RVM_REGS_NUM / 2)) - 1)))
@@ -806,6 +808,8 @@ static void rvm_op_popm(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	for (; bits && i >= 0; i--) {
 		n = 1 << i;
 		if (n & bits) {
+			if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp))
+				RVM_ABORT(cpu, RVM_E_NOMEM);
 			RVM_CPUREG_SET(cpu, i, RVM_STACK_READ(cpu->stack, sp));
 			sp -= 1;
 			bits &= ~n;
@@ -820,6 +824,8 @@ static void rvm_op_pop(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword sp = RVM_CPUREG_GETU(cpu, SP);
 
+	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp))
+		RVM_ABORT(cpu, RVM_E_NOMEM);
 	RVM_CPUREG_SET(cpu, ins->op1, RVM_STACK_READ(cpu->stack, sp));
 	if (ins->op1 != SP)
 		RVM_CPUREG_SETU(cpu, SP, sp - 1);
-- 
2.43.0


From c5ece03e7cc376726ec3f09ef0bd3be167e5b2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 27/68] fix: running the number of a trailing directive ran
 past the end of the code

---
 rpa/rpadbex.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 1446263..210d312 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -2118,7 +2118,10 @@ long rpa_dbex_executableoffset(rpadbex_t *dbex, rparule_t rid)
 		return -1;
 	}
 	info = (rpa_ruleinfo_t *)r_harray_get(dbex->rules, rid);
-	if (!info) {
+	if (!info || info->codeoff >= (long)rvm_codegen_getcodesize(dbex->co->cg)) {
+		/*
+		 * There is no code behind the last rule, if a directive ends the database
+		 */
 		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTFOUND);
 		return -1;
 	}
-- 
2.43.0


From 77c0401680a3a62e3277f0f47e0350730e32c9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 28/68] fix: r_array_move read beyond the end of the array

---
 rlib/rarray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rarray.c b/rlib/rarray.c
index e7c980f..ed51e0d 100644
--- a/rlib/rarray.c
+++ b/rlib/rarray.c
@@ -201,7 +201,7 @@ void *r_array_slot_expand(rarray_t *array, size_t index)
 int r_array_move(rarray_t *array, size_t dst, size_t src, size_t size)
 {
 	size_t i;
-	if ((dst + size) > r_array_length(array))
+	if ((dst + size) > r_array_length(array) || (src + size) > r_array_length(array))
 		return -1;
 	if (dst == src)
 		return 0;
-- 
2.43.0


From a8d9060df39e01026c1fa227232fab2cb63f9af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 29/68] fix: r_harray_taillookup_s found the first element of
 the name

---
 rlib/rharray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rharray.c b/rlib/rharray.c
index 58398c0..d42ffa4 100644
--- a/rlib/rharray.c
+++ b/rlib/rharray.c
@@ -213,7 +213,7 @@ long r_harray_taillookup(rharray_t *harray, const char *name, unsigned int names
 
 long r_harray_taillookup_s(rharray_t *harray, const char *name)
 {
-	return r_harray_lookup(harray, name, r_strlen(name));
+	return r_harray_taillookup(harray, name, r_strlen(name));
 }
 
 
-- 
2.43.0


From 5ebd8618db188f3d623c5ae5a716e212a055bffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 30/68] fix: r_ref_create ignored the type asked for

---
 rlib/rref.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rref.c b/rlib/rref.c
index f474976..16297a6 100644
--- a/rlib/rref.c
+++ b/rlib/rref.c
@@ -36,7 +36,7 @@ rref_t *r_ref_create(rref_type_t type)
 {
 	rref_t *ref;
 	ref = (rref_t*)r_object_create(sizeof(*ref));
-	r_ref_init((robject_t*)ref, R_OBJECT_REF, r_ref_cleanup, r_ref_copy, 1, RREF_TYPE_SHARED);
+	r_ref_init((robject_t*)ref, R_OBJECT_REF, r_ref_cleanup, r_ref_copy, 1, type);
 	return ref;
 }
 
-- 
2.43.0


From 88a7ed47c599b06be3613e2ad130bfba0e8ae25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 31/68] fix: r_calloc of zero sized elements wrote behind its
 block in the debug build

---
 rlib/rmem.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rlib/rmem.c b/rlib/rmem.c
index 1d5a496..a454cf4 100644
--- a/rlib/rmem.c
+++ b/rlib/rmem.c
@@ -64,11 +64,11 @@ static rpointer r_dbg_calloc(size_t nmemb, size_t size)
 {
 	ruword *mem = NULL;
 
-	nmemb += (size < sizeof(ruword)) ? sizeof(ruword) : 1;
-	mem = (ruword*)calloc(nmemb, size);
-	*((ruword*)mem) = size * nmemb;
+	size = size * nmemb + sizeof(ruword);
+	mem = (ruword*)calloc(1, size);
+	*((ruword*)mem) = size;
 	r_spinlock_lock(&g_lock);
-	g_allocmem += size * nmemb;
+	g_allocmem += size;
 	if (g_maxmem < g_allocmem)
 		g_maxmem = g_allocmem;
 	r_spinlock_unlock(&g_lock);
-- 
2.43.0


From bd81f7be20a2c50446bb6e9416380019d047d024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 32/68] fix: rex: nested counted repetitions lost the counts of
 the outer one

---
 rex/rexcompiler.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 8e465c6..9db819a 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -480,26 +480,31 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 		}
 		do {
 			size_t count;
+			/*
+			 * Compiling the factor again could change co->fromcount and co->tocount
+			 */
+			size_t fromcount = co->fromcount;
+			size_t tocount = co->tocount;
 			const char *saved_start = co->start;
 			const char *saved_end = co->end;
 			const char *saved_ptr = co->ptr;
 			const char *saved_tokenptr = co->tokenptr;
 			int saved_token = co->token;
-			for (count = 1; count < co->tocount; count++) {
+			for (count = 1; count < tocount; count++) {
 				co->start = fstart;
 				co->end = fend;
 				co->ptr = fstart;
 				rex_compiler_getnbtok(co);
 				rex_compiler_catexpression(co, rexdb);
 				frag2 = FPOP(co);
-				if (co->tocount == (size_t)-1 && count >= co->fromcount) {
+				if (tocount == (size_t)-1 && count >= fromcount) {
 					frag2 = rex_fragment_mop(rexdb, frag2);
 					frag1 = FPOP(co);
 					frag1 = rex_fragment_cat(rexdb, frag1, frag2);
 					FPUSH(co, frag1);
 					break;
 				}
-				if (count >= co->fromcount) {
+				if (count >= fromcount) {
 					frag2 = rex_fragment_opt(rexdb, frag2);
 				}
 				frag1 = FPOP(co);
-- 
2.43.0


From d2cf324cb07b4d8b43f19a1e6ca6f0c14115b96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 33/68] fix: rex: an escaped character after a zero repetition
 lost its escape

---
 rex/rexcompiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 9db819a..b518aeb 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -461,13 +461,13 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 			 * Special case
 			 */
 			frag = FPOP(co);
+			rex_fragment_destroy(frag);
 			for (i = nstates; i < r_array_length(rexdb->states); i++) {
 				srcstate = rex_db_getstate(rexdb, i);
 				rex_state_destroy(srcstate);
 			}
 			r_array_setlength(rexdb->states, nstates);
 			srcstate = rex_db_getstate(rexdb, rex_db_createstate(rexdb, REX_STATETYPE_NONE));
-			rex_compiler_adjustescapedtoken(co);
 			rex_state_addtransition_e(srcstate, -1);
 			frag = rex_fragment_create(srcstate);
 			FPUSH(co, frag);
-- 
2.43.0


From 9b9b33ace279cb582deced1827213a1dc57a97d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 34/68] fix: rex: an expression or group starting with | or )
 popped an empty stack

---
 rex/rexcompiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index b518aeb..d62b8ba 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -536,7 +536,7 @@ static int rex_compiler_catexpression(rexcompiler_t *co, rexdb_t *rexdb)
 		case REX_TOKEN_EOF:
 		case '|':
 		case ')':
-			return 0;
+			return nfactors ? 0 : -1;
 		}
 		if (rex_compiler_qfactor(co, rexdb) < 0)
 			return -1;
-- 
2.43.0


From 924c622a7ac5725987ee65323453fb18bbf4f7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 35/68] fix: rex: an unmatched ) silently ended the expression

---
 rex/rexcompiler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index d62b8ba..a3f32c1 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -595,6 +595,8 @@ long rex_compiler_expression(rexcompiler_t *co, rexdb_t *rexdb, const char *str,
 	rex_compiler_getnbtok(co);
 	if (rex_compiler_altexpression(co, rexdb) < 0)
 		goto error;
+	if (co->token != REX_TOKEN_EOF)
+		goto error;
 	frag1 = FPOP(co);
 	frag2 = rex_fragment_create(rex_db_getstate(rexdb, rex_db_createstate(rexdb, REX_STATETYPE_ACCEPT)));
 	rex_state_setuserdata(REX_FRAG_STATE(frag2), userdata);
-- 
2.43.0


From eb92514d8d2269959e3a853db178c2b155fd0a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 36/68] fix: rex: characters whose low byte is an operator were
 rejected

---
 rex/rexcompiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index a3f32c1..c9331fc 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -408,7 +408,7 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 	rexstate_t *srcstate;
 	size_t nstates, i;
 
-	if (strchr("{}*?+]\n\r)", co->token)) {
+	if (co->token < 0x80 && strchr("{}*?+]\n\r)", co->token)) {
 		/*
 		 * Unexpected char.
 		 */
-- 
2.43.0


From ee4ebcc1c59e8e4fa80cab0f45c50fc8f69c7c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 37/68] fix: rex: an expression ending in a single backslash
 was accepted

---
 rex/rexcompiler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index c9331fc..9838829 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -344,6 +344,8 @@ static int rex_compiler_factor(rexcompiler_t *co, rexdb_t *rexdb)
 	} else {
 		srcstate = rex_db_getstate(rexdb, rex_db_createstate(rexdb, REX_STATETYPE_NONE));
 		rex_compiler_adjustescapedtoken(co);
+		if (co->token == REX_TOKEN_EOF)
+			return -1;
 		rex_state_addtransition(srcstate, co->token, co->token, -1);
 		frag = rex_fragment_create(srcstate);
 		FPUSH(co, frag);
-- 
2.43.0


From c4b35da87d8058a2d165fce9ae9af5b6fac7a2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:28 +0000
Subject: [PATCH 38/68] fix: rex: characters above 255 were looked up in the
 ctype tables

---
 rex/rexcompiler.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 9838829..72a46b5 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -70,6 +70,18 @@ static int rex_compiler_isspace(int c)
 }
 
 
+static int rex_compiler_isdigit(int c)
+{
+	return c >= 0 && c < 0x80 && isdigit(c);
+}
+
+
+static int rex_compiler_isxdigit(int c)
+{
+	return c >= 0 && c < 0x80 && isxdigit(c);
+}
+
+
 static int rex_compiler_isblank(rexcompiler_t *co, int c)
 {
 	return r_strchr(co->blankchars, c) ? 1 : 0;
@@ -226,10 +238,10 @@ int rex_compiler_numerictoken(rexcompiler_t *co, rexdb_t *rexdb)
 		} else {
 			base = 8;
 		}
-	} else if (!isdigit(co->token)) {
+	} else if (!rex_compiler_isdigit(co->token)) {
 		return -1;
 	}
-	while ((base == 16 && isxdigit(co->token)) || (base == 8 && isdigit(co->token) && co->token != '8' && co->token != '9') || isdigit(co->token)) {
+	while ((base == 16 && rex_compiler_isxdigit(co->token)) || (base == 8 && rex_compiler_isdigit(co->token) && co->token != '8' && co->token != '9') || rex_compiler_isdigit(co->token)) {
 		if (i >= REX_CONV_BUFSIZE)
 			return -1;
 		convbuf[i++] = co->token;
@@ -363,9 +375,9 @@ static int rex_compiler_parsecount(rexcompiler_t *co, rexdb_t *rexdb)
 	int i = 0;
 
 	rex_compiler_getnbtok(co);		/* eat '{' */
-	if (!isdigit(co->token))
+	if (!rex_compiler_isdigit(co->token))
 		return -1;
-	for (i = 0; isdigit(co->token); i++) {
+	for (i = 0; rex_compiler_isdigit(co->token); i++) {
 		if (i >= REX_CONV_BUFSIZE)
 			return -1;
 		convbuf[i] = co->token;
@@ -381,8 +393,8 @@ static int rex_compiler_parsecount(rexcompiler_t *co, rexdb_t *rexdb)
 	if (co->token == ',') {
 		rex_compiler_getnbtok(co);		/* eat ',' */
 		co->tocount = (size_t)-1;
-		if (isdigit(co->token)) {
-			for (i = 0; isdigit(co->token); i++) {
+		if (rex_compiler_isdigit(co->token)) {
+			for (i = 0; rex_compiler_isdigit(co->token); i++) {
 				if (i >= REX_CONV_BUFSIZE)
 					return -1;
 				convbuf[i] = co->token;
-- 
2.43.0


From ed9574a0d70a9ae402571dfad95ce77f40eb385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:28 +0000
Subject: [PATCH 39/68] fix: rex: characters whose low byte is a blank were
 skipped in counts

---
 rex/rexcompiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 72a46b5..06c507a 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -84,7 +84,7 @@ static int rex_compiler_isxdigit(int c)
 
 static int rex_compiler_isblank(rexcompiler_t *co, int c)
 {
-	return r_strchr(co->blankchars, c) ? 1 : 0;
+	return c < 0x80 && r_strchr(co->blankchars, c) ? 1 : 0;
 }
 
 
-- 
2.43.0


From ed4b9be34685528e47d2cff9e63bc86c10721286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:28 +0000
Subject: [PATCH 40/68] fix: rex: rex_db_setblanks ignored the size of the
 string

---
 rex/rexcompiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 06c507a..4384b44 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -93,7 +93,7 @@ long rex_compiler_setblanks(rexcompiler_t *co, const char *str, size_t size)
 	if (size + 1 > sizeof(co->blankchars))
 		return -1;
 	r_memset(co->blankchars, 0, sizeof(co->blankchars));
-	r_strncpy(co->blankchars, str, sizeof(co->blankchars) - 1);
+	r_memcpy(co->blankchars, str, size);
 	return 0;
 }
 
-- 
2.43.0


From a721a7e4f539485866656d6a8c49a6953f17b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:28 +0000
Subject: [PATCH 41/68] fix: rex: a range written backwards was put in the
 wrong place

---
 rex/rextransition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rextransition.c b/rex/rextransition.c
index 5d73f7c..449605a 100644
--- a/rex/rextransition.c
+++ b/rex/rextransition.c
@@ -86,7 +86,7 @@ rex_transition_t *rex_transitions_add(rarray_t *trans, rexchar_t c1, rexchar_t c
 	while (max > min) {
 		mid = (min + max)/2;
 		t = (rex_transition_t *)r_array_slot(trans, mid);
-		if (c1 >= t->lowin) {
+		if (ntrans.lowin >= t->lowin) {
 			min = mid + 1;
 		} else {
 			max = mid;
-- 
2.43.0


From 0cc3fbd2b51a1e4d76f287fc79bc30a8861ebc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:28 +0000
Subject: [PATCH 42/68] fix: rex: rex_regex_create returned a destroyed object
 for a malformed expression

---
 rex/rexregex.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rex/rexregex.c b/rex/rexregex.c
index a2fb8fa..1974bc0 100644
--- a/rex/rexregex.c
+++ b/rex/rexregex.c
@@ -81,8 +81,7 @@ rexregex_t *rex_regex_create(const char *str, unsigned int size)
 	rexregex_t *regex;
 
 	regex = (rexregex_t*)r_object_create(sizeof(*regex));
-	rex_regex_init((robject_t*)regex, R_OBJECT_REXREGEX, rex_regex_cleanup, NULL, str, size);
-	return regex;
+	return (rexregex_t*)rex_regex_init((robject_t*)regex, R_OBJECT_REXREGEX, rex_regex_cleanup, NULL, str, size);
 }
 
 
-- 
2.43.0


From 1ac20bcb3693773e007a317a9aa07967735ba706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:28 +0000
Subject: [PATCH 43/68] fix: rex: bytes above 127 did not match in byte mode

---
 rex/rexregex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexregex.c b/rex/rexregex.c
index 1974bc0..4b255f4 100644
--- a/rex/rexregex.c
+++ b/rex/rexregex.c
@@ -171,7 +171,7 @@ static int rex_regex_match_byte(rexregex_t *regex, const char *start, const char
 	rexdfs_t *s;
 
 	while (input < end) {
-		wc = *input;
+		wc = *(const unsigned char*)input;
 		REX_DFA_NEXT(dfa, nstate, wc, &nstate);
 		if (nstate == 0)
 			break;
-- 
2.43.0


From d45eaa493371304fac9a8b14968a5852630ad711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:16 +0000
Subject: [PATCH 44/68] fix: rexcc: an option was read from memory already
 given back

---
 rexcc/rexccmain.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rexcc/rexccmain.c b/rexcc/rexccmain.c
index 4ba073e..78b851d 100644
--- a/rexcc/rexccmain.c
+++ b/rexcc/rexccmain.c
@@ -100,6 +100,7 @@ int main(int argc, const char *argv[])
 	rexcc_t *pCC;
 	int i, ret = 0, dumponly = 0;
 	int withsubstates = 0;
+	int showtime = 0;
 	FILE *devnull = NULL;
 	rexdb_t *tempdb = NULL;
 	FILE *cfile = stdout;
@@ -203,8 +204,9 @@ int main(int argc, const char *argv[])
 	}
 
 end:
+	showtime = pCC->showtime;
 	rex_cc_destroy(pCC);
-	if (pCC->showtime) {
+	if (showtime) {
 		fprintf(stdout, "memory: %ld KB (leaked %ld Bytes)\n", (long)r_debug_get_maxmem()/1024, (long)r_debug_get_allocmem());
 	}
 	if (devnull)
-- 
2.43.0


From 6f4c7f87ab2d01edc5ffbb6420b30e1b0a0ba058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 45/68] fix: rexjson: characters after an incomplete number
 were skipped

---
 rexjson/rexjson++.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 247b397..25d545c 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -577,6 +577,7 @@ void input::get_token()
 	rexdfss_t *acc_ss = NULL;
 	rexuint_t nstate = REX_DFA_STARTSTATE;
 	char ch = 0;
+	size_t extra = 0;
 
 	loctok_.clear();
 	token_.clear();
@@ -597,6 +598,7 @@ void input::get_token()
 		} else {
 			errpos_++;
 		}
+		++extra;
 		if (REX_DFA_STATE(dfa, nstate)->type == REX_STATETYPE_ACCEPT) {
 			/*
 			 * Note: We will not break out of the loop here. We will keep going
@@ -605,8 +607,18 @@ void input::get_token()
 			acc_ss = REX_DFA_ACCSUBSTATE(dfa, nstate, 0);
 			token_id_ = (int) acc_ss->userdata;
 			token_ = loctok_;
+			extra = 0;
 		}
 	}
+	/*
+	 * Whatever was read beyond the longest match belongs to the next token.
+	 */
+	for (; token_id_ && extra > 0; extra--) {
+		is_.clear();
+		is_.unget();
+		--offset_;
+		--errpos_;
+	}
 }
 
 void input::read_steam(value& v, size_t maxlevels)
-- 
2.43.0


From 2f5972ed4ba6efa9a6eb734d3a0ad2d451d5d3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 46/68] fix: rexjson: \u escapes were decoded with their UTF-8
 bytes in reverse order

---
 rexjson/rexjson++.cpp | 47 ++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 25d545c..21d7f00 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -72,6 +72,25 @@ static void escape_str_val(const value& v, std::ostream& os)
 	}
 }
 
+static void write_utf8(unsigned int wc, std::ostream& os)
+{
+	if (wc <= 0x7F) {
+		os << static_cast<char>(wc);
+	} else if (wc <= 0x7FF) {
+		os << static_cast<char>(0xC0 | (wc >> 6));
+		os << static_cast<char>(0x80 | (wc & 0x3F));
+	} else if (wc <= 0xFFFF) {
+		os << static_cast<char>(0xE0 | (wc >> 12));
+		os << static_cast<char>(0x80 | ((wc >> 6) & 0x3F));
+		os << static_cast<char>(0x80 | (wc & 0x3F));
+	} else {
+		os << static_cast<char>(0xF0 | (wc >> 18));
+		os << static_cast<char>(0x80 | ((wc >> 12) & 0x3F));
+		os << static_cast<char>(0x80 | ((wc >> 6) & 0x3F));
+		os << static_cast<char>(0x80 | (wc & 0x3F));
+	}
+}
+
 static std::string unescape_str(const std::string& s)
 {
 	std::ostringstream os;
@@ -104,26 +123,16 @@ static std::string unescape_str(const std::string& s)
 		} else if (*it == '\\' && (it + 5) < s.end() && *(it + 1) == 'u') {
 			std::string ustr(it + 2, it + 6);
 			unsigned int wc = static_cast<unsigned int>(std::strtol(ustr.c_str(), NULL, 16));
-			unsigned int count = 0;
-			if (wc <= 0x007F)
-				count = 1;
-			else if (wc <= 0x07FF)
-				count = 2;
-			else if (wc <= 0xFFFF)
-				count = 3;
-			switch (count) {
-				case 3:
-					os << static_cast<unsigned char>(0x80 | (wc & 0x3f));
-					wc = wc >> 6;
-					wc |= 0x800;
-				case 2:
-					os << static_cast<unsigned char>(0x80 | (wc & 0x3f));
-					wc = wc >> 6;
-					wc |= 0xc0;
-				case 1:
-					os << static_cast<unsigned char>(wc);
-			}
 			it += 5;
+			if (wc >= 0xD800 && wc <= 0xDBFF && s.end() - it > 6 && *(it + 1) == '\\' && *(it + 2) == 'u') {
+				std::string lstr(it + 3, it + 7);
+				unsigned int lc = static_cast<unsigned int>(std::strtol(lstr.c_str(), NULL, 16));
+				if (lc >= 0xDC00 && lc <= 0xDFFF) {
+					wc = 0x10000 + ((wc - 0xD800) << 10) + (lc - 0xDC00);
+					it += 6;
+				}
+			}
+			write_utf8(wc, os);
 		} else if (*it == '\\' && (it + 1) < s.end()) {
 			os << *it++;
 			os << *it;
-- 
2.43.0


From d5f029fe68621897327b12677e3e38264d9544bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 47/68] fix: rexjson: escapes in property names were not
 decoded

---
 rexjson/rexjson++.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 21d7f00..b848514 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -666,7 +666,7 @@ void input::parse_name(std::string &str)
 {
 	if (token_id_ != TOKEN_STRING)
 		error_unexpectedtoken();
-	str = (token_.length() > 2) ? token_.substr(1, token_.length() - 2) : std::string();
+	str = (token_.length() > 2) ? unescape_str(token_.substr(1, token_.length() - 2)) : std::string();
 	next_token();
 }
 
-- 
2.43.0


From 8867dc6d03562b2a9f712fa4f6b6ed49cc2aecd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 48/68] fix: rexjson: an escaped slash was refused

---
 rexjson/rexjsondfa.rexcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexjson/rexjsondfa.rexcc b/rexjson/rexjsondfa.rexcc
index 46a4fc1..8ca4794 100644
--- a/rexjson/rexjsondfa.rexcc
+++ b/rexjson/rexjsondfa.rexcc
@@ -21,7 +21,7 @@
 #define TOKEN_RIGHTCB 273
 
 %%
-TOKEN_STRING        "([^"\\#0x0-#0x1F]|[\\](["\\bfnrt]|u[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F]))*"
+TOKEN_STRING        "([^"\\#0x0-#0x1F]|[\\](["\\/bfnrt]|u[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F]))*"
 TOKEN_INT           -?[0-9]|-?[1-9][0-9]+
 TOKEN_NUMBER        -?([1-9][0-9]*|0)([.][0-9]+)?([eE][+\-]?[0-9]+)?
 TOKEN_TRUE          true
-- 
2.43.0


From ef70b8b2347c0b17d3bb2d7e3e41f79c8b3a5f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 49/68] fix: rexjson: backslashes, control characters and
 property names were written unescaped

---
 rexjson/rexjson++.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index b848514..4c58870 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -48,13 +48,12 @@ std::string value::get_typename(unsigned int type)
 	return ret;
 }
 
-static void escape_str_val(const value& v, std::ostream& os)
+static void escape_str_val(const std::string& s, std::ostream& os)
 {
-	for (std::string::const_iterator it = v.get_str().begin(); it != v.get_str().end(); it++) {
-		if (*it == '\\' && (it + 1) != v.get_str().end()) {
-			os << *it++;
-			os << *it;
-		} else if (*it == '"') {
+	static const char hexdigits[] = "0123456789abcdef";
+
+	for (std::string::const_iterator it = s.begin(); it != s.end(); it++) {
+		if (*it == '\\' || *it == '"') {
 			os << '\\' << *it;
 		} else if (*it == '\b') {
 			os << "\\b";
@@ -66,6 +65,8 @@ static void escape_str_val(const value& v, std::ostream& os)
 			os << "\\r";
 		} else if (*it == '\t') {
 			os << "\\t";
+		} else if (static_cast<unsigned char>(*it) < 0x20) {
+			os << "\\u00" << hexdigits[(*it >> 4) & 0xF] << hexdigits[*it & 0xF];
 		} else {
 			os << *it;
 		}
@@ -504,7 +505,9 @@ void output::write_stream_namevalue(const std::string& n, const value& v, std::o
 	std::string indent(level * tabsize_, ' ');
 	if (pretty_)
 		os << indent;
-	os << '"' << n << '"';
+	os << '"';
+	escape_str_val(n, os);
+	os << '"';
 	if (pretty_)
 		os << ' ';
 	os << ":";
@@ -541,7 +544,7 @@ void output::write_stream(const value& v, std::ostream& os, size_t level)
 		}
 	} else if (v.value_type_ == str_type) {
 		os << '"';
-		escape_str_val(v, os);
+		escape_str_val(v.get_str(), os);
 		os << '"';
 	} else if (v.value_type_ == obj_type) {
 		size_t elems = 0;
-- 
2.43.0


From 37b1a5c1cf5b406c88ae6b24801657308c7b1726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 50/68] fix: rexjson: nan and negative infinity were written as
 they are

---
 rexjson/rexjson++.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 4c58870..464528c 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -19,7 +19,7 @@
 #include <sstream>
 #include <stdexcept>
 #include <cstdlib>
-#include <limits>
+#include <cmath>
 #include "rexjson++.h"
 #include "rexjsondfa.h"
 
@@ -535,7 +535,7 @@ void output::write_stream(const value& v, std::ostream& os, size_t level)
 	} else if (v.value_type_ == int_type) {
 		os << v.get_int64();
 	} else if (v.value_type_ == real_type) {
-		if (v.get_real() != std::numeric_limits<double>::infinity() && v.get_real() != std::numeric_limits<double>::quiet_NaN()) {
+		if (std::isfinite(v.get_real())) {
 			os.precision(precision_);
 			os.setf(std::ios::fixed, std:: ios::floatfield);
 			os << v.get_real();
-- 
2.43.0


From 31bb40b17dd76758f04dc060672c546e7f042231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 51/68] fix: rexjson: assigning or moving a part of a value to
 the value used freed memory, moving leaked the target

---
 rexjson/rexjson++.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 464528c..ae36731 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -158,10 +158,15 @@ void value::destroy()
 
 void value::move(value& v)
 {
-	value_type_ = v.value_type_;
-	store_ = v.store_;
+	if (&v == this)
+		return;
+	value_type vtype = v.value_type_;
+	decltype(store_) vstore = v.store_;
 	v.value_type_ = null_type;
 	v.store_.v_null_ = NULL;
+	destroy();
+	value_type_ = vtype;
+	store_ = vstore;
 }
 
 value::value(const value& v)
@@ -428,16 +433,20 @@ value& value::operator=(const value& v)
 {
 	if (&v == this)
 		return *this;
+	/*
+	 * v may be inside of this value (or the other way around), copy it first.
+	 */
+	value_type vtype = v.value_type_;
+	decltype(store_) vstore = v.store_;
+	if (vtype == str_type)
+		vstore.v_string_ = new std::string(*v.store_.v_string_);
+	else if (vtype == array_type)
+		vstore.v_array_ = new array(*v.store_.v_array_);
+	else if (vtype == obj_type)
+		vstore.v_object_ =  new object(*v.store_.v_object_);
 	destroy();
-	value_type_ = v.value_type_;
-	if (get_type() == str_type)
-		store_.v_string_ = new std::string(*v.store_.v_string_);
-	else if (get_type() == array_type)
-		store_.v_array_ = new array(*v.store_.v_array_);
-	else if (get_type() == obj_type)
-		store_.v_object_ =  new object(*v.store_.v_object_);
-	else
-		store_ = v.store_;
+	value_type_ = vtype;
+	store_ = vstore;
 	return *this;
 }
 
-- 
2.43.0


From 3f60e117b96db242f5361281dad12f94c4a9ce19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 52/68] fix: rexjson: errors were reported at the token before
 the failing one

---
 rexjson/rexjson.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rexjson/rexjson.c b/rexjson/rexjson.c
index 89babab..9af702b 100644
--- a/rexjson/rexjson.c
+++ b/rexjson/rexjson.c
@@ -68,10 +68,8 @@ static void rexjson_get_token(rexjson_t *ctx)
 			ctx->token_id = (int) acc_ss->userdata;
 		}
 	}
-	if (ctx->token_size > 0) {
-		ctx->token_offset = ctx->offset;
-		ctx->offset += ctx->token_size;
-	}
+	ctx->token_offset = ctx->offset;
+	ctx->offset += ctx->token_size;
 }
 
 static void rexjson_next_token(rexjson_t *ctx)
-- 
2.43.0


From 722e887cbc6ad684654bf49982e73e10d6b67991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 53/68] fix: rexjson: sizes of objects and arrays included the
 blanks behind them or missed the closing bracket

---
 rexjson/rexjson.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rexjson/rexjson.c b/rexjson/rexjson.c
index 9af702b..c310754 100644
--- a/rexjson/rexjson.c
+++ b/rexjson/rexjson.c
@@ -128,7 +128,7 @@ static ssize_t rexjson_parse_namevalue(rexjson_t* ctx)
 
 static ssize_t rexjson_parse_object(rexjson_t* ctx)
 {
-	size_t cur_offset = ctx->token_offset;
+	size_t size, cur_offset = ctx->token_offset;
 	rexjson_record_t *record = rexjson_record_current(ctx);
 
 	if (rexjson_parse_token(ctx, TOKEN_LEFTCB) < 0)
@@ -143,17 +143,18 @@ static ssize_t rexjson_parse_object(rexjson_t* ctx)
 				return -1;
 		}
 	}
+	size = ctx->token_offset + ctx->token_size - cur_offset;
 	if (rexjson_parse_token(ctx, TOKEN_RIGHTCB) < 0)
 		return -1;
 	record->value = cur_offset;
-	record->valuesize = ctx->token_offset - cur_offset;
+	record->valuesize = size;
 	record->valtype = REXJSON_VALUE_OBJECT;
-	return (ctx->token_offset - cur_offset);
+	return size;
 }
 
 static ssize_t rexjson_parse_array(rexjson_t* ctx)
 {
-	size_t cur_offset = ctx->token_offset;
+	size_t size, cur_offset = ctx->token_offset;
 	rexjson_record_t *record = rexjson_record_current(ctx);
 
 	if (rexjson_parse_token(ctx, TOKEN_LEFTSB) < 0)
@@ -168,12 +169,13 @@ static ssize_t rexjson_parse_array(rexjson_t* ctx)
 				return -1;
 		}
 	}
+	size = ctx->token_offset + ctx->token_size - cur_offset;
 	if (rexjson_parse_token(ctx, TOKEN_RIGHTSB) < 0)
 		return -1;
 	record->value = cur_offset;
-	record->valuesize = ctx->token_offset - cur_offset;
+	record->valuesize = size;
 	record->valtype = REXJSON_VALUE_ARRAY;
-	return (ctx->token_offset - cur_offset);
+	return size;
 }
 
 
-- 
2.43.0


From 16d540c6686bacb5f1152938895b8b269f9dbc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 54/68] fix: rexjson: an unexpected character was reported as
 too few records when no room was left

---
 rexjson/rexjson.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rexjson/rexjson.c b/rexjson/rexjson.c
index c310754..d032d50 100644
--- a/rexjson/rexjson.c
+++ b/rexjson/rexjson.c
@@ -243,6 +243,8 @@ static ssize_t rexjson_parse_value_set_name(rexjson_t* ctx, size_t nameoffset, s
 			return -1;
 		ret = rexjson_parse_primitive(ctx);
 	}
+	if (ret < 0)
+		return -1;
 	begin->name = nameoffset;
 	begin->namesize = namesize;
 	if ((end = rexjson_record_add(ctx, REXJSON_RECORD_END, REXJSON_VALUE_NULL)) == NULL)
-- 
2.43.0


From 5330ca6f55b76f4a7b6c5b68d37b04dcebf94f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 55/68] fix: rexjson: records left by an earlier text were
 taken for siblings of the root

---
 rexjson/rexjson.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rexjson/rexjson.c b/rexjson/rexjson.c
index d032d50..5e89eb7 100644
--- a/rexjson/rexjson.c
+++ b/rexjson/rexjson.c
@@ -335,9 +335,14 @@ void rexjson_dump_records(FILE *file, rexjson_record_t* recs, size_t recsize, co
 
 ssize_t rexjson_parse_buffer(rexjson_t *ctx, rexjson_record_t* recs, size_t recsize, const char* buffer, size_t bufsize, size_t maxlevels)
 {
+	ssize_t ret;
+
 	rexjson_init(ctx, recs, recsize, buffer, bufsize, maxlevels);
 	rexjson_next_token(ctx);
-	return rexjson_parse_value(ctx);
+	ret = rexjson_parse_value(ctx);
+	if (ctx->top < ctx->stacksize)
+		ctx->stack[ctx->top].rectype = REXJSON_RECORD_NONE;
+	return ret;
 }
 
 static ssize_t rexjson_recordtree_end(rexjson_record_t* recs, size_t recsize, ssize_t rec_index)
-- 
2.43.0


From ee53e14b40c389963e4839b7b0d36df140f88505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 56/68] fix: rpc: the answer to a request with bad params did
 not carry its id

---
 rexjsonrpc/rpcserver.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rexjsonrpc/rpcserver.h b/rexjsonrpc/rpcserver.h
index 030a979..3005148 100644
--- a/rexjsonrpc/rpcserver.h
+++ b/rexjsonrpc/rpcserver.h
@@ -420,14 +420,14 @@ public:
 		try {
 			if (val.get_type() != rexjson::obj_type)
 				throw create_rpc_error(RPC_PARSE_ERROR, "top-level object parse error");
+			rexjson::object::const_iterator id_it = val.get_obj().find("id");
+			if (id_it != val.get_obj().end())
+				id = id_it->second;
 			rexjson::object::const_iterator params_it = val.get_obj().find("params");
 			if (params_it != val.get_obj().end() && params_it->second.type() != rexjson::array_type)
 				throw create_rpc_error(RPC_INVALID_REQUEST, "params must be an array");
 			if (params_it != val.get_obj().end())
 				params = params_it->second.get_array();
-			rexjson::object::const_iterator id_it = val.get_obj().find("id");
-			if (id_it != val.get_obj().end())
-				id = id_it->second;
 			rexjson::object::const_iterator method_it = val.get_obj().find("method");
 			if (method_it == val.get_obj().end())
 				throw create_rpc_error(RPC_INVALID_REQUEST, "missing method");
-- 
2.43.0


From c5df68c717ab05ea43947aaff26d1812cdf47169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 57/68] fix: rpc: a request that cannot be parsed was not
 answered with the parse error code

---
 rexjsonrpc/rpcserver.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rexjsonrpc/rpcserver.h b/rexjsonrpc/rpcserver.h
index 3005148..d0b7f8a 100644
--- a/rexjsonrpc/rpcserver.h
+++ b/rexjsonrpc/rpcserver.h
@@ -464,7 +464,11 @@ public:
 
 		try {
 			rexjson::value val;
-			val.read(request);
+			try {
+				val.read(request);
+			} catch (std::exception& e) {
+				throw create_rpc_error(RPC_PARSE_ERROR, e.what());
+			}
 			return call(val, mode);
 		} catch (rexjson::object& e) {
 			error = e;
-- 
2.43.0


From 13b549daed262ff56b828566cce8d2a58a301b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 58/68] fix: property: a write-only range could be read

---
 rexjsonrpc/property.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index 5271f64..e4dd54d 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -295,6 +295,8 @@ public:
 
 	virtual rexjson::value get_prop() override
 	{
+		if ((base::access_ & property_access::readonly) == 0)
+			throw std::runtime_error("No read access");
 		rexjson::array ret;
 		for (size_t i = 0; i < size_; i++) {
 			ret.push_back(base::get_prop_impl(base::propaddr_ + i));
-- 
2.43.0


From aa09c872fb10a0b726243ede44817e770f35b715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 59/68] fix: property: a range write that fails changed the
 variables before the bad element

---
 rexjsonrpc/property.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index e4dd54d..53c0e96 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -23,7 +23,11 @@
 #define RPCPROPERTY_H_
 
 #include <assert.h>
+#include <algorithm>
 #include <functional>
+#include <map>
+#include <string>
+#include <vector>
 #include "rexjson/rexjson++.h"
 
 namespace rexjson {
@@ -282,14 +286,13 @@ public:
 		if ((base::access_ & property_access::writeonly) == 0)
 			throw std::runtime_error("No write access");
 		base::check_hook_(val);
-		size_t i = 0;
 		const rexjson::array& a = val.get_array();
-		for (auto v : a) {
-			if (i >= size_)
-				throw std::range_error("The array of values passed is of bigger size than the property range.");
-			base::set_prop_impl(base::propaddr_ + i, v);
-			++i;
-		}
+		if (a.size() > size_)
+			throw std::range_error("The array of values passed is of bigger size than the property range.");
+		std::vector<T> tmp(a.size());
+		for (size_t i = 0; i < a.size(); i++)
+			base::set_prop_impl(&tmp[i], a[i]);
+		std::copy(tmp.begin(), tmp.end(), base::propaddr_);
 		base::modified_hook_(base::ctx_);
 	}
 
-- 
2.43.0


From eaf1b065ea7717d16c518fe0c002175bd9fc6367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 60/68] fix: property: assigning a property to itself or to its
 parent used freed memory

---
 rexjsonrpc/property.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rexjsonrpc/property.cpp b/rexjsonrpc/property.cpp
index 2657849..9fe2d3d 100644
--- a/rexjsonrpc/property.cpp
+++ b/rexjsonrpc/property.cpp
@@ -73,8 +73,9 @@ property& property::operator[](const std::string& name)
 
 property& property::operator=(const property& v)
 {
+	iproperty_object* object = v.object_ ? v.object_->duplicate() : nullptr;
 	delete(object_);
-	object_ = v.object_->duplicate();
+	object_ = object;
 	return *this;
 }
 
-- 
2.43.0


From c8114754d991ad60ad1e1147232e03a82dea41de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 61/68] fix: property: copying an empty property or asking for
 its access crashed

---
 rexjsonrpc/property.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rexjsonrpc/property.cpp b/rexjsonrpc/property.cpp
index 9fe2d3d..e31bb3a 100644
--- a/rexjsonrpc/property.cpp
+++ b/rexjsonrpc/property.cpp
@@ -35,7 +35,7 @@ property::property()
 
 property::property(const property& v)
 {
-	object_ = v.object_->duplicate();
+	object_ = v.object_ ? v.object_->duplicate() : nullptr;
 }
 
 property::property(property&& v)
@@ -99,6 +99,8 @@ rexjson::value property::get_prop()
 
 property_access property::access() const
 {
+	if (!object_)
+		throw std::runtime_error("Invalid property");
 	return object_->access();
 }
 
-- 
2.43.0


From b7a61c3fe3ac80940d7d4e6ecb9b8f6724d8cac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:42 +0000
Subject: [PATCH 62/68] fix: property: any text was taken as an array index

---
 rexjsonrpc/property.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index 53c0e96..4dcb045 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -23,6 +23,7 @@
 #define RPCPROPERTY_H_
 
 #include <assert.h>
+#include <stdlib.h>
 #include <algorithm>
 #include <functional>
 #include <map>
@@ -450,7 +451,9 @@ public:
 
 	virtual property& operator[](const std::string& name)
 	{
-		size_t idx = atol(name.c_str());
+		if (name.empty() || name.find_first_not_of("0123456789") != std::string::npos)
+			throw std::range_error("Invalid index");
+		size_t idx = strtoul(name.c_str(), nullptr, 10);
 		if (idx >= array_.size())
 			throw std::range_error("Invalid index");
 		return array_.operator [](idx);
-- 
2.43.0


From d81b3cd725fbf3cdc6e69933a3bf9b9e20ca11e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:03 +0000
Subject: [PATCH 63/68] fix: rexgrep, rpagrep: leaving the first directory read
 the byte before its name

---
 rexgrep/unix/fsenum.c | 2 +-
 rpagrep/unix/fsenum.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rexgrep/unix/fsenum.c b/rexgrep/unix/fsenum.c
index 0c98d5d..6bc82e0 100644
--- a/rexgrep/unix/fsenum.c
+++ b/rexgrep/unix/fsenum.c
@@ -229,7 +229,7 @@ static int fsePopDir(fs_enum_ptr pFSE)
 		*pszEnd = '\0';
 		if (pFSE->iDirOffset >= 0)
 		{
-			if (*(pszEnd - 1) == CH_SLASH)
+			if (pszEnd == pFSE->szCurDir || *(pszEnd - 1) == CH_SLASH)
 				break;
 		}
 
diff --git a/rpagrep/unix/fsenum.c b/rpagrep/unix/fsenum.c
index 0c98d5d..6bc82e0 100644
--- a/rpagrep/unix/fsenum.c
+++ b/rpagrep/unix/fsenum.c
@@ -229,7 +229,7 @@ static int fsePopDir(fs_enum_ptr pFSE)
 		*pszEnd = '\0';
 		if (pFSE->iDirOffset >= 0)
 		{
-			if (*(pszEnd - 1) == CH_SLASH)
+			if (pszEnd == pFSE->szCurDir || *(pszEnd - 1) == CH_SLASH)
 				break;
 		}
 
-- 
2.43.0


From bef8def77307771b4e6e10d9fa15419f6554f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:03 +0000
Subject: [PATCH 64/68] fix: rexgrep, rpagrep: the string of -s was searched as
 a file too

---
 rexgrep/rexgrep-main.c      | 2 +-
 rpagrep/unix/rpagrep-main.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rexgrep/rexgrep-main.c b/rexgrep/rexgrep-main.c
index 95b9715..7c6121c 100644
--- a/rexgrep/rexgrep-main.c
+++ b/rexgrep/rexgrep-main.c
@@ -328,7 +328,7 @@ int main(int argc, const char *argv[])
 		if (argv[i][0] != '-') {
 			++scanned;
 			rex_grep_scan_path(pGrep, argv[i]);
-		} else if (argv[i][1] == 'e' || argv[i][1] == 'f' || argv[i][1] == 'b'){
+		} else if (argv[i][1] == 'e' || argv[i][1] == 'f' || argv[i][1] == 'b' || argv[i][1] == 's'){
 			++i;
 		}
 		
diff --git a/rpagrep/unix/rpagrep-main.c b/rpagrep/unix/rpagrep-main.c
index 921ed4d..eb27b56 100644
--- a/rpagrep/unix/rpagrep-main.c
+++ b/rpagrep/unix/rpagrep-main.c
@@ -276,7 +276,7 @@ int main(int argc, const char *argv[])
 		if (argv[i][0] != '-') {
 			++scanned;
 			rpa_grep_scan_path(pGrep, argv[i]);
-		} else if (argv[i][1] == 'e' || argv[i][1] == 'f' || argv[i][1] == 'c' || argv[i][1] == 'C'){
+		} else if (argv[i][1] == 'e' || argv[i][1] == 'f' || argv[i][1] == 'c' || argv[i][1] == 'C' || argv[i][1] == 's'){
 			++i;
 		}
 		
-- 
2.43.0


From c0d97b35b2fa71bfa07e6e78e484e4606ce24c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:03 +0000
Subject: [PATCH 65/68] fix: rpagrep: the exit status was read from freed
 memory

---
 rpagrep/unix/rpagrep-main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpagrep/unix/rpagrep-main.c b/rpagrep/unix/rpagrep-main.c
index eb27b56..08168d7 100644
--- a/rpagrep/unix/rpagrep-main.c
+++ b/rpagrep/unix/rpagrep-main.c
@@ -313,8 +313,9 @@ end:
 
 	if (devnull)
 		fclose(devnull);
+	ret = pGrep->ret;
 	rpa_grep_destroy(pGrep);
-	return pGrep->ret;
+	return ret;
 
 error:
 	if (devnull)
-- 
2.43.0


From 819642a0ee6709c50d41f0537b83b15c160bb927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:33 +0000
Subject: [PATCH 66/68] fix: rpagrep: -l printed nothing for a text without a
 line end

---
 rpagrep/rpagrep.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/rpagrep/rpagrep.c b/rpagrep/rpagrep.c
index 85cd361..bcd524b 100644
--- a/rpagrep/rpagrep.c
+++ b/rpagrep/rpagrep.c
@@ -364,7 +364,6 @@ int rpa_grep_scan_lines(rpa_grep_t *pGrep, const char* buffer, unsigned long siz
 	rpastat_t *hStat;
 	const char *matched;
 	int displayed = 0;
-	unsigned long lines = 0;
 	const char *end = buffer + size, *lstart = buffer, *lend;
 
 	hStat = rpa_stat_create(pGrep->hDbex, 0);
@@ -376,7 +375,6 @@ again:
 	if (pGrep->encoding == RPA_ENCODING_UTF16LE || pGrep->encoding == RPA_ENCODING_ICASE_UTF16LE) {
 		for (lend = lstart; lend < end; lend += sizeof(unsigned short)) {
 			if (*((unsigned short*)lend) == L'\n') {
-				++lines;
 				lend += sizeof(unsigned short);
 				break;
 			}
@@ -384,14 +382,11 @@ again:
 	} else {
 		for (lend = lstart; lend < end; lend += sizeof(unsigned char)) {
 			if (*((unsigned char*)lend) == '\n') {
-				++lines;
 				lend += sizeof(unsigned char);
 				break;
 			}
 		}
 	}
-	if (!lines)
-		return 0;
 	ret = rpa_stat_scan(hStat, pGrep->hPattern, pGrep->encoding, lstart, lstart, lend, &matched);
 	if (ret > 0) {
 		rpa_grep_matchfound(pGrep);
-- 
2.43.0


From fbbcf178a41f437aad1d2646c7c6ec25260649a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:33 +0000
Subject: [PATCH 67/68] fix: rpagrep: -l read past the end of an UTF-16 text of
 odd size

---
 rpagrep/rpagrep.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rpagrep/rpagrep.c b/rpagrep/rpagrep.c
index bcd524b..fd37e8d 100644
--- a/rpagrep/rpagrep.c
+++ b/rpagrep/rpagrep.c
@@ -374,6 +374,10 @@ int rpa_grep_scan_lines(rpa_grep_t *pGrep, const char* buffer, unsigned long siz
 again:
 	if (pGrep->encoding == RPA_ENCODING_UTF16LE || pGrep->encoding == RPA_ENCODING_ICASE_UTF16LE) {
 		for (lend = lstart; lend < end; lend += sizeof(unsigned short)) {
+			if (end - lend < (long)sizeof(unsigned short)) {
+				lend = end;
+				break;
+			}
 			if (*((unsigned short*)lend) == L'\n') {
 				lend += sizeof(unsigned short);
 				break;
-- 
2.43.0


From 10b6cc8d9863d36bcf1d0cd8b128a89494d1300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:33 +0000
Subject: [PATCH 68/68] fix: rpagrep: -a read past the last record

---
 rpagrep/rpagrep.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rpagrep/rpagrep.c b/rpagrep/rpagrep.c
index fd37e8d..ef587df 100644
--- a/rpagrep/rpagrep.c
+++ b/rpagrep/rpagrep.c
@@ -239,10 +239,11 @@ void dump_ast_records(rarray_t *records)
 	long i = 0;
 	rparecord_t *prec = NULL;
 
-	prec = (rparecord_t *)r_array_slot(records, i);
-	while (prec->type & (RPA_RECORD_START | RPA_RECORD_END)) {
+	for (i = 0; i < rpa_records_length(records); i++) {
+		prec = (rparecord_t *)rpa_records_slot(records, i);
+		if (!(prec->type & (RPA_RECORD_START | RPA_RECORD_END)))
+			break;
 		rpa_record_dump(records, i, 0);
-		prec = (rparecord_t *)r_array_slot(records, ++i);
 	}
 }
 
-- 
2.43.0

