From a3041ffcc6e8f3071bd450273e7a177297177356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:33 +0000
Subject: [PATCH 001/113] fix: do not remove a loop PhiM that is already kept
 alive during SSA construction

---
 ir/ir/ircons.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ir/ir/ircons.c b/ir/ir/ircons.c
index 85d1ec7..ce8e7fc 100644
--- a/ir/ir/ircons.c
+++ b/ir/ir/ircons.c
@@ -82,8 +82,10 @@ static void try_remove_unnecessary_phi(ir_node *phi)
 		return;
 
 	/* Do not remove PhiM with self-loops as potentially endless loops are
-	 * observable, see comment in equivalent_node_Phi() to learn more. */
-	if (have_self_loop && get_irn_mode(phi) == mode_M)
+	 * observable, see comment in equivalent_node_Phi() to learn more. The same
+	 * goes for a PhiM which is already kept alive as a loop Phi and becomes
+	 * trivial later, because one of its inputs got replaced. */
+	if (get_irn_mode(phi) == mode_M && (have_self_loop || get_Phi_loop(phi)))
 		return;
 
 	/* if we're here then all phi inputs have been either phi_value
-- 
2.43.0


From 0e4807842f3dd0b04d212ab7d30cb80b10d59f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:33 +0000
Subject: [PATCH 002/113] fix: do_gvn_pre must cope with already activated
 edges

---
 ir/opt/gvn_pre.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ir/opt/gvn_pre.c b/ir/opt/gvn_pre.c
index 2665d1e..6b5e0bc 100644
--- a/ir/opt/gvn_pre.c
+++ b/ir/opt/gvn_pre.c
@@ -1807,7 +1807,7 @@ void do_gvn_pre(ir_graph *irg)
 	save_optimization_state(&state);
 	ir_reserve_resources(irg, IR_RESOURCE_IRN_LINK | IR_RESOURCE_LOOP_LINK);
 
-	edges_activate(irg);
+	assure_edges(irg);
 
 	environment = &env;
 	DEBUG_ONLY(init_stats();)
@@ -1877,5 +1877,5 @@ void do_gvn_pre(ir_graph *irg)
 
 	/* TODO assure nothing else breaks. */
 	set_opt_global_cse(0);
-	edges_activate(irg);
+	assure_edges(irg);
 }
-- 
2.43.0


From ae5beca491e4ebf2806e632fbcc13fe1e138cd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:33 +0000
Subject: [PATCH 003/113] fix: lower_mux: the new Phi may have been optimized
 away

---
 ir/lower/lower_mux.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ir/lower/lower_mux.c b/ir/lower/lower_mux.c
index 3d25727..ee90cda 100644
--- a/ir/lower/lower_mux.c
+++ b/ir/lower/lower_mux.c
@@ -63,7 +63,9 @@ static void lower_mux_node(ir_node* mux)
 	ir_mode *mode = get_irn_mode(mux);
 	ir_node *phi  = new_r_Phi(lower_block, ARRAY_SIZE(mux_values), mux_values,
 	                          mode);
-	collect_new_phi_node(phi);
+	/* the Phi might have been optimized away */
+	if (is_Phi(phi))
+		collect_new_phi_node(phi);
 	exchange(mux, phi);
 
 	/* Add links and update phi node lists, for the next part_block() call.
-- 
2.43.0


From 98d1c59bcc529806ae83e81446412381512ac859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:23 +0000
Subject: [PATCH 004/113] fix: ia32: set up the x87 mode even when SSE2 does
 the arithmetic

---
 ir/be/ia32/ia32_bearch.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ir/be/ia32/ia32_bearch.c b/ir/be/ia32/ia32_bearch.c
index e6dc546..c980df9 100644
--- a/ir/be/ia32/ia32_bearch.c
+++ b/ir/be/ia32/ia32_bearch.c
@@ -1354,10 +1354,11 @@ static void ia32_init(void)
 	ir_target.float_int_overflow       = ir_overflow_indefinite;
 	ir_platform_set_va_list_type_pointer();
 
-	if (!ia32_cg_config.use_sse2 && !ia32_cg_config.use_softfloat) {
-		ir_type *const type_f80 = x86_init_x87_type();
+	/* The x87 registers are part of the calling convention even when SSE2 is
+	 * used for arithmetic, so their mode is always necessary. */
+	ir_type *const type_f80 = x86_init_x87_type();
+	if (!ia32_cg_config.use_sse2 && !ia32_cg_config.use_softfloat)
 		ir_target.mode_float_arithmetic = get_type_mode(type_f80);
-	}
 
 	ia32_register_init();
 	obstack_init(&opcodes_obst);
-- 
2.43.0


From 67a72aad0cd8b8df5dbb0c1369120e87c9c097c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:52 +0000
Subject: [PATCH 005/113] fix: ir_export must report errors which only show up
 when the file is closed

---
 ir/ir/irio.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index df9c5ad..ff8f390 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -1024,7 +1024,9 @@ int ir_export(const char *filename)
 
 	ir_export_file(file);
 	res = ferror(file);
-	fclose(file);
+	/* buffered data may only fail to reach the file now */
+	if (fclose(file) != 0)
+		res = 1;
 	return res;
 }
 
-- 
2.43.0


From f7f3c89262c69588222266d4b5164007d51d9af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:53 +0000
Subject: [PATCH 006/113] fix: ir_import must neither loop forever nor succeed
 on truncated or unreadable input

---
 ir/ir/irio.c | 66 ++++++++++++++++++++++++----------------------------
 1 file changed, 30 insertions(+), 36 deletions(-)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index ff8f390..f08c6b8 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -1155,6 +1155,24 @@ static bool expect_char(read_env_t *env, char ch)
 
 #define EXPECT(c) if (expect_char(env, (c))) {} else return
 
+/**
+ * Returns true if there are more elements in the current "{ }" scope.
+ * Otherwise skips the end of the scope.
+ */
+static bool scope_has_next(read_env_t *env)
+{
+	skip_ws(env);
+	if (env->c == EOF) {
+		parse_error(env, "Unexpected EOF, expected '}'\n");
+		exit(1);
+	}
+	if (env->c == '}') {
+		read_c(env);
+		return false;
+	}
+	return true;
+}
+
 static char *read_word(read_env_t *env)
 {
 	skip_ws(env);
@@ -1320,11 +1338,11 @@ static void expect_list_begin(read_env_t *env)
 
 static bool list_has_next(read_env_t *env)
 {
-	if (feof(env->file)) {
-		parse_error(env, "Unexpected EOF while reading list");
+	skip_ws(env);
+	if (env->c == EOF) {
+		parse_error(env, "Unexpected EOF while reading list\n");
 		exit(1);
 	}
-	skip_ws(env);
 	if (env->c == ']') {
 		read_c(env);
 		return false;
@@ -1891,15 +1909,8 @@ static void read_typegraph(read_env_t *env)
 	env->irg = get_const_code_irg();
 
 	/* parse all types first */
-	while (true) {
-		keyword_t kwkind;
-		skip_ws(env);
-		if (env->c == '}') {
-			read_c(env);
-			break;
-		}
-
-		kwkind = read_keyword(env);
+	while (scope_has_next(env)) {
+		keyword_t kwkind = read_keyword(env);
 		switch (kwkind) {
 		case kw_type:
 			read_type(env);
@@ -2094,13 +2105,7 @@ static void read_graph(read_env_t *env, ir_graph *irg)
 	env->delayed_preds = NEW_ARR_F(const delayed_pred_t*, 0);
 
 	EXPECT('{');
-	while (true) {
-		skip_ws(env);
-		if (env->c == '}' || env->c == EOF) {
-			read_c(env);
-			break;
-		}
-
+	while (scope_has_next(env)) {
 		read_node(env);
 	}
 
@@ -2148,16 +2153,8 @@ static void read_modes(read_env_t *env)
 {
 	EXPECT('{');
 
-	while (true) {
-		keyword_t kwkind;
-
-		skip_ws(env);
-		if (env->c == '}' || env->c == EOF) {
-			read_c(env);
-			break;
-		}
-
-		kwkind = read_keyword(env);
+	while (scope_has_next(env)) {
+		keyword_t kwkind = read_keyword(env);
 		switch (kwkind) {
 		case kw_int_mode: {
 			const char *name = read_string(env);
@@ -2207,13 +2204,7 @@ static void read_program(read_env_t *env)
 {
 	EXPECT('{');
 
-	while (true) {
-		skip_ws(env);
-		if (env->c == '}') {
-			read_c(env);
-			break;
-		}
-
+	while (scope_has_next(env)) {
 		keyword_t kwkind = read_keyword(env);
 		switch (kwkind) {
 		case kw_segment_type: {
@@ -2318,6 +2309,9 @@ int ir_import_file(FILE *input, const char *inputname)
 		}
 	}
 
+	if (ferror(input))
+		parse_error(env, "read error\n");
+
 	for (size_t i = 0, n = ARR_LEN(env->fixedtypes); i < n; i++)
 		set_type_state(env->fixedtypes[i], layout_fixed);
 
-- 
2.43.0


From 22987fc3ca97a968097e898a49887ae0ad01e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:14 +0000
Subject: [PATCH 007/113] fix: ir_import must accept the program name written
 by ir_export

---
 ir/ir/irio.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index f08c6b8..4a27c2b 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -61,6 +61,7 @@ typedef enum keyword_t {
 	kw_label,
 	kw_method,
 	kw_modes,
+	kw_name,
 	kw_parameter,
 	kw_program,
 	kw_reference_mode,
@@ -212,6 +213,7 @@ static void symtbl_init(void)
 	INSERTKEYWORD(label);
 	INSERTKEYWORD(method);
 	INSERTKEYWORD(modes);
+	INSERTKEYWORD(name);
 	INSERTKEYWORD(parameter);
 	INSERTKEYWORD(program);
 	INSERTKEYWORD(reference_mode);
@@ -2213,6 +2215,10 @@ static void read_program(read_env_t *env)
 			set_segment_type(segment, type);
 			break;
 		}
+		case kw_name: {
+			set_irp_prog_name(read_ident(env));
+			break;
+		}
 		case kw_asm: {
 			ident *text = read_ident(env);
 			add_irp_asm(text);
-- 
2.43.0


From 5eeddd3496c6a6c012130b996ae9b484af900e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:14 +0000
Subject: [PATCH 008/113] fix: ir_import must accept references to the unknown
 and code type in pointer and method types

---
 ir/ir/irio.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index 4a27c2b..5810229 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -1708,14 +1708,12 @@ static void read_type(read_env_t *env)
 		type = new_type_method(nparams, nresults, is_variadic, callingconv, addprops);
 
 		for (size_t i = 0; i < nparams; i++) {
-			long ptypenr = read_long(env);
-			ir_type *paramtype = get_type(env, ptypenr);
+			ir_type *paramtype = read_type_ref(env);
 
 			set_method_param_type(type, i, paramtype);
 		}
 		for (size_t i = 0; i < nresults; i++) {
-			long ptypenr = read_long(env);
-			ir_type *restype = get_type(env, ptypenr);
+			ir_type *restype = read_type_ref(env);
 
 			set_method_res_type(type, i, restype);
 		}
@@ -1724,7 +1722,7 @@ static void read_type(read_env_t *env)
 	}
 
 	case tpo_pointer: {
-		ir_type *points_to = get_type(env, read_long(env));
+		ir_type *points_to = read_type_ref(env);
 		type = new_type_pointer(points_to);
 		goto finish_type;
 	}
-- 
2.43.0


From e7999275143dd97c41b618b87c6639073d0e3bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:28 +0000
Subject: [PATCH 009/113] fix: do not use a partially read counter of a
 truncated profile

---
 ir/ir/irprofile.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ir/ir/irprofile.c b/ir/ir/irprofile.c
index 0c3aa25..83d1643 100644
--- a/ir/ir/irprofile.c
+++ b/ir/ir/irprofile.c
@@ -438,20 +438,18 @@ static unsigned int *parse_profile(const char *filename, unsigned int num_blocks
 	 * values stored little endian format. */
 	for (unsigned i = 0; i < num_blocks; ++i) {
 		unsigned char bytes[4];
-		if ((ret = fread(bytes, 1, 4, f)) < 1)
+		if (fread(bytes, sizeof(bytes), 1, f) != 1) {
+			DBG((dbg, LEVEL_4, "Failed to read counters... (size: %u)\n",
+				sizeof(unsigned int) * num_blocks));
+			free(result);
+			result = NULL;
 			break;
+		}
 
 		result[i] = (bytes[0] <<  0) | (bytes[1] <<  8)
 		          | (bytes[2] << 16) | (bytes[3] << 24);
 	}
 
-	if (ret < 1) {
-		DBG((dbg, LEVEL_4, "Failed to read counters... (size: %u)\n",
-			sizeof(unsigned int) * num_blocks));
-		free(result);
-		result = NULL;
-	}
-
 end:
 	fclose(f);
 	return result;
-- 
2.43.0


From 14bb199f369082db321c2193e4a429c72bc08dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:28 +0000
Subject: [PATCH 010/113] fix: do not use the freed file name when a dump file
 cannot be opened

---
 ir/ir/irdump.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ir/ir/irdump.c b/ir/ir/irdump.c
index e4f6fed..092d062 100644
--- a/ir/ir/irdump.c
+++ b/ir/ir/irdump.c
@@ -2153,12 +2153,12 @@ void dump_ir_graph_ext(ir_graph_dump_func func, ir_graph *graph,
 	char *file_name = (char*)obstack_finish(&obst);
 	/* xvcg expects only <LF> so we need "b"inary mode (for win32) */
 	FILE *out       = fopen(file_name, "wb");
+	if (out == NULL)
+		fprintf(stderr, "Couldn't open '%s': %s\n", file_name, strerror(errno));
 	obstack_free(&obst, file_name);
 
-	if (out == NULL) {
-		fprintf(stderr, "Couldn't open '%s': %s\n", file_name, strerror(errno));
+	if (out == NULL)
 		return;
-	}
 
 	func(out, graph);
 	fclose(out);
@@ -2178,12 +2178,12 @@ void dump_ir_prog_ext(ir_prog_dump_func func, const char *suffix)
 
 	char *file_name = (char*)obstack_finish(&obst);
 	FILE *out       = fopen(file_name, "wb");
+	if (out == NULL)
+		fprintf(stderr, "Couldn't open '%s': %s\n", file_name, strerror(errno));
 	obstack_free(&obst, file_name);
 
-	if (out == NULL) {
-		fprintf(stderr, "Couldn't open '%s': %s\n", file_name, strerror(errno));
+	if (out == NULL)
 		return;
-	}
 	func(out);
 	fclose(out);
 }
-- 
2.43.0


From 36f5c49aec3cad82d63be0152ca4d08d002bda4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:47 +0000
Subject: [PATCH 011/113] fix: report failing allocations instead of
 dereferencing the null pointer

---
 ir/libcore/lc_opts.c        | 2 +-
 ir/libcore/lc_printf.c      | 2 +-
 ir/obstack/obstack_printf.c | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ir/libcore/lc_opts.c b/ir/libcore/lc_opts.c
index 5e4db1a..5c512bd 100644
--- a/ir/libcore/lc_opts.c
+++ b/ir/libcore/lc_opts.c
@@ -205,7 +205,7 @@ static lc_opt_entry_t *resolve_up_to_last_str_rec(lc_opt_entry_t *from,
 		size_t next = strspn(path + end, path_delim);
 
 		/* copy the part of the path into a buffer */
-		char *buf = (char*)malloc((end+1) * sizeof(buf[0]));
+		char *buf = XMALLOCN(char, end + 1);
 		strncpy(buf, path, end);
 		buf[end] = '\0';
 
diff --git a/ir/libcore/lc_printf.c b/ir/libcore/lc_printf.c
index c6458ee..9c6999c 100644
--- a/ir/libcore/lc_printf.c
+++ b/ir/libcore/lc_printf.c
@@ -398,7 +398,7 @@ int lc_evpprintf(const lc_arg_env_t *env, lc_appendable_t *app, const char *fmt,
 					char *name;
 					lc_arg_t tmp;
 
-					name = (char*) malloc(sizeof(char) * (n + 1));
+					name = XMALLOCN(char, n + 1);
 					MEMCPY(name, named, n);
 					name[n] = '\0';
 					tmp.name = name;
diff --git a/ir/obstack/obstack_printf.c b/ir/obstack/obstack_printf.c
index f472d89..3d45ee1 100644
--- a/ir/obstack/obstack_printf.c
+++ b/ir/obstack/obstack_printf.c
@@ -3,6 +3,7 @@
  * Copyright (C) 2012 Karlsruhe Institute of Technology.
  */
 #include "obstack.h"
+#include "xmalloc.h"
 #include <assert.h>
 #include <stdarg.h>
 #include <stdio.h>
@@ -45,7 +46,7 @@ int obstack_vprintf(struct obstack *obst, const char *fmt, va_list ap) FIRM_NOTH
 		} else {
 			break;
 		}
-		buffer = (char*)malloc(size);
+		buffer = (char*)xmalloc(size);
 	}
 
 	obstack_grow(obst, buffer, len);
-- 
2.43.0


From 31a1088073b26058f14a0f460029c1fa96af0967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:39 +0000
Subject: [PATCH 012/113] fix: ir_tarval_from_ascii must handle boolean
 constants

---
 ir/tv/tv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ir/tv/tv.c b/ir/tv/tv.c
index d11bfdc..d669464 100644
--- a/ir/tv/tv.c
+++ b/ir/tv/tv.c
@@ -1162,8 +1162,9 @@ ir_tarval *ir_tarval_from_ascii(const char *buf, ir_mode *mode)
 {
 	size_t len = strlen(buf);
 	switch (get_mode_sort(mode)) {
-	case irms_reference:
 	case irms_internal_boolean:
+		return streq(buf, "0") ? tarval_b_false : tarval_b_true;
+	case irms_reference:
 	case irms_int_number:
 		return new_integer_tarval_from_str(buf, len, false, 16, mode);
 	case irms_float_number: {
-- 
2.43.0


From 8dd847baff767325dfdb99cee63eed604044925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:17 +0000
Subject: [PATCH 013/113] fix: order live values and copy coalescing chunks by
 node index instead of address

---
 ir/be/becopyheur4.c | 13 +++----------
 ir/be/belive.c      | 12 ++++++++----
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/ir/be/becopyheur4.c b/ir/be/becopyheur4.c
index f70c9fe..6d45ea6 100644
--- a/ir/be/becopyheur4.c
+++ b/ir/be/becopyheur4.c
@@ -320,7 +320,7 @@ static inline void delete_aff_chunk(aff_chunk_t *c)
 }
 
 /**
- * binary search of sorted nodes.
+ * binary search of nodes sorted by index.
  *
  * @return the position where n is found in the array arr or ~pos
  * if the nodes is not here.
@@ -335,7 +335,7 @@ static inline int nodes_bsearch(const ir_node **arr, const ir_node *n)
 
 		if (arr[md] == n)
 			return md;
-		if (arr[md] < n)
+		if (get_irn_idx(arr[md]) < get_irn_idx(n))
 			lo = md + 1;
 		else
 			hi = md;
@@ -1178,18 +1178,11 @@ static void color_aff_chunk(co_mst_env_t *env, aff_chunk_t *c)
 	}
 
 	/* remove the nodes in best chunk from original chunk */
-	for (size_t idx = 0, len = ARR_LEN(best_chunk->n); idx < len; ++idx) {
-		const ir_node *irn = best_chunk->n[idx];
-		int            pos = nodes_bsearch(c->n, irn);
-		if (pos > 0)
-			c->n[pos] = NULL;
-	}
 	size_t nidx = 0;
 	for (size_t idx = 0, len = ARR_LEN(c->n); idx < len; ++idx) {
 		const ir_node *irn = c->n[idx];
-		if (irn != NULL) {
+		if (!node_contains(best_chunk->n, irn))
 			c->n[nidx++] = irn;
-		}
 	}
 	ARR_SHRINKLEN(c->n, nidx);
 
diff --git a/ir/be/belive.c b/ir/be/belive.c
index 1a34ce9..a688fcd 100644
--- a/ir/be/belive.c
+++ b/ir/be/belive.c
@@ -36,16 +36,20 @@ static unsigned _be_liveness_bsearch(be_lv_info_t const *const arr, ir_node cons
 	if (n == 0)
 		return 0;
 
+	/* The order of the members is visible to everyone iterating over them.
+	 * So sort by index instead of address. */
+	unsigned const idx = get_irn_idx(node);
+
 	unsigned lo = 0;
 	unsigned hi = n;
 	unsigned res;
 	do {
-		unsigned md      = lo + ((hi - lo) >> 1);
-		ir_node *md_node = arr->nodes[md].node;
+		unsigned md     = lo + ((hi - lo) >> 1);
+		unsigned md_idx = get_irn_idx(arr->nodes[md].node);
 
-		if (node > md_node) {
+		if (idx > md_idx) {
 			lo = md + 1;
-		} else if (node < md_node) {
+		} else if (idx < md_idx) {
 			hi = md;
 		} else {
 			res = md;
-- 
2.43.0


From 9514bfc40eb0efd10667537144066e8ac1219240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:17 +0000
Subject: [PATCH 014/113] fix: combine_memops: sort the memory operations
 independent of node addresses

---
 ir/opt/ldstopt.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ir/opt/ldstopt.c b/ir/opt/ldstopt.c
index 7c76a23..7b905da 100644
--- a/ir/opt/ldstopt.c
+++ b/ir/opt/ldstopt.c
@@ -2109,6 +2109,9 @@ static int cmp_ptrs(const void *p0, const void *p1)
 	ir_node *ptr0 = get_ptr(skip_Proj(*n0));
 	ir_node *ptr1 = get_ptr(skip_Proj(*n1));
 	if (ptr0 == NULL || ptr1 == NULL) {
+		/* nodes without address come first */
+		if (ptr0 != NULL || ptr1 != NULL)
+			return (ptr0 != NULL) - (ptr1 != NULL);
 		long num0 = get_irn_node_nr(*n0);
 		long num1 = get_irn_node_nr(*n1);
 		return (num0 > num1) - (num0 < num1);
@@ -2118,8 +2121,12 @@ static int cmp_ptrs(const void *p0, const void *p1)
 	base_offset_t bo1;
 	get_base_and_offset(ptr0, &bo0);
 	get_base_and_offset(ptr1, &bo1);
-	if (bo0.base != bo1.base)
-		return (bo0.base > bo1.base) - (bo0.base < bo1.base);
+	if (bo0.base != bo1.base) {
+		/* do not let the result depend on the addresses of the nodes */
+		long num0 = get_irn_node_nr(bo0.base);
+		long num1 = get_irn_node_nr(bo1.base);
+		return (num0 > num1) - (num0 < num1);
+	}
 	return (bo0.offset > bo1.offset) - (bo0.offset < bo1.offset);
 }
 
-- 
2.43.0


From 22da3e3ace10e2661c6325a212b43114d84985a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:07 +0000
Subject: [PATCH 015/113] fix: proc_cloning: do not process clone candidates in
 address order

---
 ir/opt/proc_cloning.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ir/opt/proc_cloning.c b/ir/opt/proc_cloning.c
index 41e69f6..4e1e9ef 100644
--- a/ir/opt/proc_cloning.c
+++ b/ir/opt/proc_cloning.c
@@ -79,7 +79,8 @@ static int entry_cmp(const void *elt, const void *key)
  */
 static unsigned hash_entry(const entry_t *entry)
 {
-	return hash_ptr(entry->q.ent) ^ hash_ptr(entry->q.tv) ^ (unsigned)(entry->q.pos * 9);
+	/* We iterate over the set, so the hash must not depend on addresses. */
+	return hash_combine((unsigned)get_entity_nr(entry->q.ent), (unsigned)entry->q.pos);
 }
 
 /**
-- 
2.43.0


From d4fded12def48f0d956196181282473c41392c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:02 +0000
Subject: [PATCH 016/113] fix: callgraph and cgana: order callers, callees and
 free methods independent of addresses

The sets of callers, callees, free methods and method implementations were
iterated in the order of their addresses, so the result of inlining and
cloning differed from run to run.
---
 ir/ana/callgraph.c |  9 ++++++---
 ir/ana/cgana.c     | 29 +++++++++++++++++++++++------
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/ir/ana/callgraph.c b/ir/ana/callgraph.c
index 2f4d884..7b8ee4b 100644
--- a/ir/ana/callgraph.c
+++ b/ir/ana/callgraph.c
@@ -173,8 +173,11 @@ static void ana_Call(ir_node *n, void *env)
 		if (callee) {
 			cg_callee_entry buf;
 			buf.irg = callee;
-			pset_insert((pset *)callee->callers, irg, hash_ptr(irg));
-			cg_callee_entry *found = (cg_callee_entry*) pset_find((pset *)irg->callees, &buf, hash_ptr(callee));
+			/* The sets become the lists of callers and callees, so their order
+			 * must not depend on addresses. */
+			unsigned const callee_hash = (unsigned)get_irg_idx(callee);
+			pset_insert((pset *)callee->callers, irg, (unsigned)get_irg_idx(irg));
+			cg_callee_entry *found = (cg_callee_entry*) pset_find((pset *)irg->callees, &buf, callee_hash);
 			if (found) {  /* add Call node to list, compute new nesting. */
 				ir_node **arr = found->call_list;
 				ARR_APP1(ir_node *, arr, n);
@@ -185,7 +188,7 @@ static void ana_Call(ir_node *n, void *env)
 				found->call_list = NEW_ARR_F(ir_node *, 1);
 				found->call_list[0] = n;
 				found->max_depth = 0;
-				pset_insert((pset *)irg->callees, found, hash_ptr(callee));
+				pset_insert((pset *)irg->callees, found, callee_hash);
 			}
 			unsigned depth = get_loop_depth(get_irn_loop(get_nodes_block(n)));
 			found->max_depth = MAX(found->max_depth, depth);
diff --git a/ir/ana/cgana.c b/ir/ana/cgana.c
index a12a4a0..ccb4a09 100644
--- a/ir/ana/cgana.c
+++ b/ir/ana/cgana.c
@@ -33,7 +33,9 @@
 #include "irtools.h"
 #include "panic.h"
 #include "pmap.h"
+#include "util.h"
 #include "xmalloc.h"
+#include <string.h>
 
 /* unambiguous address used as a mark. */
 static void *MARK = &MARK;
@@ -112,6 +114,13 @@ static size_t collect_impls(ir_entity *method, pset *set)
 	return size;
 }
 
+static int cmp_entity_nr(void const *const p0, void const *const p1)
+{
+	ir_entity const *const e0 = *(ir_entity const *const*)p0;
+	ir_entity const *const e1 = *(ir_entity const *const*)p1;
+	return QSORT_CMP(get_entity_nr(e0), get_entity_nr(e1));
+}
+
 /**
  * Determine all methods that overwrite the given method (and implement it).
  * The returned array must be freed by the caller (see DEL_ARR_F).
@@ -127,10 +136,14 @@ static ir_entity **get_impl_methods(ir_entity *method)
 	pset       *set  = pset_new_ptr_default();
 	size_t      size = collect_impls(method, set);
 	if (size > 0) {
-		arr = NEW_ARR_F(ir_entity *, size);
+		/* a method might be reached several times */
+		size = pset_count(set);
+		arr  = NEW_ARR_F(ir_entity *, size);
 		foreach_pset(set, ir_entity, ent) {
 			arr[--size] = ent;
 		}
+		/* do not let the order depend on addresses */
+		QSORT_ARR(arr, cmp_entity_nr);
 	}
 	del_pset(set);
 	return arr;
@@ -479,6 +492,7 @@ static size_t get_free_methods(ir_entity ***free_methods)
 	foreach_pset(free_set, ir_entity, ent) {
 		arr[i++] = ent;
 	}
+	QSORT(arr, length, cmp_entity_nr);
 	del_pset(free_set);
 
 	*free_methods = arr;
@@ -616,13 +630,16 @@ static void callee_walker(ir_node *call, void *env)
 	ir_entity **arr = NEW_ARR_F(ir_entity*, pset_count(methods));
 	size_t      i   = 0;
 	foreach_pset(methods, ir_entity, ent) {
-		arr[i] = ent;
-		/* we want the unknown_entity on the zero position for easy tests later */
-		if (is_unknown_entity(ent)) {
-			arr[i] = arr[0];
+		arr[i++] = ent;
+	}
+	QSORT_ARR(arr, cmp_entity_nr);
+	/* we want the unknown_entity on the zero position for easy tests later */
+	for (i = 1; i < ARR_LEN(arr); ++i) {
+		if (is_unknown_entity(arr[i])) {
+			memmove(&arr[1], &arr[0], i * sizeof(*arr));
 			arr[0] = get_unknown_entity();
+			break;
 		}
-		++i;
 	}
 	cg_set_call_callee_arr(call, ARR_LEN(arr), arr);
 	DEL_ARR_F(arr);
-- 
2.43.0


From b36d6e347eb8b9188c25aa7e4b965cc19d9c7986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:15 +0000
Subject: [PATCH 017/113] fix: ir_import must not merge distinct frame members
 with equal names

Inlining the same function twice leaves several members with the same name,
type and (unset) offset in the frame type.  The importer took them for one and
the same member, so different local variables shared their memory.
---
 ir/ir/irio.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index 5810229..9dbe917 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -95,6 +95,11 @@ static set *symtbl;
  */
 static int n_initial_types;
 
+/**
+ * Objects with a smaller number existed before the import started.
+ */
+static long first_imported_nr;
+
 /**
  * True, if we may still be looking at one of the initial types common
  * to every program.
@@ -1841,7 +1846,8 @@ static void read_entity(read_env_t *env, ir_entity_kind kind)
 		// Try to deduplicate compound_members added by ir_init()
 		for (int i = 0, n = get_compound_n_members(owner); i < n; ++i) {
 			ir_entity *e = get_compound_member(owner, i);
-			if (e->type == type
+			if (e->nr < first_imported_nr
+				&& e->type == type
 				&& streq_null(e->name, name)
 				&& streq_null(e->ld_name, ld_name)
 				&& get_entity_offset(e) == offset
@@ -2271,6 +2277,7 @@ int ir_import_file(FILE *input, const char *inputname)
 	set_optimize(0);
 
 	n_initial_types = get_irp_n_types();
+	first_imported_nr = get_irp_new_node_nr();
 	maybe_initial_type = true;
 
 	while (true) {
-- 
2.43.0


From 6d022cb8e6ed92256fcbcc82541b9978d5dcfd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:39 +0000
Subject: [PATCH 018/113] fix: block walks must reach endless loops which are
 only kept by their memory Phi

Construction keeps the PhiM of every loop alive.  When optimization turns such
a loop into an endless one, no Block is kept, so the block walkers, dominance
and postdominance missed the loop.
---
 ir/ana/irdom.c  | 7 +++++--
 ir/ir/irgwalk.c | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ir/ana/irdom.c b/ir/ana/irdom.c
index 6882a23..7bff3f1 100644
--- a/ir/ana/irdom.c
+++ b/ir/ana/irdom.c
@@ -447,8 +447,8 @@ static void init_tmp_pdom_info(ir_node *block, tmp_dom_info *parent,
 	const ir_graph *irg = get_irn_irg(block);
 	if (block == get_irg_end_block(irg)) {
 		foreach_irn_in_r(get_irg_end(irg), i, pred) {
-			if (is_Block(pred))
-				init_tmp_pdom_info(pred, tdi, tdi_list, used, n_blocks, 1);
+			if (is_Block(pred) || is_Phi(pred))
+				init_tmp_pdom_info(get_block(pred), tdi, tdi_list, used, n_blocks, 1);
 		}
 	}
 }
@@ -649,6 +649,9 @@ void compute_postdoms(ir_graph *irg)
 		/* Step 2 */
 		ir_node  *block       = w->block;
 		bool      unreachable = w->unreachable;
+		/* Blocks kept by a Phi have no edge to the End node. */
+		if (unreachable && w->parent == &tdi_list[0])
+			update_pdom_semi(tdi_list, w, end_block);
 		foreach_irn_out(block, j, succ) {
 			if (get_irn_mode(succ) != mode_X || is_Bad(succ))
 				continue;
diff --git a/ir/ir/irgwalk.c b/ir/ir/irgwalk.c
index 2e27eb6..42b3385 100644
--- a/ir/ir/irgwalk.c
+++ b/ir/ir/irgwalk.c
@@ -341,9 +341,10 @@ void irg_block_walk(ir_node *node, irg_walk_func *pre, irg_walk_func *post,
 	/* Some blocks might be only reachable through keep-alive edges */
 	if (is_End(node)) {
 		foreach_irn_in(node, i, pred) {
-			if (!is_Block(pred))
+			/* Endless loops are kept by a Block or by their memory Phi. */
+			if (!is_Block(pred) && !is_Phi(pred))
 				continue;
-			irg_block_walk_2(pred, pre, post, env);
+			irg_block_walk_2(get_block(pred), pre, post, env);
 		}
 	}
 
-- 
2.43.0


From 6579d9679fd4d4067cb005c16faad2c763bc43fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:23 +0000
Subject: [PATCH 019/113] fix: construct_confirms must not make an existing
 Confirm its own value

---
 ir/ana/irconsconfirm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/ana/irconsconfirm.c b/ir/ana/irconsconfirm.c
index 6f7ecc7..788b95b 100644
--- a/ir/ana/irconsconfirm.c
+++ b/ir/ana/irconsconfirm.c
@@ -350,6 +350,10 @@ static void handle_if(ir_node *block, ir_node *cmp, ir_relation rel, env_t *env)
 				if (c == NULL)
 					c = new_r_Confirm(block, left, right, rel);
 
+				/* CSE may have found an already existing Confirm. */
+				if (succ == c)
+					continue;
+
 				set_irn_n(succ, pos, c);
 				DB((dbg, LEVEL_2, "Replacing input %d of node %+F with %+F\n", pos, succ, c));
 
-- 
2.43.0


From 2ca5fda4eb5c8c8cc75cfab47eab3f0a0f176fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:10 +0000
Subject: [PATCH 020/113] fix: ir_import: accept the NULL names which ir_export
 writes for anonymous members

---
 ir/ir/irio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index 9dbe917..dc58ce8 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -1800,7 +1800,7 @@ static void read_entity(read_env_t *env, ir_entity_kind kind)
 	ir_entity     *entity     = NULL;
 
 	if (kind != IR_ENTITY_LABEL && kind != IR_ENTITY_PARAMETER) {
-		name    = read_ident(env);
+		name    = read_ident_null(env);
 		ld_name = read_ident_null(env);
 	}
 
-- 
2.43.0


From 13f6ab0129ac91efdd5bb7b8509da3a007074df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:10 +0000
Subject: [PATCH 021/113] fix: ir_export: do not drop the linkage flags
 NO_CODEGEN and NO_IDENTITY

---
 ir/ir/irio.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index dc58ce8..3c31594 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -193,6 +193,8 @@ static void symtbl_init(void)
 	INSERT(tt_linkage, "garbage_collect", IR_LINKAGE_GARBAGE_COLLECT);
 	INSERT(tt_linkage, "merge", IR_LINKAGE_MERGE);
 	INSERT(tt_linkage, "hidden_user", IR_LINKAGE_HIDDEN_USER);
+	INSERT(tt_linkage, "no_codegen", IR_LINKAGE_NO_CODEGEN);
+	INSERT(tt_linkage, "no_identity", IR_LINKAGE_NO_IDENTITY);
 
 	INSERT(tt_loop, "loop",   true);
 	INSERT(tt_loop, "noloop", false);
@@ -728,6 +730,10 @@ static void write_entity(write_env_t *env, ir_entity *ent)
 		write_symbol(env, "merge");
 	if (linkage & IR_LINKAGE_HIDDEN_USER)
 		write_symbol(env, "hidden_user");
+	if (linkage & IR_LINKAGE_NO_CODEGEN)
+		write_symbol(env, "no_codegen");
+	if (linkage & IR_LINKAGE_NO_IDENTITY)
+		write_symbol(env, "no_identity");
 	write_list_end(env);
 
 	write_type_ref(env, type);
-- 
2.43.0


From 4f4738e03eafbd0aae16e40721639ce870624111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:10 +0000
Subject: [PATCH 022/113] fix: ir_import: keep the linker name of alias
 entities

---
 ir/ir/irio.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index 3c31594..bfae0e2 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -1826,6 +1826,8 @@ static void read_entity(read_env_t *env, ir_entity_kind kind)
 	case IR_ENTITY_ALIAS: {
 		ir_entity *aliased = read_entity_ref(env);
 		entity = new_alias_entity(owner, name, aliased, type, visibility);
+		if (ld_name != NULL)
+			set_entity_ld_ident(entity, ld_name);
 		break;
 	}
 	case IR_ENTITY_NORMAL:
-- 
2.43.0


From 8ceb4f36eca4efb818c8e9f087f8029d44187f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:10 +0000
Subject: [PATCH 023/113] fix: ir_export: do not drop the alignment of entities

---
 ir/ir/irio.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index bfae0e2..9532eb0 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -740,6 +740,8 @@ static void write_entity(write_env_t *env, ir_entity *ent)
 	if (ent->kind != IR_ENTITY_LABEL)
 		write_type_ref(env, owner);
 	write_volatility(env, get_entity_volatility(ent));
+	write_unsigned(env, ent->alignment);
+	write_align(env, get_entity_aligned(ent));
 
 	switch ((ir_entity_kind)ent->kind) {
 	case IR_ENTITY_ALIAS:
@@ -1821,6 +1823,8 @@ static void read_entity(read_env_t *env, ir_entity_kind kind)
 		owner = read_type_ref(env);
 
 	ir_volatility volatility = read_volatility(env);
+	unsigned      alignment  = read_unsigned(env);
+	ir_align      aligned    = read_align(env);
 
 	switch (kind) {
 	case IR_ENTITY_ALIAS: {
@@ -1907,6 +1911,8 @@ skip_init:
 	}
 
 	set_entity_volatility(entity, volatility);
+	set_entity_alignment(entity, alignment);
+	set_entity_aligned(entity, aligned);
 	set_entity_visibility(entity, visibility);
 	set_entity_linkage(entity, linkage);
 
-- 
2.43.0


From 89a10a9aed20e6a1ab3c7f77c2b9d7f33787a319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:25 +0000
Subject: [PATCH 024/113] fix: ir_export: do not drop the main graph of the
 program

---
 ir/ir/irio.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index 9532eb0..aa17027 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -59,6 +59,7 @@ typedef enum keyword_t {
 	kw_alias,
 	kw_gotentry,
 	kw_label,
+	kw_main,
 	kw_method,
 	kw_modes,
 	kw_name,
@@ -218,6 +219,7 @@ static void symtbl_init(void)
 	INSERTKEYWORD(int_mode);
 	INSERTKEYWORD(irg);
 	INSERTKEYWORD(label);
+	INSERTKEYWORD(main);
 	INSERTKEYWORD(method);
 	INSERTKEYWORD(modes);
 	INSERTKEYWORD(name);
@@ -1004,6 +1006,13 @@ static void write_program(write_env_t *env)
 		write_string(env, get_irp_name());
 		fputc('\n', env->file);
 	}
+	ir_graph *const main_irg = get_irp_main_irg();
+	if (main_irg != NULL) {
+		fputc('\t', env->file);
+		write_symbol(env, "main");
+		write_entity_ref(env, get_irg_entity(main_irg));
+		fputc('\n', env->file);
+	}
 
 	for (ir_segment_t s = IR_SEGMENT_FIRST; s <= IR_SEGMENT_LAST; ++s) {
 		ir_type *segment_type = get_segment_type(s);
@@ -2237,6 +2246,15 @@ static void read_program(read_env_t *env)
 			set_irp_prog_name(read_ident(env));
 			break;
 		}
+		case kw_main: {
+			ir_entity *const entity = read_entity_ref(env);
+			if (!is_method_entity(entity) || get_entity_irg(entity) == NULL) {
+				parse_error(env, "main entity has no graph\n");
+				break;
+			}
+			set_irp_main_irg(get_entity_irg(entity));
+			break;
+		}
 		case kw_asm: {
 			ident *text = read_ident(env);
 			add_irp_asm(text);
-- 
2.43.0


From 02150dab3d79bfec81cd22aa15c1a6fe82183164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:42 +0000
Subject: [PATCH 025/113] fix: proc_cloning: handle unused parameters, active
 out edges and exchanged Calls

---
 ir/opt/proc_cloning.c | 70 +++++++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 23 deletions(-)

diff --git a/ir/opt/proc_cloning.c b/ir/opt/proc_cloning.c
index 4e1e9ef..b498128 100644
--- a/ir/opt/proc_cloning.c
+++ b/ir/opt/proc_cloning.c
@@ -21,6 +21,7 @@
 #include "debug.h"
 #include "hashptr.h"
 #include "ircons.h"
+#include "iredges.h"
 #include "irgmod.h"
 #include "irgwalk.h"
 #include "irnode_t.h"
@@ -249,6 +250,14 @@ static void collect_irg_calls(ir_node *call, void *env)
 	process_call(call, callee, hmap);
 }
 
+typedef struct clone_env_t {
+	ir_graph *clone_irg; /**< The graph of the clone. */
+	ir_node  *irg_args;  /**< The arguments of the original method. */
+	ir_node  *arg;       /**< The argument, that is replaced by a constant, or
+	                          NULL if the method does not use it. */
+	size_t    pos;       /**< The position of the replaced argument. */
+} clone_env_t;
+
 static inline ir_node *get_irn_copy(ir_node *const irn)
 {
 	return (ir_node*)get_irn_link(irn);
@@ -260,23 +269,22 @@ static inline ir_node *get_irn_copy(ir_node *const irn)
  * all arguments behind the removed one.
  *
  * @param irn  A node from the original method graph.
- * @param env  The clone graph.
+ * @param env  The clone environment.
  */
 static void copy_nodes(ir_node *irn, void *env)
 {
-	ir_graph *const clone_irg = (ir_graph*)env;
-	ir_node  *const arg       = (ir_node*)get_irg_link(clone_irg);
-	ir_node  *const irg_args  = get_Proj_pred(arg);
+	clone_env_t const *const cenv = (clone_env_t const*)env;
 
 	/* Copy all nodes except the arg. */
-	if (irn != arg)
-		copy_irn_to_irg(irn, clone_irg);
+	if (irn == cenv->arg)
+		return;
+	copy_irn_to_irg(irn, cenv->clone_irg);
 
 	/* Fix argument numbers */
 	ir_node *const irn_copy = get_irn_copy(irn);
-	if (is_Proj(irn) && get_Proj_pred(irn) == irg_args) {
+	if (is_Proj(irn) && get_Proj_pred(irn) == cenv->irg_args) {
 		unsigned const proj_nr = get_Proj_num(irn);
-		if (get_Proj_num(arg) < proj_nr)
+		if (cenv->pos < proj_nr)
 			set_Proj_num(irn_copy, proj_nr - 1);
 	}
 }
@@ -288,11 +296,11 @@ static void copy_nodes(ir_node *irn, void *env)
  */
 static void set_preds(ir_node *irn, void *env)
 {
-	ir_graph *const clone_irg = (ir_graph*)env;
+	clone_env_t const *const cenv      = (clone_env_t const*)env;
+	ir_graph          *const clone_irg = cenv->clone_irg;
 
 	/* Arg is the method argument, that we have replaced by a constant.*/
-	ir_node *const arg = (ir_node*)get_irg_link(clone_irg);
-	if (arg == irn)
+	if (irn == cenv->arg)
 		return;
 
 	ir_node  *const irn_copy = get_irn_copy(irn);
@@ -329,6 +337,7 @@ static void set_preds(ir_node *irn, void *env)
  *
  * @param irg  irg that must be cloned.
  * @param pos  The position of the argument.
+ * @return The Proj of the argument or NULL if the argument is not used.
  */
 static ir_node *get_irg_arg(ir_graph *irg, size_t pos)
 {
@@ -345,7 +354,6 @@ static ir_node *get_irg_arg(ir_graph *irg, size_t pos)
 			arg = proj;
 		}
 	}
-	assert(arg && "Argument not found");
 	return arg;
 }
 
@@ -389,19 +397,23 @@ static void create_clone_proc_irg(ir_entity *ent, const quadruple_t *q)
 	ir_graph *const clone_irg  = new_ir_graph(ent, 0);
 	clone_frame(method_irg, clone_irg, q->pos);
 
-	ir_node *const arg        = get_irg_arg(get_entity_irg(q->ent), q->pos);
-	/* we will replace the argument in position "q->pos" by this constant. */
-	ir_node *const const_arg  = new_r_Const(clone_irg, q->tv);
-
-	/* args copy in the cloned graph will be the const. */
-	set_irn_link(arg, const_arg);
-
-	/* Store the arg that will be replaced here, so we can easily detect it. */
-	set_irg_link(clone_irg, arg);
+	clone_env_t env = {
+		.clone_irg = clone_irg,
+		.irg_args  = get_irg_args(method_irg),
+		.arg       = get_irg_arg(method_irg, q->pos),
+		.pos       = q->pos,
+	};
+	if (env.arg != NULL) {
+		/* we will replace the argument in position "q->pos" by this constant. */
+		ir_node *const const_arg = new_r_Const(clone_irg, q->tv);
+
+		/* args copy in the cloned graph will be the const. */
+		set_irn_link(env.arg, const_arg);
+	}
 
 	/* We copy the blocks and nodes, that must be in
 	the clone graph and set their predecessors. */
-	irg_walk_graph(method_irg, copy_nodes, set_preds, clone_irg);
+	irg_walk_graph(method_irg, copy_nodes, set_preds, &env);
 
 	/* The "cloned" graph must be matured. */
 	irg_finalize_cons(clone_irg);
@@ -507,7 +519,12 @@ static void exchange_calls(quadruple_t *q, ir_entity *cloned_ent)
 	/* We iterate the list of the "call".*/
 	size_t const pos = q->pos;
 	for (size_t i = 0; i < ARR_LEN(q->calls); ++i) {
-		ir_node *const call = q->calls[i];
+		/* The Call may already be exchanged: it is in the list of every of its
+		 * constant parameters and may be processed more than once. */
+		ir_node *const call = skip_Id(q->calls[i]);
+		if (get_Call_callee(call) != q->ent)
+			continue;
+
 		/* A clone exist and the copy of "call" in this
 		 * clone graph must be exchanged with new one. */
 		ir_node *const new_call = new_cl_Call(call, cloned_ent, pos);
@@ -595,6 +612,13 @@ void proc_cloning(float threshold)
 	/* register a debug mask */
 	FIRM_DBG_REGISTER(dbg, "firm.opt.proc_cloning");
 
+	/* We need the Ids of the exchanged Calls to find their replacements, so
+	 * there must not be any out edges: exchange() would leave only Deleted nodes
+	 * then. */
+	foreach_irp_irg(i, irg) {
+		edges_deactivate(irg);
+	}
+
 	q_set hmap;
 	obstack_init(&hmap.obst);
 	hmap.map        = NULL;
-- 
2.43.0


From ce11da82b3ba87e977905d2596e2f87dab6212f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 026/113] fix: lcssa: require a graph without unreachable code
 and Bads

---
 ir/opt/lcssa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ir/opt/lcssa.c b/ir/opt/lcssa.c
index a6696a8..26b609b 100644
--- a/ir/opt/lcssa.c
+++ b/ir/opt/lcssa.c
@@ -330,7 +330,8 @@ static void verify_lcssa(ir_graph *const irg)
 void assure_lcssa(ir_graph *const irg)
 {
 	FIRM_DBG_REGISTER(dbg, "firm.opt.lcssa");
-	assure_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO | IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE | IR_GRAPH_PROPERTY_NO_CRITICAL_EDGES);
+	assure_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO | IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE
+	                         | IR_GRAPH_PROPERTY_NO_CRITICAL_EDGES | IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE | IR_GRAPH_PROPERTY_NO_BADS);
 	ir_reserve_resources(irg, IR_RESOURCE_IRN_LINK);
 	irg_walk_graph(irg, firm_clear_link, NULL, NULL);
 	DB((dbg, LEVEL_1, "Begin LCSSA construction on %+F\n", irg));
-- 
2.43.0


From c440480f20be1e331ec73ba2929037a044d45911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 027/113] fix: irgopt: rebuild the out edges after
 local_optimize_graph

---
 ir/opt/irgopt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ir/opt/irgopt.c b/ir/opt/irgopt.c
index cf88a02..ec355f2 100644
--- a/ir/opt/irgopt.c
+++ b/ir/opt/irgopt.c
@@ -124,6 +124,12 @@ static void find_unreachable_blocks(ir_node *block, void *env)
 void local_optimize_graph(ir_graph *irg)
 {
 	local_optimize_node(get_irg_end(irg));
+
+	/* The out edges still contain the nodes, that were just optimized away. */
+	if (edges_activated(irg)) {
+		edges_deactivate(irg);
+		edges_activate(irg);
+	}
 }
 
 /**
-- 
2.43.0


From 1b2f13f5154e526887579830ea9cada115b2a825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 028/113] fix: iropt: x >> x is only zero without modulo shift

---
 ir/opt/iropt.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 80938f0..15cfe18 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -534,7 +534,10 @@ static ir_tarval *computed_value_Shr(const ir_node *n)
 
 	if (ta != tarval_unknown && tb != tarval_unknown)
 		return tarval_shr(ta, tb);
-	if (a == b || is_oversize_shift(n))
+	/* x >> x == 0, unless the shift amount wraps around. */
+	if (a == b && get_mode_modulo_shift(get_irn_mode(n)) == 0)
+		return get_mode_null(get_irn_mode(n));
+	if (is_oversize_shift(n))
 		return get_mode_null(get_irn_mode(n));
 	return tarval_unknown;
 }
-- 
2.43.0


From 3e5d76fc2b637f23524123d5953622625f51e834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 029/113] fix: gvn_pre: do not ask for the block of the Anchor

---
 ir/opt/gvn_pre.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ir/opt/gvn_pre.c b/ir/opt/gvn_pre.c
index 6b5e0bc..bfcd4ea 100644
--- a/ir/opt/gvn_pre.c
+++ b/ir/opt/gvn_pre.c
@@ -1563,6 +1563,8 @@ static void hoist_high(ir_node *block, void *ctx)
 						DB((dbg, LEVEL_4, "testing succ %+F\n", succ));
 
 						/* check only successors on current path to end */
+						if (is_Anchor(succ))
+							continue;
 						if (block_dominates(dom, get_nodes_block(succ))) {
 							ir_node *succ_value = identify(succ);
 
-- 
2.43.0


From 6e9f81517dc8b6626704c672a21811785c2a73cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 030/113] fix: phi cycles, loop unrolling: do not keep removed
 memory Phis alive

---
 ir/opt/loop.c    | 4 ++++
 ir/opt/opt_osr.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ir/opt/loop.c b/ir/opt/loop.c
index 546d4c5..a5247c7 100644
--- a/ir/opt/loop.c
+++ b/ir/opt/loop.c
@@ -1245,6 +1245,10 @@ static void correct_phis(ir_node *const node, void *const env)
 		ir_node  *const in[]  = { get_Phi_pred(node, 0) };
 		ir_mode  *const mode  = get_irn_mode(node);
 		ir_node  *const exch  = new_rd_Phi(dbgi, block, ARRAY_SIZE(in), in, mode);
+		if (get_Phi_loop(node)) {
+			remove_keep_alive(node);
+			set_Phi_loop(node, false);
+		}
 		exchange(node, exch);
 	}
 }
diff --git a/ir/opt/opt_osr.c b/ir/opt/opt_osr.c
index e833d5c..70ad119 100644
--- a/ir/opt/opt_osr.c
+++ b/ir/opt/opt_osr.c
@@ -798,6 +798,10 @@ static void remove_phi_cycle(scc *pscc, iv_env *env)
 		node_entry *e = get_irn_ne(irn, env);
 		next = e->next;
 		e->header = NULL;
+		if (get_Phi_loop(irn)) {
+			remove_keep_alive(irn);
+			set_Phi_loop(irn, false);
+		}
 		exchange(irn, out_rc);
 	}
 	++env->replaced;
-- 
2.43.0


From c1879dbb49a6db1ea8e9e321079cddd00a30ce2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 031/113] fix: ldstopt: drop value information when the mode of
 a Load changes

---
 ir/opt/ldstopt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ir/opt/ldstopt.c b/ir/opt/ldstopt.c
index 7b905da..fcbf8e9 100644
--- a/ir/opt/ldstopt.c
+++ b/ir/opt/ldstopt.c
@@ -34,6 +34,7 @@
 #include "tv_t.h"
 #include "type_t.h"
 #include "util.h"
+#include "vrp.h"
 #include <string.h>
 
 /** The debug handle. */
@@ -1473,6 +1474,8 @@ static changes_t optimize_conv_load(ir_node *conv)
 	}
 	set_Load_mode(load, mode);
 	set_irn_mode(op, mode);
+	/* The value information of the Proj is not valid for its new mode. */
+	free_vrp_data(get_irn_irg(op));
 	exchange(conv, op);
 	return DF_CHANGED;
 }
-- 
2.43.0


From 1267129ca6f3151fa6969b8beb103173fcb15e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 032/113] fix: jumpthreading: accept Phis with a single
 predecessor

---
 ir/opt/jumpthreading.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ir/opt/jumpthreading.c b/ir/opt/jumpthreading.c
index 2797e94..30feb7c 100644
--- a/ir/opt/jumpthreading.c
+++ b/ir/opt/jumpthreading.c
@@ -438,8 +438,6 @@ static ir_node *find_const_or_confirm(jumpthreading_env_t *env, ir_node *jump,
 	}
 
 	if (is_Phi(value)) {
-		assert(get_irn_arity(value) > 1);
-
 		/* the Phi has to be in the same Block as the Jmp */
 		if (get_nodes_block(value) != block)
 			return NULL;
-- 
2.43.0


From c73f707f24e29428eb79f9305444394152a8635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 033/113] fix: irssacons: SSA reconstruction cannot run with
 active out edges

---
 ir/ir/irssacons.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ir/ir/irssacons.c b/ir/ir/irssacons.c
index c7a5c9f..da37a74 100644
--- a/ir/ir/irssacons.c
+++ b/ir/ir/irssacons.c
@@ -9,6 +9,7 @@
  * @author  Michael Beck
  */
 #include "ircons_t.h"
+#include "iredges.h"
 #include "irgraph_t.h"
 #include "irgwalk.h"
 #include "irnode_t.h"
@@ -35,6 +36,10 @@ static void prepare_blocks(ir_node *block, void *env)
 
 void ssa_cons_start(ir_graph *irg, int n_loc)
 {
+	/* The value arrays find the replacement of an unnecessary Phi by its Id,
+	 * but exchange() only leaves a Deleted node if there are out edges. */
+	edges_deactivate(irg);
+
 	add_irg_constraints(irg, IR_GRAPH_CONSTRAINT_CONSTRUCTION);
 
 	irg_set_nloc(irg, n_loc);
-- 
2.43.0


From 8ebb414df7e0d7d766b250c662f3ac10011ef91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 034/113] fix: scalar_replace: do not treat the address of an
 array as leaf

---
 ir/opt/scalar_replace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/opt/scalar_replace.c b/ir/opt/scalar_replace.c
index 7766407..3678f40 100644
--- a/ir/opt/scalar_replace.c
+++ b/ir/opt/scalar_replace.c
@@ -236,6 +236,10 @@ static leaf_state_t link_all_leaf_members(ir_entity *ent, ir_node *sel)
 		if (is_Member(succ)) {
 			link_all_leaf_members(ent, succ);
 			state |= HAS_CHILD_SELS;
+		} else if (is_Sel(succ)) {
+			/* we cannot handle array elements yet */
+			set_entity_link(ent, ADDRESS_TAKEN);
+			return HAS_CHILD_LOAD_STORE | HAS_CHILD_SELS;
 		} else if (is_Id(succ)) {
 			state |= link_all_leaf_members(ent, succ);
 		} else {
-- 
2.43.0


From 4fca53b75d906caaec7d50748b3aeaf3dd8a2667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:58 +0000
Subject: [PATCH 035/113] fix: combo kept one-input Phis when it fused a block
 with its only predecessor

---
 ir/opt/combo.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ir/opt/combo.c b/ir/opt/combo.c
index a809284..e4faff2 100644
--- a/ir/opt/combo.c
+++ b/ir/opt/combo.c
@@ -2779,6 +2779,22 @@ static void apply_cf(ir_node *block, void *ctx)
 
 		if (can_exchange(pred, block)) {
 			ir_node *new_block = get_nodes_block(pred);
+			/* the Phis do not fit to the inputs of the fused block */
+			for (ir_node *next, *phi = get_Block_phis(block); phi != NULL; phi = next) {
+				ir_node *const s        = get_Phi_pred(phi, 0);
+				node_t  *const phi_node = get_irn_node(phi);
+
+				next = get_Phi_next(phi);
+				if (s == phi)
+					continue;
+				if (get_Phi_loop(phi))
+					remove_keep_alive(phi);
+
+				DB((dbg, LEVEL_1, "%+F is replaced by %+F because of cf change\n", phi, s));
+				DBG_OPT_COMBO(phi, s);
+				exchange(phi, s);
+				phi_node->node = s;
+			}
 			DB((dbg, LEVEL_1, "Fuse %+F with %+F\n", block, new_block));
 			DBG_OPT_COMBO(block, new_block);
 			exchange(block, new_block);
-- 
2.43.0


From 38f3849a0adc20b74c593d1a6b8fb6cd7bb88cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:58 +0000
Subject: [PATCH 036/113] fix: jumpthreading threaded through blocks whose Phis
 it does not update

---
 ir/opt/jumpthreading.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/opt/jumpthreading.c b/ir/opt/jumpthreading.c
index 30feb7c..34578d4 100644
--- a/ir/opt/jumpthreading.c
+++ b/ir/opt/jumpthreading.c
@@ -563,6 +563,10 @@ static void thread_jumps(ir_node* block, void* data)
 	/* we do not deal with Phis, so restrict this to exactly one cfgpred */
 	if (get_Block_n_cfgpreds(block) != 1)
 		return;
+	foreach_out_edge(block, edge) {
+		if (is_Phi(get_edge_src_irn(edge)))
+			return;
+	}
 
 	ir_node *projx = get_Block_cfgpred(block, 0);
 	if (!is_Proj(projx))
-- 
2.43.0


From b39f3db065290058b7ad7e5ef33ba9347426e022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 037/113] fix: lower_mux left folded Projs and dead nodes in
 its start block list and in active out edges

---
 ir/lower/lower_mux.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/ir/lower/lower_mux.c b/ir/lower/lower_mux.c
index ee90cda..958494b 100644
--- a/ir/lower/lower_mux.c
+++ b/ir/lower/lower_mux.c
@@ -13,6 +13,7 @@
 #include "irgmod.h"
 #include "irgraph_t.h"
 #include "irgwalk.h"
+#include "iropt_t.h"
 #include "irnode_t.h"
 #include "lowering.h"
 #include "util.h"
@@ -64,16 +65,30 @@ static void lower_mux_node(ir_node* mux)
 	ir_node *phi  = new_r_Phi(lower_block, ARRAY_SIZE(mux_values), mux_values,
 	                          mode);
 	/* the Phi might have been optimized away */
-	if (is_Phi(phi))
+	if (is_Phi(phi)) {
 		collect_new_phi_node(phi);
+		/* optimization replaces the inputs at unreachable edges */
+		foreach_irn_in(phi, i, pred) {
+			if (is_Bad(pred))
+				collect_new_start_block_node(pred);
+		}
+	} else if (is_irn_start_block_placed(phi)) {
+		collect_new_start_block_node(phi);
+	}
 	exchange(mux, phi);
 
 	/* Add links and update phi node lists, for the next part_block() call.
 	 * lower_block and upper_block have been updated by part_block(). Link
-	 * the projs with the cond. */
-	set_irn_link(trueProj,  get_irn_link(cond));
-	set_irn_link(falseProj, trueProj);
-	set_irn_link(cond,      falseProj);
+	 * the projs with the cond, unless they have been optimized away. */
+	for (size_t i = 0; i < ARRAY_SIZE(mux_jmps); ++i) {
+		ir_node *const jmp = mux_jmps[i];
+		if (is_Proj(jmp)) {
+			set_irn_link(jmp,  get_irn_link(cond));
+			set_irn_link(cond, jmp);
+		} else if (is_irn_start_block_placed(jmp)) {
+			collect_new_start_block_node(jmp);
+		}
+	}
 }
 
 void lower_mux(ir_graph *irg, lower_mux_callback *cb_func)
@@ -90,6 +105,8 @@ void lower_mux(ir_graph *irg, lower_mux_callback *cb_func)
 
 		/* This is required by part_block() later. */
 		ir_reserve_resources(irg, resources);
+		/* CSE must not bring back dead nodes, which are not collected. */
+		new_identities(irg);
 		collect_phiprojs_and_start_block_nodes(irg);
 
 		for (size_t i = 0; i < n_muxes; ++i) {
@@ -100,6 +117,9 @@ void lower_mux(ir_graph *irg, lower_mux_callback *cb_func)
 		ir_free_resources(irg, resources);
 
 		clear_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE | IR_GRAPH_PROPERTY_NO_CRITICAL_EDGES);
+		/* The out edges still contain the replaced nodes. */
+		confirm_irg_properties(irg, IR_GRAPH_PROPERTIES_ALL
+		                          & ~IR_GRAPH_PROPERTY_CONSISTENT_OUT_EDGES);
 	}
 	DEL_ARR_F(env.muxes);
 }
-- 
2.43.0


From a80e1351a5b627ea464a418a6e386194763db6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 038/113] fix: lower_switch compared the ranges of a signed
 selector signed

---
 ir/lower/lower_switch.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ir/lower/lower_switch.c b/ir/lower/lower_switch.c
index a58a055..70f4493 100644
--- a/ir/lower/lower_switch.c
+++ b/ir/lower/lower_switch.c
@@ -286,6 +286,13 @@ static ir_node *create_case_cond(const ir_switch_table_entry *entry,
 	} else {
 		ir_tarval *adjusted_max = tarval_sub(entry->max, entry->min);
 		ir_node   *sub          = new_rd_Sub(dbgi, block, selector, minconst);
+		ir_mode   *mode         = get_irn_mode(selector);
+		/* values below the minimum wrap around, so compare unsigned */
+		if (mode_is_signed(mode)) {
+			mode         = find_unsigned_mode(mode);
+			adjusted_max = tarval_convert_to(adjusted_max, mode);
+			sub          = new_rd_Conv(dbgi, block, sub, mode);
+		}
 		ir_node   *maxconst     = new_r_Const(irg, adjusted_max);
 		cmp = new_rd_Cmp(dbgi, block, sub, maxconst, ir_relation_less_equal);
 	}
-- 
2.43.0


From 86167c839de6ab8b2b322577bf50c10e06d341be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 039/113] fix: LCSSA construction missed the exits of loops
 which a value only crosses

---
 ir/opt/lcssa.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/ir/opt/lcssa.c b/ir/opt/lcssa.c
index 26b609b..5117275 100644
--- a/ir/opt/lcssa.c
+++ b/ir/opt/lcssa.c
@@ -76,8 +76,10 @@ static bool cf_has_loop_exit(ir_node const *const from_block, ir_node const *con
 	return !nested;
 }
 
-/* Returns true if control flow from pred_block to block is an exit of any loop containing target. */
-static bool is_nested_loop_exit(ir_node const *const block, ir_node const *const pred_block, ir_node const *const target)
+/* Returns true if control flow from pred_block to block is an exit of a loop.
+ * This includes loops which do not contain the target: they may get a tentative
+ * Phi, which needs another Phi at the exit. */
+static bool is_loop_exit(ir_node const *const block, ir_node const *const pred_block)
 {
 	ir_loop const *const block_loop = get_irn_loop(block);
 	ir_loop const *const pred_loop = get_irn_loop(pred_block);
@@ -86,15 +88,7 @@ static bool is_nested_loop_exit(ir_node const *const block, ir_node const *const
 		return false;
 	}
 
-	ir_node const *const target_block = get_nodes_block(target);
-	ir_loop const *const target_loop = get_irn_loop(target_block);
-	assert(target_loop && get_loop_depth(target_loop) > 0);
-
-	unsigned const block_depth = get_loop_depth(block_loop);
-	unsigned const pred_depth  = get_loop_depth(pred_loop);
-
-	return is_loop_nested_inside(target_loop, pred_loop) &&
-		pred_depth > block_depth;
+	return get_loop_depth(pred_loop) > get_loop_depth(block_loop);
 }
 
 static ir_node *new_linked_Phi(ir_node *block, ir_mode *mode)
@@ -138,7 +132,7 @@ static ir_node *insert_phis_recursive(ir_node *const target, ir_node *const bloc
 	} else if (arity == 1) {
 		ir_node *pred_block = get_Block_cfgpred_block(block, 0);
 
-		if (is_nested_loop_exit(block, pred_block, target)) {
+		if (is_loop_exit(block, pred_block)) {
 			ir_node *phi  = new_linked_Phi(block, mode);
 			DB((dbg, LEVEL_2, "Loop exit, constructing %+F\n", phi));
 
-- 
2.43.0


From fb0d8dd29dc4774d50d81cc83c483150e0a343b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 040/113] fix: full loop unrolling dropped what the loop header
 computes in its last evaluation

---
 ir/opt/loop_unrolling.c | 49 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/ir/opt/loop_unrolling.c b/ir/opt/loop_unrolling.c
index ccf4764..cee13ee 100644
--- a/ir/opt/loop_unrolling.c
+++ b/ir/opt/loop_unrolling.c
@@ -9,6 +9,7 @@
  * @author  Elias Aebi
  */
 #include "lcssa_t.h"
+#include "irouts_t.h"
 #include "irtools.h"
 #include "xmalloc.h"
 #include "debug.h"
@@ -454,6 +455,49 @@ static void remove_block_input(ir_node *block, int idx)
 	set_irn_in(block, n, ins);
 }
 
+/**
+ * Returns true if node is in a block of the current loop.
+ */
+static bool is_in_loop_blocks(ir_node *const node)
+{
+	return pset_new_contains(&loop_blocks, get_nodes_block(node));
+}
+
+/**
+ * Full unrolling lets the last iteration skip the header.  So a value of the
+ * loop, which is used after the loop, must be a Phi of the header: anything else
+ * in the header is not computed again after the last iteration.
+ */
+static bool can_skip_header(ir_node *const header)
+{
+	foreach_irn_out_r(header, i, projx) {
+		if (!is_Proj(projx) || get_irn_mode(projx) != mode_X)
+			continue;
+		foreach_irn_out_r(projx, j, after_loop) {
+			if (!is_Block(after_loop) || pset_new_contains(&loop_blocks, after_loop))
+				continue;
+			foreach_irn_out_r(after_loop, k, phi) {
+				if (!is_Phi(phi))
+					continue;
+				for (int n = get_Block_n_cfgpreds(after_loop); n-- > 0;) {
+					if (get_Block_cfgpred(after_loop, n) != projx)
+						continue;
+					ir_node *pred = get_Phi_pred(phi, n);
+					/* Loads need not be repeated */
+					while (get_irn_mode(pred) == mode_M && is_Proj(pred)
+					       && is_Load(get_Proj_pred(pred)) && is_in_loop_blocks(pred)
+					       && get_Load_volatility(get_Proj_pred(pred)) == volatility_non_volatile) {
+						pred = get_Load_mem(get_Proj_pred(pred));
+					}
+					if (is_in_loop_blocks(pred) && !(is_Phi(pred) && get_nodes_block(pred) == header))
+						return false;
+				}
+			}
+		}
+	}
+	return true;
+}
+
 static void rewire_fully_unrolled(ir_loop *const loop, ir_node *header) {
 	int n_header_preds = get_irn_arity(header);
 
@@ -499,7 +543,7 @@ static void rewire_fully_unrolled(ir_loop *const loop, ir_node *header) {
 			if (is_Phi(phi)) {
 				ir_node *const pred = get_irn_n(phi, n_after);
 				ir_node *new_pred = NULL;
-				if (is_Phi(pred)) {
+				if (is_Phi(pred) && get_nodes_block(pred) == header) {
 					// case: pred is phi in loop header. use input i of loop header phi
 					new_pred = get_irn_n(pred, i);
 				} else if (get_irn_mode(phi) == mode_M) {
@@ -578,6 +622,9 @@ static bool unroll_loop(ir_loop *const loop, unsigned factor)
 		}
 	}
 
+	if (fully_unroll && !can_skip_header(header))
+		fully_unroll = false;
+
 	for (unsigned j = 1; j < factor; ++j) {
 
 		// step 1: duplicate blocks
-- 
2.43.0


From fd5c0fa7cf807bb037c9d5445d61b35de038451a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 041/113] fix: combine_memops left replaced nodes in active out
 edges

---
 ir/opt/ldstopt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ir/opt/ldstopt.c b/ir/opt/ldstopt.c
index fcbf8e9..9a4525e 100644
--- a/ir/opt/ldstopt.c
+++ b/ir/opt/ldstopt.c
@@ -2301,6 +2301,9 @@ void combine_memops(ir_graph *irg)
 		return;
 
 	irg_walk_graph(irg, combine_memop, NULL, NULL);
+	/* The out edges still contain the replaced nodes. */
+	confirm_irg_properties(irg, IR_GRAPH_PROPERTIES_ALL
+	                          & ~IR_GRAPH_PROPERTY_CONSISTENT_OUT_EDGES);
 }
 
 void optimize_load_store(ir_graph *irg)
-- 
2.43.0


From 193e3587ede58ee0c302f614cac26f95f2210af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 042/113] fix: local_optimize_graph kept NO_UNREACHABLE_CODE
 after folding branches

---
 ir/opt/irgopt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ir/opt/irgopt.c b/ir/opt/irgopt.c
index ec355f2..f8ee0af 100644
--- a/ir/opt/irgopt.c
+++ b/ir/opt/irgopt.c
@@ -124,6 +124,8 @@ static void find_unreachable_blocks(ir_node *block, void *env)
 void local_optimize_graph(ir_graph *irg)
 {
 	local_optimize_node(get_irg_end(irg));
+	/* folded branches leave unreachable blocks */
+	clear_irg_properties(irg, IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE);
 
 	/* The out edges still contain the nodes, that were just optimized away. */
 	if (edges_activated(irg)) {
-- 
2.43.0


From 5c9f83fec9e2cfb9ecb40016366c221d7ac47454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 043/113] fix: combo kept nodes that replaced a memory Phi
 alive

---
 ir/opt/combo.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ir/opt/combo.c b/ir/opt/combo.c
index e4faff2..b8268d4 100644
--- a/ir/opt/combo.c
+++ b/ir/opt/combo.c
@@ -3186,7 +3186,10 @@ static void add_memory_keeps(ir_graph *irg, ir_node **kept_memory, size_t len)
 		ir_nodeset_insert(&set, get_End_keepalive(end, i));
 
 	for (size_t idx = 0; idx < len; ++idx) {
-		ir_node *ka = kept_memory[idx];
+		/* the Phi may have been replaced by its only live predecessor */
+		ir_node *ka = skip_Id(kept_memory[idx]);
+		if (!is_Phi(ka))
+			continue;
 		if (!ir_nodeset_contains(&set, ka)) {
 			add_End_keepalive(end, ka);
 		}
-- 
2.43.0


From af58d8ab60ff1db7b64af672a5b0354777b240fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 044/113] fix: a float to int to smaller int conversion was
 folded although only the int conversion wraps

---
 ir/opt/iropt.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 15cfe18..d9d4ea3 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -6346,7 +6346,8 @@ static unsigned get_significand_size(ir_mode *mode)
  *
  * additional float constraints:
  * F -> F -> F: fine
- * F -> I -> I: signedness of Is must match
+ * F -> I -> I: signedness of Is must match and the second I must not be smaller
+ *              (only the conversion between Is wraps around)
  * I -> F -> I: signedness of Is must match
  * I -> I -> F: signedness of Is must match
  * F -> I -> F: bad
@@ -6369,6 +6370,8 @@ bool may_leave_out_middle_conv(ir_mode *m0, ir_mode *m1, ir_mode *m2)
 	unsigned size0 = get_significand_size(m0);
 	unsigned size1 = get_significand_size(m1);
 	unsigned size2 = get_significand_size(m2);
+	if (n_floats == 1 && mode_is_float(m0) && size2 < size1)
+		return false;
 	if (size1 < size2 && size0 >= size1)
 		return false;
 	if (size1 >= size2)
-- 
2.43.0


From ae4dfeb06ed874206c5beb2592faa432fe1d94f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 045/113] fix: reassoc took both operands of x - x as negative

---
 ir/opt/reassoc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ir/opt/reassoc.c b/ir/opt/reassoc.c
index 145227c..e7f62e9 100644
--- a/ir/opt/reassoc.c
+++ b/ir/opt/reassoc.c
@@ -1148,7 +1148,8 @@ static void add_to_Add_set(multi_op_env *multi_env, ir_node *node, multi_op *set
 		pmap_insert(multi_env->set_map, node, set);
 		pmap_insert(set->edge_value, node, val);
 	} else if ((op == op_Add || (op == op_Sub && !mode_is_reference(get_irn_mode(get_Sub_right(node)))
-		       && !mode_is_reference(get_irn_mode(get_Sub_left(node))))) && mode == base_mode) {
+		       && !mode_is_reference(get_irn_mode(get_Sub_left(node)))
+		       && get_Sub_left(node) != get_Sub_right(node))) && mode == base_mode) {
 		/* add Add or Sub to set */
 		assert(!entry);
 		assert(!pset_find_ptr(set->nodes, node));
@@ -1359,8 +1360,10 @@ static bool is_supported_node(ir_node *node)
 	case iro_Add:
 		return true;
 	case iro_Sub:
+		/* The edges of x - x cannot be told apart. */
 		return !mode_is_reference(get_irn_mode(get_Sub_left(node)))
-		    && !mode_is_reference(get_irn_mode(get_Sub_right(node)));
+		    && !mode_is_reference(get_irn_mode(get_Sub_right(node)))
+		    && get_Sub_left(node) != get_Sub_right(node);
 	case iro_Mul:
 		return is_scalar_Mul(node);
 	default:
-- 
2.43.0


From a70ccb6b5948d06a6cc9a2a000780257410702da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 046/113] fix: control dependence crashed on blocks which do
 not reach End

---
 ir/ana/cdep.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ir/ana/cdep.c b/ir/ana/cdep.c
index 714a1b1..28dd92e 100644
--- a/ir/ana/cdep.c
+++ b/ir/ana/cdep.c
@@ -95,9 +95,10 @@ static void cdep_pre(ir_node *node, void *ctx)
 			continue;
 
 		ir_node *pdom = get_Block_ipostdom(pred);
-		for (ir_node *dependee = node; dependee != pdom;
+		/* Blocks which do not reach End have no postdominator. */
+		for (ir_node *dependee = node; dependee != NULL && dependee != pdom;
 		     dependee = get_Block_ipostdom(dependee)) {
-			assert(!is_Bad(pdom));
+			assert(pdom == NULL || !is_Bad(pdom));
 			add_cdep(dependee, pred);
 		}
 	}
-- 
2.43.0


From ae6452785a99cd9497035a6d7d382c6064d7ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 047/113] fix: opt_bool worked on deleted blocks when out edges
 were active

---
 ir/opt/boolopt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ir/opt/boolopt.c b/ir/opt/boolopt.c
index b982f9a..28dc0b9 100644
--- a/ir/opt/boolopt.c
+++ b/ir/opt/boolopt.c
@@ -13,6 +13,7 @@
 #include "debug.h"
 #include "ircons.h"
 #include "irgmod.h"
+#include "iredges.h"
 #include "irgwalk.h"
 #include "irnode_t.h"
 #include "iroptimize.h"
@@ -739,6 +740,10 @@ void opt_bool(ir_graph *const irg)
 
 	env.changed = 0;
 
+	/* Block fusion needs Id nodes and unused new nodes must not stay in the
+	 * out edges. */
+	edges_deactivate(irg);
+
 	/* optimize simple Andb and Orb cases */
 	irg_walk_graph(irg, NULL, bool_walk, &env);
 
-- 
2.43.0


From 0059e8e5019207cd22b731185823fa8c5660a565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 048/113] fix: loop inversion required that new control flow is
 never folded

---
 ir/opt/loop.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ir/opt/loop.c b/ir/opt/loop.c
index a5247c7..53c6764 100644
--- a/ir/opt/loop.c
+++ b/ir/opt/loop.c
@@ -367,8 +367,9 @@ static ir_node *search_def_and_create_phis(ir_node *const block, ir_mode *const
 	/* set Phi predecessors */
 	for (int i = 0; i < n_cfgpreds; ++i) {
 		ir_node *const pred_block = get_Block_cfgpred_block(block, i);
-		assert(pred_block != NULL);
-		ir_node *const pred_val = search_def_and_create_phis(pred_block, mode, 0);
+		/* Folding of new control flow may have left a Bad here. */
+		ir_node *const pred_val = pred_block == NULL ? new_r_Bad(irg, mode)
+			: search_def_and_create_phis(pred_block, mode, 0);
 
 		assert(pred_val != NULL);
 
-- 
2.43.0


From bcf81ea9a88f13cbf605f937150cd0d7eb8a5d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 049/113] fix: combo kept memory Phis without marking them as
 loop Phis

---
 ir/opt/combo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ir/opt/combo.c b/ir/opt/combo.c
index b8268d4..3f7876d 100644
--- a/ir/opt/combo.c
+++ b/ir/opt/combo.c
@@ -3191,6 +3191,7 @@ static void add_memory_keeps(ir_graph *irg, ir_node **kept_memory, size_t len)
 		if (!is_Phi(ka))
 			continue;
 		if (!ir_nodeset_contains(&set, ka)) {
+			set_Phi_loop(ka, true);
 			add_End_keepalive(end, ka);
 		}
 	}
-- 
2.43.0


From 07c76637eebe0a0a97abfe8d977cbb6af6a67b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 050/113] fix: local_optimize_graph kept NO_TUPLES after
 folding nodes to Tuples

---
 ir/opt/irgopt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ir/opt/irgopt.c b/ir/opt/irgopt.c
index f8ee0af..8b3f697 100644
--- a/ir/opt/irgopt.c
+++ b/ir/opt/irgopt.c
@@ -124,8 +124,9 @@ static void find_unreachable_blocks(ir_node *block, void *env)
 void local_optimize_graph(ir_graph *irg)
 {
 	local_optimize_node(get_irg_end(irg));
-	/* folded branches leave unreachable blocks */
-	clear_irg_properties(irg, IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE);
+	/* folded nodes leave unreachable blocks and Tuples */
+	clear_irg_properties(irg, IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE
+	                        | IR_GRAPH_PROPERTY_NO_TUPLES);
 
 	/* The out edges still contain the nodes, that were just optimized away. */
 	if (edges_activated(irg)) {
-- 
2.43.0


From 32d9a03edd5b3f7fe7c33f5fce486a05cf5d0fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 051/113] fix: (a % c1) % c2 took the memory of the inner Mod

---
 ir/opt/iropt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index d9d4ea3..ad26256 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -4070,7 +4070,7 @@ static ir_node *transform_node_Mod(ir_node *n)
 						ir_node  *mod_a  = get_Mod_left(mod);
 						dbg_info *dbgi   = get_irn_dbg_info(n);
 						ir_node  *block  = get_nodes_block(n);
-						ir_node  *mem    = get_Mod_mem(mod);
+						ir_node  *mem    = get_Mod_mem(n);
 						int       pinned = get_irn_pinned(n);
 						return new_rd_Mod(dbgi, block, mem, mod_a, b, pinned);
 					}
-- 
2.43.0


From 7e9a6878d6533ca918baee18e54d30c8313fb62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 052/113] fix: osr multiplied both sides of a loop test by zero

---
 ir/opt/opt_osr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/opt/opt_osr.c b/ir/opt/opt_osr.c
index 70ad119..635b1b7 100644
--- a/ir/opt/opt_osr.c
+++ b/ir/opt/opt_osr.c
@@ -979,6 +979,10 @@ static void assign_po(ir_node *block, void *ctx)
 static ir_node *apply_one_edge(ir_node *iv, ir_node *rc, ldtr_edge_t *e,
                                iv_env *env)
 {
+	/* multiplying by zero makes both sides of the comparison equal */
+	if (e->code == iro_Mul && is_Const(e->rc) && is_Const_null(e->rc))
+		return NULL;
+
 	if (env->osr_flags & osr_flag_lftr_with_ov_check) {
 		if (!is_counter_iv(iv, env)) {
 			DB((dbg, LEVEL_4, " not counter IV"));
-- 
2.43.0


From fea549ca13d2094cf27c0a38a5b99ca82e6bd94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 053/113] fix: reassoc treated a product of two constants as
 scalar multiplication and lost it

---
 ir/opt/reassoc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/opt/reassoc.c b/ir/opt/reassoc.c
index e7f62e9..c1ff7e8 100644
--- a/ir/opt/reassoc.c
+++ b/ir/opt/reassoc.c
@@ -1077,7 +1077,7 @@ static void destroy_multi_op(multi_op *o)
  */
 static bool is_scalar_Mul(ir_node *node)
 {
-	return is_Mul(node) && (is_Const(get_Mul_left(node)) || is_Const(get_Mul_right(node)));
+	return is_Mul(node) && is_Const(get_Mul_left(node)) != is_Const(get_Mul_right(node));
 }
 
 /**
-- 
2.43.0


From 9eb8f70f1070c99374165e630cd27f745f1179d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 054/113] fix: scalar replacement mixed up access paths which
 skip a level

---
 ir/opt/scalar_replace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/opt/scalar_replace.c b/ir/opt/scalar_replace.c
index 3678f40..63fa06f 100644
--- a/ir/opt/scalar_replace.c
+++ b/ir/opt/scalar_replace.c
@@ -189,6 +189,10 @@ bool is_address_taken(ir_node *node)
 			/* we can't handle unions correctly yet -> address taken */
 			if (is_Union_type(get_entity_owner(entity)))
 				return true;
+			/* The paths of different accesses can only be compared, when they
+			 * consist of the members of the accessed type. */
+			if (get_entity_owner(entity) != get_addr_type(node))
+				return true;
 		}
 
 			/* FALLTHROUGH */
-- 
2.43.0


From 8e05240399c7aa6f47e77562c738ed3592a22edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:30 +0000
Subject: [PATCH 055/113] fix: pointer additions were treated as bit operations
 on operands of the same mode

---
 ir/opt/iropt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index ad26256..d38f0c2 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -58,6 +58,9 @@ static bool is_Or_Eor_Add(const ir_node *node)
 	if (is_Or(node) || is_Eor(node) || is_Add(node)) {
 		const ir_node *const left  = get_binop_left(node);
 		const ir_node *const right = get_binop_right(node);
+		/* the operands of a pointer addition have different modes */
+		if (get_irn_mode(left) != get_irn_mode(right))
+			return false;
 		const bitinfo *const bl    = get_bitinfo(left);
 		const bitinfo *const br    = get_bitinfo(right);
 		/* if each bit is guaranteed to be zero on either the left or right
@@ -84,6 +87,9 @@ static bool is_Eor_Add(const ir_node *node)
 
 	const ir_node *const left        = get_binop_left(node);
 	const ir_node *const right       = get_binop_right(node);
+	/* the operands of a pointer addition have different modes */
+	if (get_irn_mode(left) != get_irn_mode(right))
+		return false;
 	const bitinfo *const bl          = get_bitinfo(left);
 	const bitinfo *const br          = get_bitinfo(right);
 	const int            highest_bit = (int)get_mode_size_bits(mode) - 1;
-- 
2.43.0


From 78b043d5aa14033dd52f8df284c2ee47d28d25e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:30 +0000
Subject: [PATCH 056/113] fix: local_optimize_graph kept NO_BADS after folding
 nodes

---
 ir/opt/irgopt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ir/opt/irgopt.c b/ir/opt/irgopt.c
index 8b3f697..cad752d 100644
--- a/ir/opt/irgopt.c
+++ b/ir/opt/irgopt.c
@@ -124,8 +124,9 @@ static void find_unreachable_blocks(ir_node *block, void *env)
 void local_optimize_graph(ir_graph *irg)
 {
 	local_optimize_node(get_irg_end(irg));
-	/* folded nodes leave unreachable blocks and Tuples */
+	/* folded nodes leave unreachable blocks, Bads and Tuples */
 	clear_irg_properties(irg, IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE
+	                        | IR_GRAPH_PROPERTY_NO_BADS
 	                        | IR_GRAPH_PROPERTY_NO_TUPLES);
 
 	/* The out edges still contain the nodes, that were just optimized away. */
-- 
2.43.0


From 7a8741b2140a0573b4a7060ac692101447324127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 057/113] fix: constants were reassociated in floating point
 operations

---
 ir/opt/iropt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index d38f0c2..c42dbc2 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -2530,6 +2530,10 @@ static ir_node *transform_node_bitop_shift(ir_node *n)
  */
 static ir_node *fold_constant_associativity(ir_node *node, tarval_binop fold)
 {
+	/* floating point operations are not associative */
+	if (mode_is_float(get_irn_mode(node)) && !ir_imprecise_float_transforms_allowed())
+		return node;
+
 	const ir_node *right = get_binop_right(node);
 	if (!is_Const(right))
 		return node;
-- 
2.43.0


From 151c2dbc13dfdf17b550d5e1dcc6c62bed2feb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 058/113] fix: gvn-pre moved loads and stores across stores

---
 ir/opt/gvn_pre.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ir/opt/gvn_pre.c b/ir/opt/gvn_pre.c
index bfcd4ea..0d10fc9 100644
--- a/ir/opt/gvn_pre.c
+++ b/ir/opt/gvn_pre.c
@@ -834,12 +834,10 @@ static ir_node *phi_translate(ir_node *node, ir_node *block, int pos, ir_valuese
 				/* If we do not translate this node, we will get its value wrong. */
 				needed |= 1;
 
-				if (is_Load(loadstore)) {
+				if (is_Load(loadstore) && !is_Store(node)) {
 					/* Put new load under the adjacent loads memory edge
 					   such that GVN may compare them. */
 					new_pred = get_Load_mem(loadstore);
-				} else if (is_Store(loadstore)) {
-					new_pred = get_Store_mem(loadstore);
 				}
 #endif
 			} else {
@@ -856,6 +854,18 @@ static ir_node *phi_translate(ir_node *node, ir_node *block, int pos, ir_valuese
 	if (!needed)
 		return node;
 
+#if LOADS
+	/* Only a repetition of the same store may skip an adjacent store. */
+	if (is_Store(node) && is_Proj(in[n_Store_mem])) {
+		ir_node *const store = get_Proj_pred(in[n_Store_mem]);
+		if (is_Store(store) &&
+		    in[n_Store_ptr]   == get_Store_ptr(store) &&
+		    in[n_Store_value] == get_Store_value(store)) {
+			in[n_Store_mem] = get_Store_mem(store);
+		}
+	}
+#endif
+
 	DB((dbg, LEVEL_3, "Translate\n"));
 
 	if (is_Proj(node))
-- 
2.43.0


From 97a4987c181e9e6158ecf2fd1aeed6ccd15d25c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 059/113] fix: accesses to arrays of compounds were classified
 as accesses to primitive objects

---
 ir/ana/irmemory.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ir/ana/irmemory.c b/ir/ana/irmemory.c
index 3e954be..9102993 100644
--- a/ir/ana/irmemory.c
+++ b/ir/ana/irmemory.c
@@ -232,8 +232,8 @@ analyze_entity:
 	if (!(get_entity_usage(entity) & ir_usage_address_taken))
 		res |= ir_sc_modifier_nottaken;
 	const ir_type *type = get_entity_type(entity);
-	res |= is_compound_type(type) ? ir_sc_modifier_obj_comp
-	                              : ir_sc_modifier_obj_prim;
+	res |= is_aggregate_type(type) ? ir_sc_modifier_obj_comp
+	                               : ir_sc_modifier_obj_prim;
 	return res;
 }
 
-- 
2.43.0


From e620994ffa21f5e4f5f3b7299ba34f4a89e08470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:30 +0000
Subject: [PATCH 060/113] fix: loop unrolling repeated forever when the exit of
 a loop was not found

---
 ir/opt/loop_unrolling.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ir/opt/loop_unrolling.c b/ir/opt/loop_unrolling.c
index cee13ee..efe332f 100644
--- a/ir/opt/loop_unrolling.c
+++ b/ir/opt/loop_unrolling.c
@@ -498,7 +498,10 @@ static bool can_skip_header(ir_node *const header)
 	return true;
 }
 
-static void rewire_fully_unrolled(ir_loop *const loop, ir_node *header) {
+/**
+ * Returns true if the loop was removed.
+ */
+static bool rewire_fully_unrolled(ir_loop *const loop, ir_node *header) {
 	int n_header_preds = get_irn_arity(header);
 
 	ir_node *after_loop = NULL;
@@ -522,7 +525,7 @@ static void rewire_fully_unrolled(ir_loop *const loop, ir_node *header) {
 	}
 
 	if (after_loop == NULL) {
-		return;
+		return false;
 	}
 
 	for (int i = 0; i < n_header_preds; i++) {
@@ -587,6 +590,7 @@ static void rewire_fully_unrolled(ir_loop *const loop, ir_node *header) {
 	}
 
 	DB((dbg, LEVEL_2, "fully unrolled %+F\n", loop));
+	return true;
 }
 
 static unsigned n_loops_unrolled = 0;
@@ -650,7 +654,7 @@ static bool unroll_loop(ir_loop *const loop, unsigned factor)
 
 	// fully unroll: remove control flow loop
 	if (fully_unroll) {
-		rewire_fully_unrolled(loop, header);
+		fully_unroll = rewire_fully_unrolled(loop, header);
 	}
 	pset_new_destroy(&loop_blocks);
 	return fully_unroll;
-- 
2.43.0


From 181cba559e442963a12bef948bad6d040811941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:30 +0000
Subject: [PATCH 061/113] fix: remove_bads kept the out edges consistent
 property after removing keep alives

---
 ir/opt/rm_bads.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ir/opt/rm_bads.c b/ir/opt/rm_bads.c
index d5d0ebf..14b03cb 100644
--- a/ir/opt/rm_bads.c
+++ b/ir/opt/rm_bads.c
@@ -120,9 +120,11 @@ void remove_bads(ir_graph *irg)
 	DEL_ARR_F(blocks_to_process);
 	ir_free_resources(irg, IR_RESOURCE_PHI_LIST);
 
-	remove_End_Bads_and_doublets(get_irg_end(irg));
+	ir_node *const end     = get_irg_end(irg);
+	int      const n_keeps = get_End_n_keepalives(end);
+	remove_End_Bads_and_doublets(end);
 
-	if (n_to_process > 0) {
+	if (n_to_process > 0 || get_End_n_keepalives(end) != n_keeps) {
 		confirm_irg_properties(irg,
 			IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE
 			| IR_GRAPH_PROPERTY_NO_TUPLES
-- 
2.43.0


From 2eb000a7f3ee770408e6de4418873b9799e5217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:38 +0000
Subject: [PATCH 062/113] fix: jumpthreading removed the exit of a loop without
 keeping the loop alive

---
 ir/opt/jumpthreading.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ir/opt/jumpthreading.c b/ir/opt/jumpthreading.c
index 34578d4..91c57b9 100644
--- a/ir/opt/jumpthreading.c
+++ b/ir/opt/jumpthreading.c
@@ -592,6 +592,8 @@ static void thread_jumps(ir_node* block, void* data)
 			[pn_Cond_true]  = is_true ? jmp : bad,
 		};
 		turn_into_tuple(cond, ARRAY_SIZE(in), in);
+		/* We might remove the exit of a loop. */
+		keep_alive(cond_block);
 		*changed = true;
 		return;
 	}
-- 
2.43.0


From 4773e2e22ca311fab1184bf6817cc54108a66627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:38 +0000
Subject: [PATCH 063/113] fix: reassoc mixed up the operands of an Eor of two
 constants

---
 ir/opt/reassoc.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ir/opt/reassoc.c b/ir/opt/reassoc.c
index c1ff7e8..375cb1a 100644
--- a/ir/opt/reassoc.c
+++ b/ir/opt/reassoc.c
@@ -758,11 +758,12 @@ static ir_tarval *get_Eor_tarval(ir_node *node)
 	ir_node *l = get_Eor_left(node);
 	ir_node *r = get_Eor_right(node);
 
-	if (is_Const(l))
-		return get_Const_tarval(l);
+	/* same preference as in get_topnode_from_middlenode() */
+	if (is_Const(r))
+		return get_Const_tarval(r);
 
-	assert(is_Const(r));
-	return get_Const_tarval(r);
+	assert(is_Const(l));
+	return get_Const_tarval(l);
 }
 
 /**
-- 
2.43.0


From b5c01313f507a528c70634630abec687d37567fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:38 +0000
Subject: [PATCH 064/113] fix: the negation of floating point sums lost the
 sign of zero

---
 ir/opt/iropt.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index c42dbc2..21f4db8 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -3646,9 +3646,12 @@ static ir_node *can_negate_cheaply(dbg_info *const dbgi, ir_node *const node)
 	/* -(-X) => X */
 	if (is_Minus(node))
 		return get_Minus_op(node);
+	/* The negation of a sum, which is zero, has a different sign than the
+	 * sum of the negated values. */
+	ir_mode   *mode      = get_irn_mode(node);
+	bool const imprecise = mode_is_float(mode) && !ir_imprecise_float_transforms_allowed();
 	/* -(a-b) => b-a */
-	ir_mode  *mode  = get_irn_mode(node);
-	if (is_Sub(node)) {
+	if (is_Sub(node) && !imprecise) {
 		ir_node  *block = get_nodes_block(node);
 		ir_node  *left  = get_Sub_left(node);
 		ir_node  *right = get_Sub_right(node);
@@ -3668,7 +3671,7 @@ static ir_node *can_negate_cheaply(dbg_info *const dbgi, ir_node *const node)
 		}
 	}
 	/* -(a + C) => -C - a */
-	if (is_Add(node)) {
+	if (is_Add(node) && !imprecise) {
 		ir_node *right = get_Add_right(node);
 		if (is_Const(right)) {
 			ir_node   *left  = get_Add_left(node);
@@ -4710,7 +4713,8 @@ static ir_node *transform_node_Minus(ir_node *n)
 	if (negated_op != NULL)
 		return negated_op;
 
-	if (is_Add(op) && only_one_user(op)) {
+	if (is_Add(op) && only_one_user(op)
+	    && (!mode_is_float(get_irn_mode(n)) || ir_imprecise_float_transforms_allowed())) {
 		ir_node  *l         = get_Add_left(op);
 		ir_node  *r         = get_Add_right(op);
 		ir_node  *negated_l = can_negate_cheaply(NULL, l);
-- 
2.43.0


From c2cc40b02f1315d48467b48c905c1c4384c7b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:38 +0000
Subject: [PATCH 065/113] fix: the truncation before a conversion to floating
 point was dropped

---
 ir/opt/iropt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 21f4db8..2a03a76 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -6386,6 +6386,9 @@ bool may_leave_out_middle_conv(ir_mode *m0, ir_mode *m1, ir_mode *m2)
 	unsigned size2 = get_significand_size(m2);
 	if (n_floats == 1 && mode_is_float(m0) && size2 < size1)
 		return false;
+	/* only the truncation to the middle mode wraps around */
+	if (n_floats == 1 && mode_is_float(m2) && size1 < size0)
+		return false;
 	if (size1 < size2 && size0 >= size1)
 		return false;
 	if (size1 >= size2)
-- 
2.43.0


From 63afde17f5ff805658e1680d4920fa8836d6b0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:13 +0000
Subject: [PATCH 066/113] fix: sets compared elements with stale hash values,
 so what was found depended on addresses

---
 ir/adt/set.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ir/adt/set.c b/ir/adt/set.c
index 7af226a..6d87b99 100644
--- a/ir/adt/set.c
+++ b/ir/adt/set.c
@@ -271,7 +271,7 @@ void *MANGLE(_,_search)(SET *table, void const *key,
 
 	/* Follow collision chain */
 	MANGLEP(cmp_fun) cmp = table->cmp;
-	while (q && !EQUAL(cmp, q, key, size)) {
+	while (q && (q->entry.hash != hash || !EQUAL(cmp, q, key, size))) {
 		q = q->chain;
 	}
 
@@ -337,7 +337,7 @@ void *pset_remove(SET *table, void const *key, unsigned hash)
 
 	/* Follow collision chain */
 	pset_cmp_fun cmp = table->cmp;
-	while (!EQUAL(cmp, *p, key, size)) {
+	while ((*p)->entry.hash != hash || !EQUAL(cmp, *p, key, size)) {
 		p = &(*p)->chain;
 		assert(*p);
 	}
-- 
2.43.0


From f9b5ade7560bf68e62243030f0d50f04aca827c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:25 +0000
Subject: [PATCH 067/113] fix: reassociation visited operands in address order,
 and lost operands that became the same node

---
 ir/opt/reassoc.c | 162 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 114 insertions(+), 48 deletions(-)

diff --git a/ir/opt/reassoc.c b/ir/opt/reassoc.c
index 375cb1a..1c4385b 100644
--- a/ir/opt/reassoc.c
+++ b/ir/opt/reassoc.c
@@ -10,6 +10,7 @@
  */
 #include "reassoc_t.h"
 
+#include "array.h"
 #include "debug.h"
 #include "ircons_t.h"
 #include "iredges_t.h"
@@ -30,6 +31,7 @@
 #include "panic.h"
 #include "pdeq.h"
 #include "unionfind.h"
+#include "util.h"
 
 DEBUG_ONLY(static firm_dbg_module_t *dbg;)
 
@@ -980,6 +982,7 @@ static void walk_equality(ir_node *node)
 
 typedef struct {
 	ir_node *base_node;      /**< Root node of the multiset */
+	unsigned idx;            /**< Index of the original root node */
 	pset    *operands;       /**< Non-constant operands of the multiop */
 	pset    *nodes;          /**< Nodes that belong to the multiop */
 	pmap    *multiplier;     /**< Maps each node to its multiplier,
@@ -1010,6 +1013,7 @@ static multi_op *new_multi_op(multi_op_env *multi_env, ir_node *base_node)
 	data->multi_operands = pset_new_ptr_default();
 	data->multi_users    = pset_new_ptr_default();
 	data->base_node      = base_node;
+	data->idx            = get_irn_idx(base_node);
 	data->other_op       = false;
 	data->changed        = false;
 	data->multiplier     = pmap_create();
@@ -1690,6 +1694,71 @@ static ir_node *rebuild_node(multi_op *o, ir_node *curr, ir_node *node)
 	}
 }
 
+static int cmp_nodes_idx(const void *a, const void *b)
+{
+	unsigned const idx_a = get_irn_idx(*(ir_node *const*)a);
+	unsigned const idx_b = get_irn_idx(*(ir_node *const*)b);
+	return QSORT_CMP(idx_a, idx_b);
+}
+
+/**
+ * Returns the nodes of a set in a flexible array.  The nodes are ordered by
+ * index, so that the result does not depend on the addresses of the nodes.
+ */
+static ir_node **get_sorted_nodes(pset *set)
+{
+	ir_node **nodes = NEW_ARR_F(ir_node*, 0);
+	foreach_pset(set, ir_node, node) {
+		ARR_APP1(ir_node*, nodes, node);
+	}
+	QSORT_ARR(nodes, cmp_nodes_idx);
+	return nodes;
+}
+
+static int cmp_multi_ops_idx(const void *a, const void *b)
+{
+	multi_op const *const op_a = *(multi_op *const*)a;
+	multi_op const *const op_b = *(multi_op *const*)b;
+	return QSORT_CMP(op_a->idx, op_b->idx);
+}
+
+/**
+ * Returns the multi_ops of a set in a flexible array ordered by the index of
+ * their original base node.
+ */
+static multi_op **get_sorted_multi_ops(pset *set)
+{
+	multi_op **ops = NEW_ARR_F(multi_op*, 0);
+	foreach_pset(set, multi_op, o) {
+		ARR_APP1(multi_op*, ops, o);
+	}
+	QSORT_ARR(ops, cmp_multi_ops_idx);
+	return ops;
+}
+
+/**
+ * Collects the operand node with multiplier val in dic.
+ *
+ * @param dic   maps a multiplier to the flexible array of its nodes
+ * @param vals  flexible array, gets the multipliers in the order in which they
+ *              are entered into dic
+ */
+static void collect_polynom_operand(pmap *dic, ir_tarval ***vals, ir_tarval *val, ir_node *node)
+{
+	assert(val);
+	if (tarval_is_null(val))
+		return;
+
+	ir_node **nodes = pmap_get(ir_node*, dic, val);
+	if (!nodes) {
+		nodes = NEW_ARR_F(ir_node*, 0);
+		ARR_APP1(ir_tarval*, *vals, val);
+	}
+
+	ARR_APP1(ir_node*, nodes, node);
+	pmap_insert(dic, val, nodes);
+}
+
 /**
  * Rebuild the graph according to the multi_ops. Only sets with change flag set, will bereplaced.
  */
@@ -1697,7 +1766,9 @@ static void rebuild(multi_op_env *multi_env)
 {
 	DBG((dbg, LEVEL_5, "rebuilding...\n"));
 
-	foreach_pset(multi_env->sets, multi_op, o) {
+	multi_op **const sets = get_sorted_multi_ops(multi_env->sets);
+	for (size_t s = 0, n_sets = ARR_LEN(sets); s != n_sets; ++s) {
+		multi_op *const o = sets[s];
 		if (!o->changed) {
 			continue;
 		}
@@ -1708,14 +1779,18 @@ static void rebuild(multi_op_env *multi_env)
 		dbg_info *dbgi  = get_irn_dbg_info(o->base_node);
 		ir_node  *curr  = NULL;
 
+		multi_op **const multi_operands = get_sorted_multi_ops(o->multi_operands);
+		ir_node  **const operands       = get_sorted_nodes(o->operands);
 
 		if (get_multi_op_op(o) == op_Add) {
 			/* rebuild polynoms */
-			pmap    *dic     = pmap_create();
-			ir_node *pointer = NULL;
+			pmap       *dic     = pmap_create();
+			ir_tarval **vals    = NEW_ARR_F(ir_tarval*, 0);
+			ir_node    *pointer = NULL;
 
-			foreach_pset(o->multi_operands, multi_op, operand) {
-				ir_node *node = operand->base_node;
+			for (size_t i = 0, n = ARR_LEN(multi_operands); i != n; ++i) {
+				multi_op *const operand = multi_operands[i];
+				ir_node  *const node    = operand->base_node;
 
 				/* In each Add-Set there should be at most one pointer.
 				 * If that's the case it have to be topmost. */
@@ -1726,18 +1801,10 @@ static void rebuild(multi_op_env *multi_env)
 				}
 
 				ir_tarval *val = pmap_get(ir_tarval, o->multiplier, operand);
-				assert(val);
-				if (!tarval_is_null(val)) {
-					pset *dic_set = pmap_get(pset, dic, val);
-					if (!dic_set) {
-						dic_set = pset_new_ptr_default();
-						pmap_insert(dic, val, dic_set);
-					}
-
-					pset_insert_ptr(dic_set, node);
-				}
+				collect_polynom_operand(dic, &vals, val, node);
 			}
-			foreach_pset(o->operands, ir_node, node) {
+			for (size_t i = 0, n = ARR_LEN(operands); i != n; ++i) {
+				ir_node *const node = operands[i];
 				/* In each Add-Set there should be at most one pointer.
 				 * If that's the case it have to be topmost. */
 				if (mode_is_reference(get_irn_mode(node))) {
@@ -1747,16 +1814,7 @@ static void rebuild(multi_op_env *multi_env)
 				}
 
 				ir_tarval *val = pmap_get(ir_tarval, o->multiplier, node);
-				assert(val);
-				if (!tarval_is_null(val)) {
-					pset *dic_set = pmap_get(pset, dic, val);
-					if (!dic_set) {
-						dic_set = pset_new_ptr_default();
-						pmap_insert(dic, val, dic_set);
-					}
-
-					pset_insert_ptr(dic_set, node);
-				}
+				collect_polynom_operand(dic, &vals, val, node);
 			}
 
 			curr = pointer;
@@ -1764,8 +1822,8 @@ static void rebuild(multi_op_env *multi_env)
 			deq_t negatives;
 			deq_init(&negatives);
 
-			foreach_pmap(dic, entry) {
-				ir_tarval *curr_val = (ir_tarval *)entry->key;
+			for (size_t v = 0, n_vals = ARR_LEN(vals); v != n_vals; ++v) {
+				ir_tarval *curr_val = vals[v];
 
 				if (pset_find_ptr(done, curr_val)) {
 					continue;
@@ -1788,19 +1846,20 @@ static void rebuild(multi_op_env *multi_env)
 						positiv_val = neg_val;
 					}
 
-					pset *negativ_set = NULL;
+					ir_node **negativ_nodes = NULL;
 					if (!is_max_val && mode_is_signed(get_irn_mode(o->base_node))) {
-						negativ_set = pmap_get(pset, dic, negativ_val);
+						negativ_nodes = pmap_get(ir_node*, dic, negativ_val);
 					}
-					pset *positiv_set = pmap_get(pset, dic, positiv_val);
-					assert(positiv_set);
+					ir_node **positiv_nodes = pmap_get(ir_node*, dic, positiv_val);
+					assert(positiv_nodes);
 
 					ir_node *inner = NULL;
 					bool is_one = tarval_is_one(positiv_val);
 					if (curr && is_one) {
 						inner = curr;
 					}
-					foreach_pset(positiv_set, ir_node, node) {
+					for (size_t i = 0, n = ARR_LEN(positiv_nodes); i != n; ++i) {
+						ir_node *const node = positiv_nodes[i];
 						if (!inner) {
 							inner = node;
 						} else {
@@ -1808,9 +1867,9 @@ static void rebuild(multi_op_env *multi_env)
 						}
 					}
 					assert(inner);
-					if (negativ_set) {
-						foreach_pset(negativ_set, ir_node, node) {
-							inner = new_rd_Sub(dbgi, block, inner, node);
+					if (negativ_nodes) {
+						for (size_t i = 0, n = ARR_LEN(negativ_nodes); i != n; ++i) {
+							inner = new_rd_Sub(dbgi, block, inner, negativ_nodes[i]);
 						}
 					}
 
@@ -1826,7 +1885,7 @@ static void rebuild(multi_op_env *multi_env)
 					}
 
 					pset_insert_ptr(done, positiv_val);
-					if (negativ_set) {
+					if (negativ_nodes) {
 						pset_insert_ptr(done, negativ_val);
 					}
 				} else {
@@ -1838,11 +1897,12 @@ static void rebuild(multi_op_env *multi_env)
 			deq_foreach_pointer(&negatives, ir_tarval, negativ_val) {
 				assert(tarval_is_negative(negativ_val));
 
-				pset *negativ_set = pmap_get(pset, dic, negativ_val);
-				assert(negativ_set);
+				ir_node **negativ_nodes = pmap_get(ir_node*, dic, negativ_val);
+				assert(negativ_nodes);
 
 				ir_node *inner = NULL;
-				foreach_pset(negativ_set, ir_node, node) {
+				for (size_t i = 0, n = ARR_LEN(negativ_nodes); i != n; ++i) {
+					ir_node *const node = negativ_nodes[i];
 					if (!inner) {
 						inner = node;
 					} else {
@@ -1866,21 +1926,23 @@ static void rebuild(multi_op_env *multi_env)
 
 			deq_free(&negatives);
 			del_pset(done);
+			DEL_ARR_F(vals);
 			foreach_pmap(dic, entry) {
-				pset *dic_set = (pset *)entry->value;
-				del_pset(dic_set);
+				ir_node **nodes = (ir_node**)entry->value;
+				DEL_ARR_F(nodes);
 			}
 			pmap_destroy(dic);
 		} else {
 			/* rebuild other sets */
-			foreach_pset(o->multi_operands, multi_op, operand) {
-				ir_node *node = operand->base_node;
-				curr = rebuild_node(o, curr, node);
+			for (size_t i = 0, n = ARR_LEN(multi_operands); i != n; ++i) {
+				curr = rebuild_node(o, curr, multi_operands[i]->base_node);
 			}
-			foreach_pset(o->operands, ir_node, node) {
-				curr = rebuild_node(o, curr, node);
+			for (size_t i = 0, n = ARR_LEN(operands); i != n; ++i) {
+				curr = rebuild_node(o, curr, operands[i]);
 			}
 		}
+		DEL_ARR_F(multi_operands);
+		DEL_ARR_F(operands);
 
 		if (!curr) {
 			ir_node  *base      = o->base_node;
@@ -1897,6 +1959,7 @@ static void rebuild(multi_op_env *multi_env)
 			o->base_node = curr;
 		}
 	}
+	DEL_ARR_F(sets);
 }
 
 /**
@@ -1918,10 +1981,13 @@ static void do_Setsort(ir_graph *irg)
 
 	deq_t queue;
 	deq_init(&queue);
-	foreach_pset(multi_env->sets, multi_op, o) {
+	multi_op **const sets = get_sorted_multi_ops(multi_env->sets);
+	for (size_t i = 0, n = ARR_LEN(sets); i != n; ++i) {
+		multi_op *const o = sets[i];
 		assert(is_supported_node(o->base_node));
 		deq_push_pointer_left(&queue, o);
 	}
+	DEL_ARR_F(sets);
 
 	deq_foreach_pointer(&queue, multi_op, o) {
 		/* Merge sets with only one user */
-- 
2.43.0


From b25be11f2bc54fc1e36d5b1fff991d9eaa45e4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:44 +0000
Subject: [PATCH 068/113] fix: the time of an emitted statistics event was
 added twice to the surrounding timer

---
 ir/stat/statev.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ir/stat/statev.c b/ir/stat/statev.c
index cfbd8e1..df883b9 100644
--- a/ir/stat/statev.c
+++ b/ir/stat/statev.c
@@ -88,16 +88,16 @@ void stat_ev_tim_pop(const char *name)
 	timing_ticks_t temp = timing_ticks();
 	temp -= stat_ev_timer_start[sp];
 	stat_ev_timer_elapsed[sp] += temp;
+	/* Emitting the event pushes and pops a timer itself: read the result and
+	 * let the surrounding timer continue before that. */
+	timing_ticks_t elapsed = stat_ev_timer_elapsed[sp];
+	if (sp != 0)
+		stat_ev_timer_start[sp-1] = timing_ticks();
 	if (name != NULL && stat_ev_enabled)
-		stat_ev_ull(name, stat_ev_timer_elapsed[sp]);
+		stat_ev_ull(name, elapsed);
 
-	if (sp == 0) {
-		if (stat_ev_enabled) {
-			timing_leave_max_prio();
-		}
-	} else {
-		stat_ev_timer_start[sp-1] = timing_ticks();
-	}
+	if (sp == 0 && stat_ev_enabled)
+		timing_leave_max_prio();
 }
 
 void do_stat_ev_ctx_push_vfmt(const char *key, const char *fmt, va_list ap)
-- 
2.43.0


From 5bef20e9ce3d8abdbb6bedda21fb0201f884b62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:44 +0000
Subject: [PATCH 069/113] fix: processor affinity stayed changed when setting
 the scheduling policy failed

---
 ir/stat/stat_timing.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ir/stat/stat_timing.c b/ir/stat/stat_timing.c
index 4afbd69..960ae61 100644
--- a/ir/stat/stat_timing.c
+++ b/ir/stat/stat_timing.c
@@ -65,8 +65,11 @@ void timing_enter_max_prio(void)
 	new_sched_params = sched_params;
 	new_sched_params.sched_priority = sched_get_priority_max(new_scheduler);
 	res = sched_setscheduler(0, new_scheduler, &new_sched_params);
-	if (res < 0)
+	if (res < 0) {
+		/* do not stay bound to one processor */
+		sched_setaffinity(0, sizeof(affinity), &affinity);
 		return;
+	}
 
 	in_max_prio = 1;
 }
-- 
2.43.0


From 059d646b273d3f0b29e1020215025c488712351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:29 +0000
Subject: [PATCH 070/113] fix: dumping the loop tree took the n-th element for
 the n-th inner loop

---
 ir/ir/irdump.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/ir/ir/irdump.c b/ir/ir/irdump.c
index 092d062..05bc0af 100644
--- a/ir/ir/irdump.c
+++ b/ir/ir/irdump.c
@@ -1551,24 +1551,24 @@ static void dump_loop_node(FILE *F, const ir_loop *loop)
 	fprintf(F, "}\n");
 }
 
-static void dump_loop_node_edge(FILE *F, const ir_loop *loop, size_t i)
+static void dump_loop_node_edge(FILE *F, const ir_loop *loop, const ir_node *node)
 {
 	assert(loop);
 	fprintf(F, "edge: {sourcename: ");
 	print_loopid(F, loop);
 	fprintf(F, " targetname: ");
-	print_nodeid(F, get_loop_element(loop, i).node);
+	print_nodeid(F, node);
 	fprintf(F, " color: green");
 	fprintf(F, "}\n");
 }
 
-static void dump_loop_son_edge(FILE *F, const ir_loop *loop, size_t i)
+static void dump_loop_son_edge(FILE *F, const ir_loop *loop, const ir_loop *son, size_t i)
 {
 	assert(loop);
 	fprintf(F, "edge: {sourcename: ");
 	print_loopid(F, loop);
 	fprintf(F, " targetname: ");
-	print_loopid(F, get_loop_element(loop, i).son);
+	print_loopid(F, son);
 	ir_fprintf(F, " color: darkgreen label: \"%zu\"}\n", i);
 }
 
@@ -1585,7 +1585,7 @@ static void dump_loops(FILE *F, const ir_loop *loop)
 			element = get_loop_element(loop, i);
 			if (*element.kind != k_ir_node)
 				continue;
-			dump_loop_node_edge(F, loop, i);
+			dump_loop_node_edge(F, loop, element.node);
 		}
 	}
 	for (size_t i = n_elements; i-- > 0;) {
@@ -1594,7 +1594,7 @@ static void dump_loops(FILE *F, const ir_loop *loop)
 		if (*element.kind != k_ir_loop)
 			continue;
 		dump_loops(F, element.son);
-		dump_loop_son_edge(F, loop, i);
+		dump_loop_son_edge(F, loop, element.son, i);
 	}
 }
 
@@ -1879,7 +1879,7 @@ static void dump_loops_standalone(FILE *F, ir_loop *loop)
 				        (unsigned long) i-1);
 				loop_node_started = false;
 			}
-			dump_loop_son_edge(F, loop, son_number++);
+			dump_loop_son_edge(F, loop, son, son_number++);
 			dump_loops_standalone(F, son);
 		} else if (get_kind(son) == k_ir_node) {
 			/* We are a loop node -> Collect firm nodes */
@@ -1957,17 +1957,16 @@ static void collect_nodeloop(FILE *F, ir_loop *loop, pset *loopnodes)
 		dump_loop_node(F, loop);
 
 	int son_number = 0;
-	int node_number = 0;
 	for (size_t i = 0, n = get_loop_n_elements(loop); i < n; ++i) {
 		loop_element le = get_loop_element(loop, i);
 		if (*(le.kind) == k_ir_loop) {
 			if (flags & ir_dump_flag_loops)
-				dump_loop_son_edge(F, loop, son_number++);
+				dump_loop_son_edge(F, loop, le.son, son_number++);
 			/* Recur */
 			collect_nodeloop(F, le.son, loopnodes);
 		} else {
 			if (flags & ir_dump_flag_loops)
-				dump_loop_node_edge(F, loop, node_number++);
+				dump_loop_node_edge(F, loop, le.node);
 			pset_insert_ptr(loopnodes, le.node);
 		}
 	}
-- 
2.43.0


From f8f3dcd7eb61b9797f71611a1e1c0d3b9b3497ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:29 +0000
Subject: [PATCH 071/113] fix: dumping the control flow with dominance added
 Bad nodes to the graph

---
 ir/ir/irdump.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ir/ir/irdump.c b/ir/ir/irdump.c
index 05bc0af..428388f 100644
--- a/ir/ir/irdump.c
+++ b/ir/ir/irdump.c
@@ -1780,7 +1780,7 @@ static void dump_block_to_cfg(ir_node *block, void *env)
 
 		/* Dump dominator/postdominator edge */
 		if (ir_get_dump_flags() & ir_dump_flag_dominance) {
-			if (irg_has_properties(get_irn_irg(block), IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE) && get_Block_idom(block)) {
+			if (irg_has_properties(get_irn_irg(block), IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE) && get_Block_dom_depth(block) != -1 && get_Block_idom(block)) {
 				ir_node *pred = get_Block_idom(block);
 				fprintf(F, "edge: { sourcename: ");
 				print_nodeid(F, block);
@@ -1788,7 +1788,7 @@ static void dump_block_to_cfg(ir_node *block, void *env)
 				print_nodeid(F, pred);
 				fprintf(F, " " DOMINATOR_EDGE_ATTR "}\n");
 			}
-			if (irg_has_properties(get_irn_irg(block), IR_GRAPH_PROPERTY_CONSISTENT_POSTDOMINANCE) && get_Block_ipostdom(block)) {
+			if (irg_has_properties(get_irn_irg(block), IR_GRAPH_PROPERTY_CONSISTENT_POSTDOMINANCE) && get_Block_postdom_depth(block) != -1 && get_Block_ipostdom(block)) {
 				ir_node *pred = get_Block_ipostdom(block);
 				fprintf(F, "edge: { sourcename: ");
 				print_nodeid(F, block);
-- 
2.43.0


From 286cdc772ddb166da002e2933e9f67615f0edbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:29 +0000
Subject: [PATCH 072/113] fix: dumping mips code with spill slots passed NULL
 to fputs

---
 ir/be/mips/mips_new_nodes.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ir/be/mips/mips_new_nodes.c b/ir/be/mips/mips_new_nodes.c
index 90cf8c3..334f9d7 100644
--- a/ir/be/mips/mips_new_nodes.c
+++ b/ir/be/mips/mips_new_nodes.c
@@ -62,7 +62,10 @@ static void dump_immediate(FILE *const F, char const *const prefix, ir_node cons
 		fputc(' ', F);
 		if (prefix)
 			fprintf(F, "%s(", prefix);
-		fputs(get_entity_name(imm->ent), F);
+		const char *name = get_entity_name(imm->ent);
+		if (name) {
+			fputs(name, F);
+		}
 		if (imm->val != 0)
 			fprintf(F, "%+" PRId32, imm->val);
 		if (prefix)
-- 
2.43.0


From aaa24b5fde4086ef9e498b2c9844cdb04699981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:29 +0000
Subject: [PATCH 073/113] fix: dumping an entity of an unnamed type passed NULL
 to strlen

---
 ir/ir/irdumptxt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ir/ir/irdumptxt.c b/ir/ir/irdumptxt.c
index 5261b49..0c6b55e 100644
--- a/ir/ir/irdumptxt.c
+++ b/ir/ir/irdumptxt.c
@@ -513,8 +513,9 @@ static void dump_entity_to_file_prefix(FILE *const F,
 	const ir_type *owner = get_entity_owner(ent);
 	const ir_type *type  = get_entity_type(ent);
 	if (verbosity & dump_verbosity_onlynames) {
-		ir_fprintf(F, "%sentity %s.%+F\n", prefix, get_compound_name(owner),
-		           ent);
+		const char *owner_name = get_compound_name(owner);
+		ir_fprintf(F, "%sentity %s.%+F\n", prefix,
+		           owner_name != NULL ? owner_name : "(unnamed)", ent);
 		return;
 	}
 
-- 
2.43.0


From 4b7fcd75e24621f4265b19eccd8f6219dc710341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:39 +0000
Subject: [PATCH 074/113] fix: modulo by constant left a Mul without a mode
 when the division is not replaced

---
 ir/ir/irarch.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ir/ir/irarch.c b/ir/ir/irarch.c
index 6e4fe64..2bc05a4 100644
--- a/ir/ir/irarch.c
+++ b/ir/ir/irarch.c
@@ -1044,9 +1044,12 @@ ir_node *arch_dep_replace_mod_by_const(ir_node *irn)
 		}
 	/* other constant */
 	} else if (allow_Mulh(mode)) {
-		res = replace_div_by_mulh(irn, tv);
-		res = new_rd_Mul(dbg, block, res, c);
-		res = new_rd_Sub(dbg, block, left, res);
+		ir_node *const div = replace_div_by_mulh(irn, tv);
+		/* beware: the division is not replaced in bad code */
+		if (div != irn) {
+			ir_node *const mul = new_rd_Mul(dbg, block, div, c);
+			res = new_rd_Sub(dbg, block, left, mul);
+		}
 	}
 
 	return res;
-- 
2.43.0


From 4887bc7be619fa10b0448c90423571a96ddd3877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:03 +0000
Subject: [PATCH 075/113] fix: amd64: conversion of a 32 bit float to a 64 bit
 integer truncated the result to 32 bits

---
 ir/be/amd64/amd64_transform.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ir/be/amd64/amd64_transform.c b/ir/be/amd64/amd64_transform.c
index a8048a8..6def3bb 100644
--- a/ir/be/amd64/amd64_transform.c
+++ b/ir/be/amd64/amd64_transform.c
@@ -2660,6 +2660,11 @@ static ir_node *gen_Conv(ir_node *const node)
 			size = X86_SIZE_64;
 		} else if (!mode_is_signed(dst_mode) && dst_bits == 64) {
 			panic("cannot convert floating point to 64-bit unsigned");
+		} else {
+			/* The result register must be able to hold every value of the
+			 * integer mode, the size of the floating point mode is
+			 * irrelevant. */
+			size = dst_bits > 32 ? X86_SIZE_64 : X86_SIZE_32;
 		}
 
 		if (src_bits == 32) {
-- 
2.43.0


From c073b324a56dd87eaecf34ee4c640a31025ca5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:57 +0000
Subject: [PATCH 076/113] fix: ia32: the sequence computing the GOT base
 clobbers the flags but was not marked so

---
 ir/be/ia32/ia32_spec.pl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ir/be/ia32/ia32_spec.pl b/ir/be/ia32/ia32_spec.pl
index 1478ed7..f1769dc 100644
--- a/ir/be/ia32/ia32_spec.pl
+++ b/ir/be/ia32/ia32_spec.pl
@@ -1006,8 +1006,9 @@ Const => {
 
 GetEIP => {
 	template  => $valueop,
-	# not rematerializable, value depends on location in code
-	irn_flags => [],
+	# not rematerializable, value depends on location in code; the emitted
+	# sequence contains an add
+	irn_flags => [ "modify_flags" ],
 	latency   => 5,
 },
 
-- 
2.43.0


From 1260245b9a40a76b7de09fa8ace97ee673e83f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:45 +0000
Subject: [PATCH 077/113] fix: preference allocator placed copies between an
 instruction and its CopyKeep

---
 ir/be/beprefalloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/be/beprefalloc.c b/ir/be/beprefalloc.c
index 8512ab6..fd1b16b 100644
--- a/ir/be/beprefalloc.c
+++ b/ir/be/beprefalloc.c
@@ -712,6 +712,10 @@ static void assign_reg(ir_node const *const block, ir_node *const node, arch_reg
 
 		if (assignments[final_reg_index] == NULL)
 			break;
+		/* A CopyKeep has to stay directly behind the node it belongs to, so
+		 * there is no place for the copy of a split. */
+		if (be_is_CopyKeep(node))
+			continue;
 		float    pref   = reg_prefs[r].pref;
 		float    delta  = r+1 < n_regs ? pref - reg_prefs[r+1].pref : 0;
 		ir_node *before = skip_Proj(node);
-- 
2.43.0


From aeaf8772c46348cd8e03ccbaf772331e02fb119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:58 +0000
Subject: [PATCH 078/113] fix: divisions in modes smaller than a register were
 replaced by Mulh, which no backend provides for them

---
 ir/ir/irarch.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ir/ir/irarch.c b/ir/ir/irarch.c
index 2bc05a4..a054777 100644
--- a/ir/ir/irarch.c
+++ b/ir/ir/irarch.c
@@ -50,6 +50,9 @@ static bool allow_Mulh(ir_mode *mode)
 {
 	if (get_mode_size_bits(mode) > settings.max_bits_for_mulh)
 		return false;
+	/* no backend provides a Mulh for modes smaller than a register */
+	if (get_mode_size_bits(mode) < get_mode_size_bits(mode_Iu))
+		return false;
 	return mode_is_signed(mode) ? settings.allow_mulhs : settings.allow_mulhu;
 }
 
-- 
2.43.0


From 6403b0f86ce4ad20933842ff98aeea5b172208cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:32 +0000
Subject: [PATCH 079/113] fix: amd64: register constraints of the unsigned
 conversion helpers allowed unresolvable allocations

---
 ir/be/amd64/amd64_transform.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ir/be/amd64/amd64_transform.c b/ir/be/amd64/amd64_transform.c
index 6def3bb..596cc7f 100644
--- a/ir/be/amd64/amd64_transform.c
+++ b/ir/be/amd64/amd64_transform.c
@@ -932,7 +932,11 @@ static ir_node *gen_binop_xmm(ir_node *node, ir_node *op0, ir_node *op1,
 
 	fix_node_mem_proj(new_node, args.mem_proj);
 
-	arch_set_irn_register_req_out(new_node, 0, &amd64_requirement_xmm_same_0);
+	/* None of these operations is commutative, so without memory operand the
+	 * finishing phase needs room for a copy (see create_sse_div()). */
+	arch_set_irn_register_req_out(new_node, 0,
+	                              use_am ? &amd64_requirement_xmm_same_0
+	                                     : &amd64_requirement_xmm_same_0_not_1);
 	return be_new_Proj(new_node, pn_amd64_subs_res);
 }
 
-- 
2.43.0


From 683f3f888d98d81e299a3785ff9595f3289630fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:01 +0000
Subject: [PATCH 080/113] fix: float to unsigned conversion lowering assumed
 its new Phi is never folded

---
 ir/be/amd64/amd64_bearch.c |  7 ++++++-
 ir/be/sparc/sparc_bearch.c | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/ir/be/amd64/amd64_bearch.c b/ir/be/amd64/amd64_bearch.c
index f6258f6..89a11c8 100644
--- a/ir/be/amd64/amd64_bearch.c
+++ b/ir/be/amd64/amd64_bearch.c
@@ -313,7 +313,12 @@ static void rewrite_float_unsigned_Conv(ir_node *node)
 	set_irn_in(lower_block, ARRAY_SIZE(lower_in), lower_in);
 	ir_node *phi = new_r_Phi(lower_block, ARRAY_SIZE(phi_in), phi_in,
 	                         dest_mode);
-	collect_new_phi_node(phi);
+	/* the Phi may have been optimized away */
+	if (is_Phi(phi)) {
+		collect_new_phi_node(phi);
+	} else if (is_irn_start_block_placed(phi)) {
+		collect_new_start_block_node(phi);
+	}
 	exchange(node, phi);
 }
 
diff --git a/ir/be/sparc/sparc_bearch.c b/ir/be/sparc/sparc_bearch.c
index 7033603..8d58736 100644
--- a/ir/be/sparc/sparc_bearch.c
+++ b/ir/be/sparc/sparc_bearch.c
@@ -179,7 +179,12 @@ static void rewrite_unsigned_float_Conv(ir_node *node)
 
 	set_irn_in(lower_block, ARRAY_SIZE(lower_in), lower_in);
 	ir_node *phi = new_r_Phi(lower_block, ARRAY_SIZE(phi_in), phi_in, mode_d);
-	collect_new_phi_node(phi);
+	/* the Phi may have been optimized away */
+	if (is_Phi(phi)) {
+		collect_new_phi_node(phi);
+	} else if (is_irn_start_block_placed(phi)) {
+		collect_new_start_block_node(phi);
+	}
 
 	ir_node *res_conv = new_rd_Conv(dbgi, lower_block, phi, dest_mode);
 	exchange(node, res_conv);
@@ -237,7 +242,12 @@ static void rewrite_float_unsigned_Conv(ir_node *node)
 
 	set_irn_in(lower_block, ARRAY_SIZE(lower_in), lower_in);
 	ir_node *phi = new_r_Phi(lower_block, ARRAY_SIZE(phi_in), phi_in, mode_s);
-	collect_new_phi_node(phi);
+	/* the Phi may have been optimized away */
+	if (is_Phi(phi)) {
+		collect_new_phi_node(phi);
+	} else if (is_irn_start_block_placed(phi)) {
+		collect_new_start_block_node(phi);
+	}
 
 	ir_node *res_conv = new_rd_Conv(dbgi, lower_block, phi, mode_u);
 	exchange(node, res_conv);
-- 
2.43.0


From 49cc0ee14dca5d8bed9f86822855a2ef6e32e001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 081/113] fix: amd64: signed conversion of a float to at most
 32 bits was not extended to the whole register

---
 ir/be/amd64/amd64_transform.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ir/be/amd64/amd64_transform.c b/ir/be/amd64/amd64_transform.c
index 596cc7f..986055b 100644
--- a/ir/be/amd64/amd64_transform.c
+++ b/ir/be/amd64/amd64_transform.c
@@ -2667,8 +2667,9 @@ static ir_node *gen_Conv(ir_node *const node)
 		} else {
 			/* The result register must be able to hold every value of the
 			 * integer mode, the size of the floating point mode is
-			 * irrelevant. */
-			size = dst_bits > 32 ? X86_SIZE_64 : X86_SIZE_32;
+			 * irrelevant.  Extending the value to the whole register fulfills
+			 * be_upper_bits_clean(). */
+			size = X86_SIZE_64;
 		}
 
 		if (src_bits == 32) {
-- 
2.43.0


From d64b07a64dbec95b8014e0bdcdddfb37d35db30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:14 +0000
Subject: [PATCH 082/113] fix: ia32: a division whose memory is a Pin could
 float above the Pin

---
 ir/be/ia32/ia32_transform.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ir/be/ia32/ia32_transform.c b/ir/be/ia32/ia32_transform.c
index f051e49..a092ad4 100644
--- a/ir/be/ia32/ia32_transform.c
+++ b/ir/be/ia32/ia32_transform.c
@@ -1762,7 +1762,8 @@ static ir_node *create_Div(ir_node *const node, ir_node *const op1, ir_node *con
 	ir_node *const new_node = cons(dbgi, block, addr->base, addr->index, new_mem, am.new_op2, am.new_op1, ext, X86_SIZE_32);
 
 	ir_set_throws_exception(new_node, ir_throws_exception(node));
-	set_irn_pinned(new_node, get_irn_pinned(node));
+	/* The Pin has been skipped, so the node itself must not float above it. */
+	set_irn_pinned(new_node, get_irn_pinned(node) || is_Pin(mem));
 	set_am_attributes(new_node, &am);
 	return fix_mem_proj(new_node, &am);
 }
-- 
2.43.0


From 15c806e6f0f0bab7c4dd5d852bded7b8ba8f7f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:14 +0000
Subject: [PATCH 083/113] fix: ia32: jump table access of position independent
 switches could float above the range check

---
 ir/be/ia32/ia32_transform.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ir/be/ia32/ia32_transform.c b/ir/be/ia32/ia32_transform.c
index a092ad4..75c0299 100644
--- a/ir/be/ia32/ia32_transform.c
+++ b/ir/be/ia32/ia32_transform.c
@@ -2815,6 +2815,8 @@ static ir_node *gen_Switch(ir_node *node)
 		ir_node *const add = new_bd_ia32_Add(dbgi, block, base, new_sel, nomem,
 		                                     base, noreg_GP, X86_SIZE_32);
 		set_ia32_commutative(add);
+		/* The jump table must not be accessed before the range check. */
+		set_irn_pinned(add, true);
 		table_am = add;
 		switchjmp = new_bd_ia32_SwitchJmp(dbgi, block, add, noreg_GP, n_outs,
 		                                  table, entity);
-- 
2.43.0


From 33bc0030164247930f3c9f03c189ee7664e3a10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:13 +0000
Subject: [PATCH 084/113] fix: prefalloc: results of the node under allocation
 were split before that node

---
 ir/be/beprefalloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/be/beprefalloc.c b/ir/be/beprefalloc.c
index fd1b16b..2b7e24d 100644
--- a/ir/be/beprefalloc.c
+++ b/ir/be/beprefalloc.c
@@ -546,6 +546,10 @@ static bool try_optimistic_split(ir_node *to_split, ir_node *before,
 	allocation_info_t *info = get_allocation_info(to_split);
 	float              delta = 0;
 
+	/* a result of the node itself is not available before the node */
+	if (skip_Proj(to_split) == before)
+		return false;
+
 	/* stupid hack: don't optimistically split don't spill nodes...
 	 * (so we don't split away the values produced because of
 	 *  must_be_different constraints) */
-- 
2.43.0


From c7caaf16024b8fff5b42f26bda52977cc7ed444c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:08 +0000
Subject: [PATCH 085/113] fix: backend: nodes without backend info could be
 reused by common subexpression elimination

---
 ir/be/bemain.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/be/bemain.c b/ir/be/bemain.c
index 8393453..952f139 100644
--- a/ir/be/bemain.c
+++ b/ir/be/bemain.c
@@ -38,6 +38,7 @@
 #include "iredges_t.h"
 #include "irgopt.h"
 #include "irloop_t.h"
+#include "iropt_t.h"
 #include "iroptimize.h"
 #include "irprofile.h"
 #include "irprog.h"
@@ -269,6 +270,9 @@ static void initialize_birg(be_irg_t *birg, ir_graph *irg, be_main_env_t *env)
 	obstack_init(&birg->obst);
 	irg->be_data = birg;
 
+	/* Only nodes which are reachable now get a backend info, so do not reuse
+	 * others anymore. */
+	new_identities(irg);
 	be_info_init_irg(irg);
 	birg->lv = be_liveness_new(irg);
 
-- 
2.43.0


From 3dd8ccf36cf976e4f9b85aad3de4c14338b3e773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:51 +0000
Subject: [PATCH 086/113] Revert "fix: ia32: the sequence computing the GOT
 base clobbers the flags but was not marked so"

This reverts commit c073b324a56dd87eaecf34ee4c640a31025ca5eb.
---
 ir/be/ia32/ia32_spec.pl | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ir/be/ia32/ia32_spec.pl b/ir/be/ia32/ia32_spec.pl
index f1769dc..1478ed7 100644
--- a/ir/be/ia32/ia32_spec.pl
+++ b/ir/be/ia32/ia32_spec.pl
@@ -1006,9 +1006,8 @@ Const => {
 
 GetEIP => {
 	template  => $valueop,
-	# not rematerializable, value depends on location in code; the emitted
-	# sequence contains an add
-	irn_flags => [ "modify_flags" ],
+	# not rematerializable, value depends on location in code
+	irn_flags => [],
 	latency   => 5,
 },
 
-- 
2.43.0


From 24e5f822ba6111ad75fe031a544bf99320fbede0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:03 +0000
Subject: [PATCH 087/113] fix: ia32: mark the sequence computing the GOT base
 as clobbering the flags

---
 ir/be/ia32/ia32_transform.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ir/be/ia32/ia32_transform.c b/ir/be/ia32/ia32_transform.c
index 75c0299..36bdb33 100644
--- a/ir/be/ia32/ia32_transform.c
+++ b/ir/be/ia32/ia32_transform.c
@@ -194,6 +194,8 @@ ir_node *ia32_get_pic_base(ir_graph *irg)
 	if (!*get_eip) {
 		ir_node *const block = get_irg_start_block(irg);
 		*get_eip = new_bd_ia32_GetEIP(NULL, block);
+		/* The emitted sequence contains an add. */
+		arch_add_irn_flags(*get_eip, arch_irn_flag_modify_flags);
 	}
 	return *get_eip;
 }
-- 
2.43.0


From 9e2649b585345dd25a959d9ec427e356e769b267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:59 +0000
Subject: [PATCH 088/113] fix: loop information: endless loops kept by a Phi
 only or consisting of a single unreachable block were missed

---
 ir/ana/ircfscc.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ir/ana/ircfscc.c b/ir/ana/ircfscc.c
index ea6672a..2f9b34d 100644
--- a/ir/ana/ircfscc.c
+++ b/ir/ana/ircfscc.c
@@ -404,8 +404,16 @@ static ir_node *find_tail(ir_node *n)
 			(n ==  m))
 			return NULL;
 	} else {
-		if (m == n)
-			return NULL;
+		if (m == n) {
+			/* Straight line code, unless it is an endless loop consisting of a
+			 * single block, which is not reachable from Start. */
+			if (!is_endless_head(m, n))
+				return NULL;
+			res_index = smallest_dfn_pred(m, 0);
+			assert(res_index > -2);
+			set_backedge(m, res_index);
+			return m;
+		}
 		size_t i;
 		for (i = tos - 1; i != 0;) {
 			m = stack[--i];
@@ -608,8 +616,11 @@ void construct_cf_backedges(ir_graph *irg)
 	ir_node *end = get_irg_end(irg);
 	for (int i = get_End_n_keepalives(end); i-- > 0; ) {
 		ir_node *el = get_End_keepalive(end, i);
+		/* An endless loop may only be reachable through a kept node in it. */
 		if (is_Block(el))
 			cfscc(el);
+		else if (is_Phi(el))
+			cfscc(get_nodes_block(el));
 	}
 	finish_scc();
 	ir_free_resources(irg, IR_RESOURCE_IRN_LINK);
-- 
2.43.0


From cf30e68312d0775b6f4bf68e383d37db1303139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:59 +0000
Subject: [PATCH 089/113] fix: invalidating dominance left postdominance,
 dominance frontiers and loop information claimed to be valid

---
 ir/ana/domfront.c | 2 ++
 ir/ir/irgraph_t.h | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/ir/ana/domfront.c b/ir/ana/domfront.c
index 66e99e7..1d4009d 100644
--- a/ir/ana/domfront.c
+++ b/ir/ana/domfront.c
@@ -79,6 +79,8 @@ void ir_compute_dominance_frontiers(ir_graph *irg)
 
 	assure_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_OUT_EDGES
 	                         | IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE);
+	/* Free outdated information. */
+	ir_free_dominance_frontiers(irg);
 	obstack_init(&info->obst);
 	info->df_map = pmap_create();
 	compute_df(get_irg_start_block(irg), info);
diff --git a/ir/ir/irgraph_t.h b/ir/ir/irgraph_t.h
index 194cf89..53a91f0 100644
--- a/ir/ir/irgraph_t.h
+++ b/ir/ir/irgraph_t.h
@@ -394,6 +394,12 @@ static inline void add_irg_properties_(ir_graph *irg,
 static inline void clear_irg_properties_(ir_graph *irg,
                                     ir_graph_properties_t props)
 {
+	/* Dominance only becomes invalid, when the control flow changes.  This
+	 * invalidates everything else computed from it, too. */
+	if (props & IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE)
+		props |= IR_GRAPH_PROPERTY_CONSISTENT_POSTDOMINANCE
+		      |  IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE_FRONTIERS
+		      |  IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO;
 	irg->properties &= ~props;
 }
 
-- 
2.43.0


From 915545819baa039f7b658173d752c2dbdf187999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:59 +0000
Subject: [PATCH 090/113] fix: lower_mux: properties invalidated by the new
 control flow were kept

---
 ir/lower/lower_mux.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ir/lower/lower_mux.c b/ir/lower/lower_mux.c
index 958494b..b1ec07d 100644
--- a/ir/lower/lower_mux.c
+++ b/ir/lower/lower_mux.c
@@ -116,10 +116,11 @@ void lower_mux(ir_graph *irg, lower_mux_callback *cb_func)
 		/* Cleanup, verify the graph. */
 		ir_free_resources(irg, resources);
 
-		clear_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE | IR_GRAPH_PROPERTY_NO_CRITICAL_EDGES);
 		/* The out edges still contain the replaced nodes. */
 		confirm_irg_properties(irg, IR_GRAPH_PROPERTIES_ALL
-		                          & ~IR_GRAPH_PROPERTY_CONSISTENT_OUT_EDGES);
+		                          & ~(IR_GRAPH_PROPERTIES_CONTROL_FLOW
+		                              | IR_GRAPH_PROPERTY_CONSISTENT_OUT_EDGES
+		                              | IR_GRAPH_PROPERTY_CONSISTENT_OUTS));
 	}
 	DEL_ARR_F(env.muxes);
 }
-- 
2.43.0


From 5cd48c724be1d1343547f4f1e073e3250203853d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:59 +0000
Subject: [PATCH 091/113] fix: osr, phi-cycles: nodes brought back by CSE had
 outdated links

---
 ir/opt/opt_osr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ir/opt/opt_osr.c b/ir/opt/opt_osr.c
index 635b1b7..99f9a2e 100644
--- a/ir/opt/opt_osr.c
+++ b/ir/opt/opt_osr.c
@@ -25,6 +25,7 @@
 #include "irhooks.h"
 #include "irloop_t.h"
 #include "irop_t.h"
+#include "iropt_t.h"
 #include "iroptimize.h"
 #include "irouts.h"
 #include "irtools.h"
@@ -1221,6 +1222,8 @@ void remove_phi_cycles(ir_graph *irg)
 	 */
 	ir_reserve_resources(irg, IR_RESOURCE_IRN_LINK);
 	irg_walk_graph(irg, NULL, firm_clear_link, NULL);
+	/* CSE may bring back nodes, which are currently not reachable. */
+	visit_all_identities(irg, firm_clear_link, NULL);
 
 	/* calculate the post order number for blocks. */
 	irg_out_block_walk(get_irg_start_block(irg), NULL, assign_po, &env);
@@ -1338,6 +1341,8 @@ void opt_osr(ir_graph *irg, unsigned flags)
 	 */
 	ir_reserve_resources(irg, IR_RESOURCE_IRN_LINK);
 	irg_walk_graph(irg, NULL, firm_clear_link, NULL);
+	/* CSE may bring back nodes, which are currently not reachable. */
+	visit_all_identities(irg, firm_clear_link, NULL);
 
 	irg_block_edges_walk(get_irg_start_block(irg), NULL, assign_po, &env);
 
-- 
2.43.0


From f4ff92b92e1859c8ed9da081bf0b50ffad4af5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:59 +0000
Subject: [PATCH 092/113] fix: load-store: crash when replacing a Load without
 memory Proj by a constant

---
 ir/opt/ldstopt.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ir/opt/ldstopt.c b/ir/opt/ldstopt.c
index 9a4525e..7fb5350 100644
--- a/ir/opt/ldstopt.c
+++ b/ir/opt/ldstopt.c
@@ -813,13 +813,8 @@ static changes_t optimize_load(ir_node *load)
 		ir_node *ptr  = get_Load_ptr(load);
 		ir_mode *mode = get_Load_mode(load);
 		ir_node *val  = predict_load(ptr, mode);
-		if (val != NULL) {
-			ldst_info_t *info = (ldst_info_t*)get_irn_link(load);
-			exchange(info->projs[pn_Load_res], val);
-			exchange(info->projs[pn_Load_M], get_Load_mem(load));
-			kill_and_reduce_usage(load);
-			return DF_CHANGED;
-		}
+		if (val != NULL && info->projs[pn_Load_res] != NULL)
+			return replace_load(load, val);
 	}
 
 	track_load_env_t env = { .ptr = ptr };
-- 
2.43.0


From 8f4984f40aef54c6d4fcceeb3c26959413c7a4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:36 +0000
Subject: [PATCH 093/113] fix: a float to int conversion is not extended from
 smaller modes

---
 ir/be/betranshlp.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ir/be/betranshlp.c b/ir/be/betranshlp.c
index 7337877..7f8963e 100644
--- a/ir/be/betranshlp.c
+++ b/ir/be/betranshlp.c
@@ -415,11 +415,14 @@ static bool conv_upper_bits_clean(const ir_node *node, ir_mode *mode)
 	ir_mode       *dest_mode = get_irn_mode(node);
 	const ir_node *op        = get_Conv_op(node);
 	ir_mode       *src_mode  = get_irn_mode(op);
-	if (mode_is_float(src_mode))
-		return true;
-
 	unsigned src_bits  = get_mode_size_bits(src_mode);
 	unsigned dest_bits = get_mode_size_bits(dest_mode);
+	/* The result is only known to be extended from the destination mode. */
+	if (mode_is_float(src_mode)) {
+		return dest_bits <= get_mode_size_bits(mode)
+		    && mode_is_signed(dest_mode) == mode_is_signed(mode);
+	}
+
 	/* downconvs are a nop */
 	if (src_bits >= dest_bits)
 		return be_upper_bits_clean(op, mode);
-- 
2.43.0


From fdc13a9f135b82ac603f8783b1e2d8c082942b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:41 +0000
Subject: [PATCH 094/113] fix: loop unrolling: the loop counter Phi may have
 only constant operands

---
 ir/opt/loop_unrolling.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ir/opt/loop_unrolling.c b/ir/opt/loop_unrolling.c
index efe332f..614c872 100644
--- a/ir/opt/loop_unrolling.c
+++ b/ir/opt/loop_unrolling.c
@@ -364,7 +364,9 @@ static unsigned find_suitable_factor(ir_node *const header, unsigned max, bool *
 				}
 			}
 
-			assert(tv_limit != NULL && tv_init != NULL && tv_step != NULL);
+			/* all operands may be constants or all may be increments */
+			if (tv_init == NULL || tv_step == NULL)
+				return DONT_UNROLL;
 
 			// normalize: use less or less_equal as relation
 			if (cmp_rel & ir_relation_greater) {
-- 
2.43.0


From fcfea590e0a543e379a37f543a73c1df60d1a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:41 +0000
Subject: [PATCH 095/113] fix: jump threading: replace both results of a Cond
 with a known selector

---
 ir/opt/jumpthreading.c | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/ir/opt/jumpthreading.c b/ir/opt/jumpthreading.c
index 91c57b9..7606802 100644
--- a/ir/opt/jumpthreading.c
+++ b/ir/opt/jumpthreading.c
@@ -393,6 +393,22 @@ static ir_tarval *get_Const_or_Confirm_tarval(const ir_node *node)
 	return get_Const_tarval(node);
 }
 
+/** Replace a Cond, whose selector is known, by a jump. */
+static void replace_Cond(ir_node *const cond, bool const is_true)
+{
+	ir_graph *const irg   = get_irn_irg(cond);
+	ir_node  *const block = get_nodes_block(cond);
+	ir_node  *const jmp   = new_rd_Jmp(get_irn_dbg_info(cond), block);
+	ir_node  *const bad   = new_r_Bad(irg, mode_X);
+	ir_node  *const in[]  = {
+		[pn_Cond_false] = is_true ? bad : jmp,
+		[pn_Cond_true]  = is_true ? jmp : bad,
+	};
+	turn_into_tuple(cond, ARRAY_SIZE(in), in);
+	/* We might remove the exit of a loop. */
+	keep_alive(block);
+}
+
 static ir_node *find_const_or_confirm(jumpthreading_env_t *env, ir_node *jump,
                                       ir_node *value)
 {
@@ -408,15 +424,10 @@ static ir_node *find_const_or_confirm(jumpthreading_env_t *env, ir_node *jump,
 		 * partial tracking along paths. */
 		assert(get_Block_n_cfgpreds(env->true_block) == 1);
 		if (block == get_Block_cfgpred_block(env->true_block, 0)) {
-			if (evaluated == 0) {
-				ir_graph *irg = get_irn_irg(block);
-				ir_node  *bad = new_r_Bad(irg, mode_X);
-				exchange(jump, bad);
-			} else if (evaluated == 1) {
-				dbg_info *dbgi = get_irn_dbg_info(skip_Proj(jump));
-				ir_node  *jmp  = new_rd_Jmp(dbgi, get_nodes_block(jump));
-				exchange(jump, jmp);
-			}
+			/* Replace both results of the Cond: the block at its other result
+			 * might not get processed at all. */
+			ir_node *const cond = get_Proj_pred(jump);
+			replace_Cond(cond, (evaluated == 1) == (env->tv == tarval_b_true));
 			/* we need a bigger visited nr when going back */
 			env->visited_nr++;
 			return block;
@@ -583,17 +594,7 @@ static void thread_jumps(ir_node* block, void* data)
 	if (is_Const(selector)) {
 		const ir_tarval *tv = get_Const_tarval(selector);
 		assert(tv == tarval_b_false || tv == tarval_b_true);
-		ir_node    *const cond_block = get_nodes_block(cond);
-		ir_node    *const jmp        = new_r_Jmp(cond_block);
-		ir_node    *const bad        = new_r_Bad(irg, mode_X);
-		const bool        is_true    = tv == tarval_b_true;
-		ir_node *const in[] = {
-			[pn_Cond_false] = is_true ? bad : jmp,
-			[pn_Cond_true]  = is_true ? jmp : bad,
-		};
-		turn_into_tuple(cond, ARRAY_SIZE(in), in);
-		/* We might remove the exit of a loop. */
-		keep_alive(cond_block);
+		replace_Cond(cond, tv == tarval_b_true);
 		*changed = true;
 		return;
 	}
-- 
2.43.0


From b53f50401ac669ff587876111902f145d4be547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:06 +0000
Subject: [PATCH 096/113] fix: amd64: the selector of a jump table was not zero
 extended

---
 ir/be/amd64/amd64_transform.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ir/be/amd64/amd64_transform.c b/ir/be/amd64/amd64_transform.c
index 986055b..f678230 100644
--- a/ir/be/amd64/amd64_transform.c
+++ b/ir/be/amd64/amd64_transform.c
@@ -1692,16 +1692,23 @@ static ir_node *gen_Jmp(ir_node *const node)
 	return new_bd_amd64_jmp(dbgi, new_block);
 }
 
+static ir_node *gen_extend(dbg_info *dbgi, ir_node *block, ir_node *value,
+                           ir_mode *from);
+
 static ir_node *gen_Switch(ir_node *const node)
 {
 	ir_graph *irg       = get_irn_irg(node);
 	ir_node  *new_block = be_transform_nodes_block(node);
 	ir_node  *sel       = get_Switch_selector(node);
 	dbg_info *dbgi      = get_irn_dbg_info(node);
-	ir_node  *new_sel   = be_transform_node(sel);
 	const ir_switch_table *table  = get_Switch_table(node);
 	unsigned               n_outs = get_Switch_n_outs(node);
 
+	/* The full register is used to access the jump table. */
+	ir_mode *const mode    = get_irn_mode(sel);
+	ir_node *const new_sel = be_upper_bits_clean(sel, mode)
+		? be_transform_node(sel) : gen_extend(dbgi, new_block, sel, mode);
+
 	ir_type   *const utype = get_unknown_type();
 	ir_entity *const entity
 		= new_global_entity(irp->dummy_owner, id_unique("TBL"), utype,
-- 
2.43.0


From 639a4e38a2511caf68a92e84533c98baf2de8960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:06 +0000
Subject: [PATCH 097/113] fix: instrumented code lacked the counter array and
 lost counts across calls

---
 ir/ir/irprofile.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/ir/ir/irprofile.c b/ir/ir/irprofile.c
index 83d1643..d158b07 100644
--- a/ir/ir/irprofile.c
+++ b/ir/ir/irprofile.c
@@ -294,6 +294,22 @@ static ir_node *sync_mem(ir_node *bb, ir_node *mem)
 	return new_r_Sync(bb, ARRAY_SIZE(ins), ins);
 }
 
+/**
+ * Let calls depend on the counter of their block: the callee might increment
+ * the same counter, so it must not be called between the load and the store of
+ * the instrumentation code.  This also keeps the counters of blocks, which end
+ * in a call to a noreturn function.
+ */
+static void sync_call(ir_node *const node, void *const data)
+{
+	(void)data;
+
+	if (is_Call(node)) {
+		ir_node *const bb = get_nodes_block(node);
+		set_Call_mem(node, sync_mem(bb, get_Call_mem(node)));
+	}
+}
+
 /**
  * Instrument a single ir_graph, counters should point to the bblock
  * counters array.
@@ -336,16 +352,8 @@ static void instrument_irg(ir_graph *irg, ir_entity *counters, block_id_walker_d
 		}
 	}
 
-	/* as well as calls with attribute noreturn */
-	ir_node *const end = get_irg_end(irg);
-	for (unsigned i = get_End_n_keepalives(end); i-- > 0;) {
-		ir_node *node = get_End_keepalive(end, i);
-		if (is_Call(node)) {
-			ir_node *const bb  = get_nodes_block(node);
-			ir_node *const mem = get_Call_mem(node);
-			set_Call_mem(node, sync_mem(bb, mem));
-		}
-	}
+	/* as well as calls */
+	irg_walk_graph(irg, sync_call, NULL, NULL);
 
 	ir_free_resources(irg, IR_RESOURCE_IRN_LINK);
 }
@@ -403,6 +411,8 @@ ir_graph *ir_profile_instrument(const char *filename)
 	 * types must have a fixed layout, because we are already running in the
 	 * backend */
 	ir_entity *const bblock_counts = new_array_entity("__FIRMPROF__BLOCK_COUNTS", mode_Iu, n_blocks, IR_LINKAGE_DEFAULT);
+	/* Without initializer it would only be a declaration. */
+	set_entity_initializer(bblock_counts, get_initializer_null());
 
 	ir_entity *const ent_filename = new_static_string_entity("__FIRMPROF__FILE_NAME", filename);
 
-- 
2.43.0


From e850b12422f77656f7c9f4b8aa1489c4b5d78b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:21 +0000
Subject: [PATCH 098/113] fix: subnormal constants whose low mantissa bits are
 zero were classified as zero

---
 ir/tv/fltcalc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ir/tv/fltcalc.c b/ir/tv/fltcalc.c
index 02c1e5e..10628ee 100644
--- a/ir/tv/fltcalc.c
+++ b/ir/tv/fltcalc.c
@@ -131,7 +131,7 @@ static bool normalize(fp_value *val, bool sticky)
 
 	/* check for exponent underflow */
 	if (sc_is_negative(_exp(val))
-	 || sc_is_zero(_exp(val), value_size)) {
+	 || sc_is_zero(_exp(val), value_size * SC_BITS)) {
 		/* exponent underflow */
 		/* shift the mantissa right to have a zero exponent */
 		sc_val_from_ulong(1, temp);
@@ -190,7 +190,7 @@ static bool normalize(fp_value *val, bool sticky)
 	}
 
 	/* could have rounded down to zero */
-	if (sc_is_zero(_mant(val), value_size)
+	if (sc_is_zero(_mant(val), value_size * SC_BITS)
 	    && (val->clss == FC_SUBNORMAL))
 		val->clss = FC_ZERO;
 
@@ -631,8 +631,8 @@ void fc_val_from_bytes(fp_value *result, const unsigned char *buffer,
 	sc_shlI(_mant(result), ROUNDING_BITS, _mant(result));
 
 	/* check for special values */
-	if (sc_is_zero(_exp(result), value_size)) {
-		if (sc_is_zero(_mant(result), value_size)) {
+	if (sc_is_zero(_exp(result), value_size * SC_BITS)) {
+		if (sc_is_zero(_mant(result), value_size * SC_BITS)) {
 			result->clss = FC_ZERO;
 		} else {
 			result->clss = FC_SUBNORMAL;
-- 
2.43.0


From e0b2ccf6ac4878dc0a79a3da68f01a3b504ba544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:21 +0000
Subject: [PATCH 099/113] fix: (C1 - x) + C2 was reassociated for floating
 point

---
 ir/opt/iropt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 2a03a76..473856e 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -3094,7 +3094,8 @@ static ir_node *transform_node_Add(ir_node *n)
 					return new_rd_Confirm(dbgi, block, add, cnst, ir_relation_less_equal);
 				}
 			}
-		} else if (is_Sub(a)) {
+		} else if (is_Sub(a)
+		           && (!mode_is_float(mode) || ir_imprecise_float_transforms_allowed())) {
 			const ir_node *sub_l = get_Sub_left(a);
 			ir_tarval     *ts    = value_of(sub_l);
 
-- 
2.43.0


From ed3aac36743ab7a818f5403401a855fe72ee05fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:21 +0000
Subject: [PATCH 100/113] fix: reassociation crashed on nodes without users

---
 ir/opt/reassoc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/opt/reassoc.c b/ir/opt/reassoc.c
index 1c4385b..2b9dafa 100644
--- a/ir/opt/reassoc.c
+++ b/ir/opt/reassoc.c
@@ -1436,6 +1436,10 @@ static void walk_sets(ir_node *node, void *env)
 	multi_op_env *multi_env = (multi_op_env *)env;
 	pmap         *set_map   = multi_env->set_map;
 
+	/* ignore dead nodes */
+	if (get_irn_n_edges(node) == 0)
+		return;
+
 	if (is_supported_node(node)) {
 		bool      is_same_set = true;
 		multi_op *user_set    = pmap_get(multi_op, set_map, get_first_user(node));
-- 
2.43.0


From 3798818ea2e2905b83effb17b2fe39aa8a1df3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:21 +0000
Subject: [PATCH 101/113] fix: lower_mux put an existing Phi twice into the Phi
 list and looped forever

---
 ir/lower/lower_mux.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ir/lower/lower_mux.c b/ir/lower/lower_mux.c
index b1ec07d..d706be4 100644
--- a/ir/lower/lower_mux.c
+++ b/ir/lower/lower_mux.c
@@ -64,8 +64,8 @@ static void lower_mux_node(ir_node* mux)
 	ir_mode *mode = get_irn_mode(mux);
 	ir_node *phi  = new_r_Phi(lower_block, ARRAY_SIZE(mux_values), mux_values,
 	                          mode);
-	/* the Phi might have been optimized away */
-	if (is_Phi(phi)) {
+	/* the Phi might have been optimized away, maybe to an existing Phi */
+	if (is_Phi(phi) && get_nodes_block(phi) == lower_block) {
 		collect_new_phi_node(phi);
 		/* optimization replaces the inputs at unreachable edges */
 		foreach_irn_in(phi, i, pred) {
-- 
2.43.0


From ef1fc5f1769129d437073cd0c6fd231a34d69b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:21 +0000
Subject: [PATCH 102/113] fix: combo replaced nodes by a leader it had already
 replaced

---
 ir/opt/combo.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/ir/opt/combo.c b/ir/opt/combo.c
index 3f7876d..6cfb9e4 100644
--- a/ir/opt/combo.c
+++ b/ir/opt/combo.c
@@ -2674,6 +2674,20 @@ static void propagate(environment_t *env)
 	}
 }
 
+/**
+ * Returns the IR-node a node finally was replaced by.
+ */
+static ir_node *get_replacement(const node_t *node)
+{
+	for (;;) {
+		ir_node      *const irn  = node->node;
+		node_t const *const next = get_irn_node(irn);
+		if (next == NULL || next->node == irn)
+			return irn;
+		node = next;
+	}
+}
+
 /**
  * Get the leader for a given node from its congruence class.
  *
@@ -2685,7 +2699,7 @@ static ir_node *get_leader(node_t *node)
 
 	if (node->is_follower) {
 		DB((dbg, LEVEL_2, "Replacing follower %+F\n", node->node));
-		return get_first_node(part)->node;
+		return get_replacement(get_first_node(part));
 	}
 
 	if (part->n_leaders > 1) {
@@ -2693,7 +2707,7 @@ static ir_node *get_leader(node_t *node)
 		DB((dbg, LEVEL_2, "Found congruence class for %+F\n", irn));
 
 		ir_node *block       = get_nodes_block(irn);
-		ir_node *first       = get_first_node(part)->node;
+		ir_node *first       = get_replacement(get_first_node(part));
 		ir_node *first_block = get_nodes_block(first);
 
 		/* Ensure that the leader dominates the node. */
@@ -2916,6 +2930,8 @@ static void exchange_leader(ir_node *irn, ir_node *leader)
 			leader = nlead;
 		}
 	}
+	/* irn might itself be the replacement of the leader of another class */
+	get_irn_node(irn)->node = leader;
 	exchange(irn, leader);
 }
 
-- 
2.43.0


From 5d29b91a677f78511f66f3830dd60b0e99c2a0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:23 +0000
Subject: [PATCH 103/113] fix: alias analysis lost the object behind address
 arithmetic below a Sel/Member

---
 ir/ana/irmemory.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ir/ana/irmemory.c b/ir/ana/irmemory.c
index 9102993..d6f9bcb 100644
--- a/ir/ana/irmemory.c
+++ b/ir/ana/irmemory.c
@@ -96,6 +96,14 @@ static const ir_node *find_base_addr(const ir_node *node, ir_entity **pEnt)
 				break;
 			member = node;
 			node   = pred;
+		} else if (is_Add(node)) {
+			/* address arithmetic stays in the object of the pointer operand */
+			ir_node *const left = get_Add_left(node);
+			ir_node *const pred = mode_is_reference(get_irn_mode(left))
+			                    ? left : get_Add_right(node);
+			if (pred == get_irg_frame(get_irn_irg(pred)))
+				break;
+			node = pred;
 		} else {
 			break;
 		}
@@ -418,6 +426,10 @@ pointer:
 			ir_entity *entity2 = get_Member_entity(base2);
 			return entity1 != entity2 ? ir_no_alias : ir_may_alias;
 		} else if (class1 == ir_sc_globaladdr) {
+			if (base1 != addr1 || base2 != addr2
+			    || info1.sym_offset || !info1.has_const_offset
+			    || info2.sym_offset || !info2.has_const_offset)
+				return ir_may_alias;
 			offset1 += get_Const_long(base1);
 			offset2 += get_Const_long(base2);
 
-- 
2.43.0


From 59fecb9522445c41962530e2edbea411b8ce14cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:23 +0000
Subject: [PATCH 104/113] fix: folding a load of a constant object used a too
 small sub-initializer

---
 ir/opt/iropt.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 473856e..5e88107 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -7214,7 +7214,7 @@ static bool sim_store_bitfield(unsigned char *buf, ir_mode *mode, long offset,
 	unsigned mode_size        = get_mode_size_bytes(mode);
 	unsigned initializer_size = get_type_size(type);
 	for (unsigned b = (unsigned)MAX(0, offset); b < initializer_size; ++b) {
-		if (b > (unsigned)offset + mode_size)
+		if ((long)b >= offset + (long)mode_size)
 			continue;
 		unsigned      idx      = ir_target_big_endian()
 		                         ? (initializer_size - 1 - b) : b;
@@ -7250,7 +7250,7 @@ handle_tv:
 
 		for (unsigned b = (unsigned)MAX(0, offset);
 		     b < initializer_size; ++b) {
-			if (b > (unsigned)offset + mode_size)
+			if ((long)b >= offset + (long)mode_size)
 				continue;
 			unsigned      idx = ir_target_big_endian()
 			                    ? (initializer_size - 1 - b) : b;
@@ -7300,7 +7300,7 @@ handle_tv:
 				if (member_offs >= offset + (long)get_mode_size_bytes(mode)
 				    || offset >= member_offs + (long)get_type_size(member_type))
 				    continue;
-				if (i > get_initializer_compound_n_entries(initializer))
+				if (i >= get_initializer_compound_n_entries(initializer))
 					continue;
 				const ir_initializer_t *sub_initializer
 					= get_initializer_compound_value(initializer, i);
@@ -7364,6 +7364,9 @@ static ir_node *extract_from_initializer(const ir_type *type,
 	unsigned size = get_type_size(type);
 	if ((unsigned long)offset >= size)
 		return NULL;
+	/* an access which reaches beyond the type needs other initializers, too */
+	if ((unsigned long)offset + get_mode_size_bytes(mode) > size)
+		return NULL;
 
 	ir_tarval *tv;
 	switch (get_initializer_kind(initializer)) {
@@ -7434,7 +7437,7 @@ handle_tv:;
 				    continue;
 				if (get_entity_bitfield_size(member) > 0)
 					return NULL;
-				if (i > get_initializer_compound_n_entries(initializer))
+				if (i >= get_initializer_compound_n_entries(initializer))
 					continue;
 				const ir_initializer_t *sub_initializer
 					= get_initializer_compound_value(initializer, i);
-- 
2.43.0


From 51d7f239f4cc0f5c9672a698b50df01ca9b5c3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:23 +0000
Subject: [PATCH 105/113] fix: set_irn_in gave nodes of dynamic arity a fixed
 size predecessor array

---
 ir/ir/irnode.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ir/ir/irnode.c b/ir/ir/irnode.c
index 585436c..c2e62c6 100644
--- a/ir/ir/irnode.c
+++ b/ir/ir/irnode.c
@@ -184,13 +184,21 @@ void set_irn_in(ir_node *const node, int const arity, ir_node *const *const in)
 	}
 
 	if (arity != (int)ARR_LEN(*pOld_in) - 1) {
-		ir_node * block = (*pOld_in)[0];
-		*pOld_in = NEW_ARR_D(ir_node*, get_irg_obstack(irg), arity + 1);
-		(*pOld_in)[0] = block;
+		ir_node **const old_in = *pOld_in;
+		/* Nodes with dynamic arity must always have a flexible array. */
+		bool      const dynamic = is_irn_dynamic(node);
+		*pOld_in = dynamic
+			? NEW_ARR_F(ir_node*, arity + 1)
+			: NEW_ARR_D(ir_node*, get_irg_obstack(irg), arity + 1);
+		(*pOld_in)[0] = old_in[0];
+		fix_backedges(get_irg_obstack(irg), node);
+		MEMCPY(*pOld_in + 1, in, arity);
+		if (dynamic)
+			DEL_ARR_F(old_in);
+	} else {
+		fix_backedges(get_irg_obstack(irg), node);
+		MEMCPY(*pOld_in + 1, in, arity);
 	}
-	fix_backedges(get_irg_obstack(irg), node);
-
-	MEMCPY(*pOld_in + 1, in, arity);
 
 	/* update irg flags */
 	clear_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_OUTS | IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO);
-- 
2.43.0


From 36394730f2c926ffe499881a8988c64ec99f7367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:23 +0000
Subject: [PATCH 106/113] fix: switch lowering added predecessors to blocks
 with single operand Phis

---
 ir/lower/lower_switch.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/ir/lower/lower_switch.c b/ir/lower/lower_switch.c
index 70f4493..d860631 100644
--- a/ir/lower/lower_switch.c
+++ b/ir/lower/lower_switch.c
@@ -163,6 +163,27 @@ static void normalize_table(ir_node *switchn, ir_mode *new_mode,
 	}
 }
 
+/**
+ * Set the control flow predecessors of a block, which had a single one so far.
+ */
+static void set_block_in(ir_node *const block, int const n_preds,
+                         ir_node *const *const preds)
+{
+	/* Phis of a block with a single predecessor just select their operand */
+	foreach_irn_out_r(block, i, phi) {
+		if (!is_Phi(phi) || get_Phi_n_preds(phi) == n_preds)
+			continue;
+		assert(get_Phi_n_preds(phi) == 1);
+		ir_node  *const val = get_Phi_pred(phi, 0);
+		ir_node **const in  = ALLOCAN(ir_node*, n_preds);
+		for (int p = 0; p < n_preds; ++p) {
+			in[p] = val;
+		}
+		set_irn_in(phi, n_preds, in);
+	}
+	set_irn_in(block, n_preds, preds);
+}
+
 static void create_out_of_bounds_check(switch_info_t *info)
 {
 	/* should already be normalized to zero */
@@ -213,7 +234,7 @@ static void create_out_of_bounds_check(switch_info_t *info)
 			default_preds[p] = new_r_Jmp(split_block);
 		}
 	}
-	set_irn_in(default_block, n_default_preds, default_preds);
+	set_block_in(default_block, n_default_preds, default_preds);
 
 	DEL_ARR_F(default_preds);
 }
@@ -310,7 +331,7 @@ static void connect_to_target(target_t *target, ir_node *cf)
 		for (unsigned i = 0; i < n_entries; ++i) {
 			new_in[i] = dummy;
 		}
-		set_irn_in(block, n_entries, new_in);
+		set_block_in(block, n_entries, new_in);
 		assert(target->i == 0);
 	}
 	assert(target->i < n_entries);
@@ -437,7 +458,7 @@ static void find_switch_nodes(ir_node *block, void *ctx)
 	create_if_cascade(&info, block, table->entries, table->n_entries);
 
 	/* Connect new default case users */
-	set_irn_in(info.default_block, ARR_LEN(info.defusers), info.defusers);
+	set_block_in(info.default_block, ARR_LEN(info.defusers), info.defusers);
 
 	DEL_ARR_F(info.defusers);
 	free(info.targets);
-- 
2.43.0


From 204a0455f5f5500b248341c0c1fc81c1870d8036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:13 +0000
Subject: [PATCH 107/113] fix: constant folding of float multiplication and
 division with subnormal operands

---
 ir/tv/fltcalc.c | 51 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/ir/tv/fltcalc.c b/ir/tv/fltcalc.c
index 10628ee..4f6713e 100644
--- a/ir/tv/fltcalc.c
+++ b/ir/tv/fltcalc.c
@@ -389,6 +389,25 @@ static void _fadd(const fp_value *a, const fp_value *b, fp_value *result)
 	fc_exact &= normalize(result, sticky);
 }
 
+/**
+ * Get exponent and mantissa of a non-zero finite value, such that the highest
+ * set bit of the mantissa is left of the radix point, even for subnormals.
+ */
+static void get_normalized(const fp_value *val, sc_word *exp, sc_word *mant)
+{
+	memcpy(exp,  _exp(val),  value_size);
+	memcpy(mant, _mant(val), value_size);
+	if (val->clss == FC_SUBNORMAL) {
+		unsigned effective_mantissa
+			= val->desc.mantissa_size - val->desc.explicit_one;
+		int shift = (int)(ROUNDING_BITS + effective_mantissa)
+		          - sc_get_highest_set_bit(mant);
+		sc_shlI(mant, shift, mant);
+		/* an exponent of zero means the same as an exponent of one */
+		sc_val_from_long(1 - shift, exp);
+	}
+}
+
 void fc_mul(const fp_value *a, const fp_value *b, fp_value *result)
 {
 	fc_exact = true;
@@ -440,18 +459,21 @@ void fc_mul(const fp_value *a, const fp_value *b, fp_value *result)
 		return;
 	}
 
+	sc_word *exp_a  = ALLOCAN(sc_word, value_size);
+	sc_word *exp_b  = ALLOCAN(sc_word, value_size);
+	sc_word *mant_a = ALLOCAN(sc_word, value_size);
+	sc_word *mant_b = ALLOCAN(sc_word, value_size);
+	get_normalized(a, exp_a, mant_a);
+	get_normalized(b, exp_b, mant_b);
+
 	/* exp = exp(a) + exp(b) - excess */
-	sc_add(_exp(a), _exp(b), _exp(result));
+	sc_add(exp_a, exp_b, _exp(result));
 
 	sc_word *temp = ALLOCAN(sc_word, value_size);
 	sc_val_from_ulong((1 << (a->desc.exponent_size - 1)) - 1, temp);
 	sc_sub(_exp(result), temp, _exp(result));
 
-	/* mixed normal, subnormal values introduce an error of 1, correct it */
-	if ((a->clss == FC_SUBNORMAL) ^ (b->clss == FC_SUBNORMAL))
-		sc_inc(_exp(result));
-
-	sc_mul(_mant(a), _mant(b), _mant(result));
+	sc_mul(mant_a, mant_b, _mant(result));
 
 	/* realign result: after a multiplication the digits right of the radix
 	 * point are the sum of the factors' digits after the radix point. As all
@@ -520,16 +542,19 @@ void fc_div(const fp_value *a, const fp_value *b, fp_value *result)
 		return;
 	}
 
+	sc_word *exp_a  = ALLOCAN(sc_word, value_size);
+	sc_word *exp_b  = ALLOCAN(sc_word, value_size);
+	sc_word *mant_a = ALLOCAN(sc_word, value_size);
+	sc_word *mant_b = ALLOCAN(sc_word, value_size);
+	get_normalized(a, exp_a, mant_a);
+	get_normalized(b, exp_b, mant_b);
+
 	/* exp = exp(a) - exp(b) + excess - 1*/
 	sc_word *temp = ALLOCAN(sc_word, value_size);
-	sc_sub(_exp(a), _exp(b), _exp(result));
+	sc_sub(exp_a, exp_b, _exp(result));
 	sc_val_from_ulong((1 << (a->desc.exponent_size - 1)) - 2, temp);
 	sc_add(_exp(result), temp, _exp(result));
 
-	/* mixed normal, subnormal values introduce an error of 1, correct it */
-	if ((a->clss == FC_SUBNORMAL) ^ (b->clss == FC_SUBNORMAL))
-		sc_inc(_exp(result));
-
 	/* mant(res) = mant(a) / 1/2mant(b) */
 	/* to gain more bits of precision in the result the dividend could be
 	 * shifted left, as this operation does not loose bits. This would not
@@ -537,11 +562,11 @@ void fc_div(const fp_value *a, const fp_value *b, fp_value *result)
 	 * are always zero because the values are all normalized) the divisor
 	 * can be shifted right instead to achieve the same result */
 	sc_word *dividend = ALLOCAN(sc_word, value_size);
-	sc_shlI(_mant(a), (result->desc.mantissa_size - result->desc.explicit_one)
+	sc_shlI(mant_a, (result->desc.mantissa_size - result->desc.explicit_one)
 	                  + ROUNDING_BITS, dividend);
 
 	sc_word *divisor = ALLOCAN(sc_word, value_size);
-	sc_shrI(_mant(b), 1, divisor);
+	sc_shrI(mant_b, 1, divisor);
 	bool sticky = sc_div(dividend, divisor, _mant(result));
 	fc_exact &= !sticky;
 
-- 
2.43.0


From 31832b8bfda41060469d6866aa7fd63cb2db38d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:04 +0000
Subject: [PATCH 108/113] fix: exactness of float constants: overflowing
 inverses and rounded comparison constants

---
 ir/opt/iropt.c  | 4 +++-
 ir/tv/fltcalc.c | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 5e88107..e0be092 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -5261,7 +5261,9 @@ cmp_x_eq_0:
 			tarval_set_wrap_on_overflow(false);
 			ir_tarval *new_tv = tarval_convert_to(tv, mode_left);
 			tarval_set_wrap_on_overflow(old_wrap_on_overflow);
-			if (tarval_is_constant(new_tv)) {
+			/* the constant must not be rounded */
+			if (tarval_is_constant(new_tv)
+			    && tarval_convert_to(new_tv, mode) == tv) {
 				left    = op_left;
 				right   = new_r_Const(irg, new_tv);
 				changed = true;
diff --git a/ir/tv/fltcalc.c b/ir/tv/fltcalc.c
index 4f6713e..12afc4e 100644
--- a/ir/tv/fltcalc.c
+++ b/ir/tv/fltcalc.c
@@ -244,6 +244,7 @@ static bool normalize(fp_value *val, bool sticky)
 			fc_get_max(&val->desc, val, val->sign);
 			break;
 		}
+		exact = false;
 	}
 	return exact;
 }
-- 
2.43.0


From 24ed4fdfe0002cc9f0fbe831e5d79a0bf9fd4791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:04 +0000
Subject: [PATCH 109/113] fix: boolean optimization used stale relations and
 non-constant operands of a negated Cmp

---
 ir/opt/boolopt.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/ir/opt/boolopt.c b/ir/opt/boolopt.c
index 28dc0b9..0ae7455 100644
--- a/ir/opt/boolopt.c
+++ b/ir/opt/boolopt.c
@@ -569,7 +569,12 @@ static void move_nodes_to_block(ir_node *jmp, ir_node *to_block)
 		exchange(jmp, new_jmp);
 }
 
-static void normalize_cmp(ir_node **io_cmp, ir_relation *io_rel, ir_tarval **io_tv)
+/**
+ * Negate a Cmp of a pair.
+ *
+ * @return false if the result is neither constant nor compares with a constant
+ */
+static bool normalize_cmp(ir_node **io_cmp, ir_relation *io_rel, ir_tarval **io_tv)
 {
 	ir_node     *cmp   = *io_cmp;
 	ir_relation  rel   = *io_rel;
@@ -583,9 +588,14 @@ static void normalize_cmp(ir_node **io_cmp, ir_relation *io_rel, ir_tarval **io_
 		*io_rel &= ~ir_relation_unordered;
 	}
 	*io_cmp = new_rd_Cmp(dbgi, block, left, right, *io_rel);
-	if (is_Cmp(*io_cmp)) {
-		*io_tv  = get_Const_tarval(get_Cmp_right(*io_cmp));
-	}
+	if (is_Const(*io_cmp))
+		return true;
+	if (!is_Cmp(*io_cmp) || !is_Const(get_Cmp_right(*io_cmp)))
+		return false;
+	/* construction may have changed the Cmp */
+	*io_rel = get_Cmp_relation(*io_cmp);
+	*io_tv  = get_Const_tarval(get_Cmp_right(*io_cmp));
+	return true;
 }
 
 /**
@@ -684,20 +694,24 @@ restart:
 
 			/* normalize pncs: we need the true case to jump into the
 			 * common block (i.e. conjunctive normal form) */
+			bool ok = true;
 			if (get_Proj_num(lower_cf) == pn_Cond_false) {
 				if (cpair.cmp_lo == cond_selector) {
-					normalize_cmp(&cpair.cmp_lo, &cpair.rel_lo, &cpair.tv_lo);
+					ok &= normalize_cmp(&cpair.cmp_lo, &cpair.rel_lo, &cpair.tv_lo);
 				} else {
-					normalize_cmp(&cpair.cmp_hi, &cpair.rel_hi, &cpair.tv_hi);
+					ok &= normalize_cmp(&cpair.cmp_hi, &cpair.rel_hi, &cpair.tv_hi);
 				}
 			}
 			if (get_Proj_num(upper_cf) == pn_Cond_false) {
 				if (cpair.cmp_lo == upper_cond_selector) {
-					normalize_cmp(&cpair.cmp_lo, &cpair.rel_lo, &cpair.tv_lo);
+					ok &= normalize_cmp(&cpair.cmp_lo, &cpair.rel_lo, &cpair.tv_lo);
 				} else {
-					normalize_cmp(&cpair.cmp_hi, &cpair.rel_hi, &cpair.tv_hi);
+					ok &= normalize_cmp(&cpair.cmp_hi, &cpair.rel_hi, &cpair.tv_hi);
 				}
 			}
+			/* the constants must still be in order */
+			if (!ok || tarval_cmp(cpair.tv_lo, cpair.tv_hi) == ir_relation_greater)
+				continue;
 
 			/* can we optimize the case? */
 			replacement = bool_or(&cpair, upper_block);
-- 
2.43.0


From 19c20f6a57d8d5de49eb57a05239521f286c920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:47 +0000
Subject: [PATCH 110/113] fix: walking the blocks of a graph ends at an
 operation that is no control flow

---
 ir/ir/irgwalk.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ir/ir/irgwalk.c b/ir/ir/irgwalk.c
index 42b3385..80c4bce 100644
--- a/ir/ir/irgwalk.c
+++ b/ir/ir/irgwalk.c
@@ -298,8 +298,11 @@ void irg_walk_topological(ir_graph *irg, irg_walk_func *walker, void *env)
 static ir_node *get_cf_op(ir_node *n)
 {
 	while (!is_cfop(n) && !is_fragile_op(n) && !is_Bad(n)) {
-		n = skip_Tuple(n);
-		n = skip_Proj(n);
+		ir_node *const skipped = skip_Proj(skip_Tuple(n));
+		/* an invalid graph (the verifier walks those, too) */
+		if (skipped == n)
+			break;
+		n = skipped;
 	}
 	return n;
 }
-- 
2.43.0


From d5c4b7aefb3e411cfc0e8d4510255df0d27db6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:47 +0000
Subject: [PATCH 111/113] fix: decrementing a bitset does not borrow from the
 next word when the top bit falls

---
 ir/adt/raw_bitset.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ir/adt/raw_bitset.h b/ir/adt/raw_bitset.h
index b8d51af..710c4d5 100644
--- a/ir/adt/raw_bitset.h
+++ b/ir/adt/raw_bitset.h
@@ -542,10 +542,10 @@ static inline void rbitset_minus1(unsigned *bitset, size_t size)
 							? rbitset_last_mask_(size)
 							: ~0u;
 		unsigned val        = bitset[i] & mask;
-		unsigned val_minus1 = val - 1;
-		bitset[i] = val_minus1 & mask;
+		bitset[i] = (val - 1) & mask;
 
-		if (((val >> (BITS_PER_ELEM-1)) ^ (val_minus1 >> (BITS_PER_ELEM-1))) == 0)
+		/* only an element without any bit set borrows from the next one */
+		if (val != 0)
 			break;
 	}
 }
-- 
2.43.0


From 058492d57e978bf2dc470e0d85bbb0d95fb15ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:47 +0000
Subject: [PATCH 112/113] fix: the unroll factor of a huge iteration count is
 found fast and without truncation

---
 ir/opt/loop_unrolling.c | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/ir/opt/loop_unrolling.c b/ir/opt/loop_unrolling.c
index 614c872..a67acb8 100644
--- a/ir/opt/loop_unrolling.c
+++ b/ir/opt/loop_unrolling.c
@@ -244,21 +244,11 @@ static unsigned find_optimal_factor(unsigned long number, unsigned max) {
 		// loop can be unrolled completely
 		return (unsigned) number;
 	}
-	unsigned i;
-	for (i = 2; i <= number / 2; i++) {
-		if (number % i == 0) {
-			// found a small divisor i -> number/i is a large divisor of number
-			if ((number / i) <= max) {
-				unsigned candidate = (unsigned) number / i;
-				// limit to powers of two for now
-				if ((candidate != 0) && ((candidate & (candidate - 1)) == 0)) {
-					return candidate;
-				}
-
-			}
-		}
-	}
-	return 0;
+	// find the largest divisor that is a power of two (limited to those for now)
+	unsigned factor = 1;
+	while (factor <= max / 2 && number % (2ul * factor) == 0)
+		factor *= 2;
+	return factor > 1 ? factor : 0;
 }
 
 /**
-- 
2.43.0


From 4d3e41fa972c89fda8c030969e439f887f9079d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:59 +0000
Subject: [PATCH 113/113] fix: verification reports a Sub of a mode without
 arithmetic and a loop Phi that is no memory

---
 ir/ir/irverify.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ir/ir/irverify.c b/ir/ir/irverify.c
index caf0803..e97c0a5 100644
--- a/ir/ir/irverify.c
+++ b/ir/ir/irverify.c
@@ -683,6 +683,9 @@ static int verify_node_Sub(const ir_node *n)
 		fine &= check_mode_same_input(n, n_Sub_left, "left");
 		ir_mode *offset_mode = get_reference_offset_mode(mode);
 		fine &= check_input_mode(n, n_Sub_right, "right", offset_mode);
+	} else {
+		warn(n, "mode must be numeric or reference but is %+F", mode);
+		fine = false;
 	}
 	return fine;
 }
@@ -874,7 +877,7 @@ static int verify_node_Phi(const ir_node *n)
 	}
 
 	if (get_Phi_loop(n))
-		check_mode(n, mode_M);
+		fine &= check_mode(n, mode_M);
 	return fine;
 }
 
-- 
2.43.0

