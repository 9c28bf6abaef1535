/* access to a few libfirm internals a frontend in the same tree would use */
#include <stdbool.h>
#include "target_t.h"
#include "irnode_t.h"
#include "lowering.h"
#include "irgraph_t.h"
#include "irgopt.h"

static int mux_cb(ir_node *mux)
{
	return !ir_target.allow_ifconv(get_Mux_sel(mux), get_Mux_false(mux), get_Mux_true(mux));
}
void shim_lower_mux(ir_graph *irg, int all) { lower_mux(irg, all ? (lower_mux_callback*)0 : mux_cb); }
int  shim_is_constrained(ir_graph *irg, unsigned c) { return irg_is_constrained(irg, (ir_graph_constraints_t)c); }
unsigned long shim_arr_len(ir_node **a) { return ARR_LEN(a); }
int  shim_ptr_size(void) { return ir_target.isa->pointer_size; }
/* triage: print the (scheduled) backend graph */
#include <stdio.h>
#include "besched.h"
#include "bearch.h"
#include "benode.h"
#include "irgwalk.h"
#include "iredges_t.h"
#include "irprintf.h"
static void shim_dump_blk(ir_node *b, void *env)
{
	FILE *f = (FILE*)env; ir_fprintf(f, "%+F  preds", b); for (int i = 0; i < get_Block_n_cfgpreds(b); ++i) ir_fprintf(f, " %+F(%+F)", get_Block_cfgpred(b, i), get_nodes_block(get_Block_cfgpred(b, i))); fputc('\n', f);
	sched_foreach(b, n) {
		ir_fprintf(f, "   %+F", n);
		be_foreach_value(n, v, if (v != n || get_irn_mode(n) != mode_T) { const arch_register_t *r = arch_get_irn_register(v); ir_fprintf(f, " {%+F %s}", v, r ? r->name : "-"); });
		fputs(" <-", f); foreach_irn_in(n, i, p) { ir_fprintf(f, " %+F", p); if (is_Proj(p)) ir_fprintf(f, "(%+F)", get_Proj_pred(p)); } fputc('\n', f);
	}
}
void shim_dump(ir_graph *irg, const char *name) { irg->reserved_resources = IR_RESOURCE_NONE; FILE *f = fopen(name, "w"); irg_block_walk_graph(irg, NULL, shim_dump_blk, f); fclose(f); }
void (*sim_atexit_fn[8])(void);
unsigned sim_atexit_n;
int sim_atexit(void (*f)(void)) { if (sim_atexit_n == 8) return -1; sim_atexit_fn[sim_atexit_n++] = f; return 0; }
void shim_intrinsics(void) { if (ir_target.isa->handle_intrinsics) for (size_t i = 0; i < get_irp_n_irgs(); ++i) ir_target.isa->handle_intrinsics(get_irp_irg(i)); }
