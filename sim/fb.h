// MiniC -> Firm through libfirm's public construction interface
#pragma once
#include "prog.h"
extern "C" {
#include <libfirm/firm.h>
}
struct BuildCfg { std::string prefix = ""; u64 seed = 0; bool member = true; int matureStyle = 0; bool ptr32 = false; };
struct Built { std::vector<ir_entity *> fn, gl; };
Built build_firm(const Prog &P, const BuildCfg &c);
ir_mode *firm_mode(Mode m);
Mode mode_of(ir_mode *m);
// libfirm process life cycle + target set up
struct TargetCfg { std::string triple = "x86_64-linux-gnu"; std::vector<std::string> opts; };
bool firm_start(const TargetCfg &t);     // ir_init, ir_target_set, options, ir_target_init
TargetCfg draw_target(int kind, bool richOptions, bool native = true); // 0 amd64, 1 ia32, 2.. others
void verify_all(const char *stage);      // violation when a graph does not verify
// pass histories
struct PassStep { int pass; int irg; u64 arg; };
extern const char *pass_name(int p);
int  pass_count();
std::vector<PassStep> draw_passes(int maxLen, bool lowered);
void run_pass(const PassStep &s);
std::string passes_text(const std::vector<PassStep> &v);
void finish_for_backend(u64 muxSeed);    // what every frontend does before be_main
// native execution
struct NativeRes { enum K { OK, CRASH, HANG, TOOL } k = OK; int sig = 0; std::vector<u64> t; std::string err; };
NativeRes run_native(const Prog &P, bool is32, const std::string &asmText, const std::string &prefix, bool soft = false, std::vector<u64> *prof = nullptr); // prof: what an instrumented program registered (hash of the name, number, counters)
bool pass_is_irp(int p);
bool same_trace(const std::vector<u64> &a, const std::vector<u64> &b, std::string &diff);
