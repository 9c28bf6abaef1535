// shared by the property drivers: one compilation in a simulated process
#pragma once
#include "fb.h"
SubCfg draw_machine();                    // heap layout, junk, clock, pid, rand, stack of one simulated machine
SubCfg plain_machine();                   // the canonical machine
std::string emit_asm(const char *name = "unit"); // be_main into memory (inside a simulated process)
std::string export_text();                // ir_export_file into memory (inside a simulated process)
struct Job { Prog P; Trace ref; TargetCfg tgt; BuildCfg bc; std::vector<PassStep> hist; bool soft = false; bool is32 = false; };
enum { J_FLOATS = 1, J_RICH = 2, J_SAFE = 4, J_NOPASS = 8 };
bool draw_job(Job &j, bool floats, int scale, int kind, bool rich, int maxPasses, bool native = true); // false: program over budget
void compile_job(const Job &j, bool verifyEach, bool log = true);  // inside a simulated process; leaves graphs lowered for be_main
void optimise_job(const Job &j, bool verifyEach, bool log = true); // as compile_job without the final lowering
void check_native(const Job &j, const std::string &asmText, const char *what);
std::string first_diff(const std::string &a, const std::string &b); // line oriented description
u64 job_hash(const Job &j);
DiskCfg draw_slow_disk();                 // short transfers and odd buffer sizes, but no errors
std::string native_verdict(const Job &j, const std::string &asmText); // "" when the emitted code behaves as the reference
void zoo_build(u64 seed);                         // add a module exercising every attribute of the representation
std::string ir_snapshot();                // the whole program read through public getters
bool snapshot_diff(const std::string &a, const std::string &b, std::string &key, std::string &what);
// graph interpreter: executes the program in the process's graphs, with a seeded order of independent memory operations
struct IRun { enum K { OK, STUCK, LIMIT, UNSUPPORTED } k = OK; std::string why; std::vector<u64> t; u64 steps = 0; };
struct IProbe { std::map<long, u64> runs; std::string entity; std::vector<u8> bytes; bool vague = false; }; // executions per block number; final contents of one entity
IRun interpret(const Prog &P, const std::string &prefix, u64 seed, u64 limit, IProbe *pr = nullptr);
void check_interp(const Job &j, u64 seed, const char *after); // violation when the graphs no longer behave as the reference
