// Engine-internal form of the LLVM modules under analysis.
#pragma once
#include "expr.h"
#include <map>

enum MOp : u8 { M_BIN, M_ICMP, M_SELECT, M_ZEXT, M_SEXT, M_TRUNC, M_LOAD, M_STORE, M_GEP, M_ALLOCA,
	M_BR, M_CBR, M_SWITCH, M_RET, M_CALL, M_UNREACH, M_FBIN, M_FCMP, M_FCAST, M_COPY, M_OVF, M_INTRIN, M_UNSUP };
struct Opd { int reg = -1; u64 c = 0; };
struct PhiCopy { int dst; Opd src; };
struct Edge { int target = 0; std::vector<PhiCopy> copies; };
enum { FB_ADD, FB_SUB, FB_MUL, FB_DIV, FB_REM, FB_NEG };
enum { FC_FPTOSI, FC_FPTOUI, FC_SITOFP, FC_UITOFP, FC_FPEXT, FC_FPTRUNC };
enum { IN_MEMCPY, IN_MEMSET, IN_UMAX, IN_UMIN, IN_SMAX, IN_SMIN, IN_ABS, IN_CTPOP, IN_CTLZ, IN_CTTZ, IN_BSWAP, IN_FSHL, IN_FSHR,
	IN_VASTART, IN_VACOPY, IN_NOP, IN_TRAP, IN_USUBSAT, IN_UADDSAT, IN_FABS, IN_OBJSIZE, IN_ASSUME };

struct MFunc;
struct MInst {
	MOp op; u8 w = 0, w2 = 0, sub = 0, neg = 0;	// w: result width; w2: source width
	int dst = -1;
	Opd a, b, c;
	int line = 0; int file = -1;
	u64 imm = 0;				// gep offset, alloca size, ovf kind
	std::vector<std::pair<Opd, i64>> idx;	// gep: (index, scale); width in idxw
	std::vector<u8> idxw;
	std::vector<Opd> args; std::vector<u8> argw;
	std::vector<std::pair<u64, Edge>> cases;
	Edge e0, e1;
	MFunc *callee = nullptr;
	bool vararg = false; int nfixed = 0;
};
struct MFunc {
	std::string name, file; int id = 0; u64 addr = 0;
	bool defined = false, vararg = false;
	int nargs = 0, nslots = 0, retw = 0;
	std::vector<int> argslot; std::vector<u8> argw;
	std::vector<MInst> code;
	std::vector<int> blockStart;		// for coverage
	std::vector<u8> isBlockStart;
	int builtin = -1;
	u64 hits = 0;
	std::vector<u8> cov;
};
struct MGlobal { std::string name; u64 size; bool ro; std::vector<u8> init; int objid; u64 addr; };
struct MModule {
	std::vector<MFunc *> funcs;
	std::vector<MGlobal> globals;
	std::vector<std::string> files;
	std::map<std::string, MFunc *> byName;
	u64 nextObj = 1;
};
// address layout: object n occupies [n << OBJSHIFT, ...)
static const int OBJSHIFT = 24;
static const u64 FUNCBASE = 0x700000000000ULL;
MModule *loadModule(const std::string &path, std::string &err);
