#pragma once
#include "mir.h"
#include "solver.h"
#include <unordered_set>
#include <array>
#include <functional>
#include <cstring>

struct Val { EP e = nullptr; u64 c = 0; };
enum ObjKind : u8 { OK_GLOBAL, OK_STACK, OK_HEAP };
struct Obj {
	int refs = 1; u64 base = 0, size = 0; ObjKind kind = OK_HEAP; bool freed = false, ro = false;
	std::vector<u8> d; std::vector<EP> s; std::vector<u8> und;
};
struct Chunk { int refs = 1; Obj *o[256]; };

struct Frame {
	MFunc *f; int pc; int retdst; u8 retw;
	std::vector<Val> regs; std::vector<u64> allocas; std::vector<Val> varargs; std::vector<u8> varargw;
};
struct SymRec { std::string name; std::vector<u32> vars; std::vector<int> widths; };
typedef std::array<u64, 4> Dom;

struct State {
	u64 id = 0;
	std::vector<Frame> st;
	std::vector<Chunk *> chunks;
	u64 nextObj = 1;
	std::vector<EP> cons; std::unordered_set<EP> known;
	std::map<u32, Dom> dom; std::vector<bool> ent;
	Model model;
	std::vector<SymRec> syms; std::map<std::string, int> symCount;
	std::map<EP, std::vector<EP>> digits;	// decimal renderings already fixed on this path
	u64 instrs = 0, depth = 0, heapLive = 0;
	bool incomplete = false;
	std::vector<std::string> log, trace; bool ended = false, bad = false;
	State() {}
	State(const State &o);
	State &operator=(const State &) = delete;
	~State();
	Obj *get(u64 id) const { size_t c = id >> 8; if (c >= chunks.size() || !chunks[c]) return nullptr; return chunks[c]->o[id & 255]; }
	Obj *getW(u64 id);	// private, writable copy
	void put(u64 id, Obj *o);
};

struct Violation { std::string kind, msg, loc, stack; std::vector<std::pair<std::string, std::string>> vals; u64 path; std::vector<std::string> log; };

extern MModule *MM;
struct Limits { double time = 1e18; u64 maxPaths = ~0ULL; u64 maxInstr = 200000000ULL; unsigned maxViol = 8; };
extern Limits g_lim;
extern std::vector<Violation> g_viol;
extern std::map<std::string, i64> g_params; extern std::map<std::string, std::string> g_sparams;

// Decide a branch: true/false when known; forks when both are possible.
enum Dec { D_TRUE, D_FALSE, D_DEAD };
Dec decide(State &s, EP c);
void violation(State &s, const std::string &kind, const std::string &msg);
bool addCons(State &s, EP c);
EP exprOf(const Val &v, int w);
void setVal(Val &d, EP e);
bool resolve(State &s, const Val &p, u64 n, u64 &objid, u64 &off, const char *what);	// forks to a concrete offset
bool concretize(State &s, const Val &v, int w, u64 &out);
Val loadByte(const Obj *o, u64 off);
void storeByte(Obj *o, u64 off, const Val &v);
u64 allocObj(State &s, u64 size, ObjKind k, bool undef);
bool callBuiltin(State &s, MInst &mi, MFunc *f, std::vector<Val> &args, Val &ret, bool &done);
int builtinByName(const std::string &n);
extern u64 g_reachSeq; extern std::map<std::string, u64> g_reach; extern std::map<std::string, u64> g_asserts;
extern u64 g_nforks, g_domDec;
struct Sample { std::vector<std::pair<std::string, std::string>> vals; std::vector<std::string> trace; };
std::vector<std::pair<std::string, std::string>> inputsOf(const State &s);
