// Random script programs, their text, and a reference interpreter for them.
//
// A program is generated as a small syntax tree, run by the reference
// interpreter (which draws the outcome of every native call: a value or a
// failure), and printed as a script.  The real interpreter then runs the
// script; each externally visible operation it performs is compared at once
// with the sequence the reference interpreter predicted.
#pragma once
#include "sim.h"
#include "world.h"
#include <deque>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace lang {

enum EK {	// expressions
	Lit, Var, FieldV, Glob, ReadI, Add, Sub, Mul, Tern, Call, MCall, Chain, GetV, AssignX, Div, Mod, Neg, GetW, GlobV, GlobW, GlobM, ChildV, ChildW, STern, CastV, IncX, AtX,	// int
	BTrue, ReadB, Lt, Eq, And, Or, Not, ObjLess, IsR, BVar, ObjEq, NandX,							// bool
	New, RVar, RCall, RSelf, RCopy, RPlus, RValid, RUp																	// object
};

struct Expr {
	EK k; int a = 0, b = 0;
	std::vector<Expr*> c;
};

enum SK {
	SEv, SVal, SDecl, SDeclR, SAssign, SAssignR, SNullR, SGlobR, SFieldR, SIf, SWhile, SFor, SForeach, SSwitch, SBlock,
	STry, SReturn, SReturnR, SReturnVoid, SBreak, SContinue, SThrow, SRethrow, SExit, SExpr, SWriteI, SDump, SCycle, SNoop, SFieldW, SGlobU, SChildW,
	SDeclB, SAssignB, SDeclS, SAppendS, SPrintS, SAssert, SArgs, SChurn, SLong
};

struct Stmt;
struct Block { std::vector<Stmt*> s; int line = 0; int endLine = 0; };
struct Catch { int type = 0; int slot = -1; std::string name; Block body; int ev = 0; int line = 0; };	// type: see ExcKind, -1 = any

struct Stmt {
	SK k; int a = 0, b = 0, c = 0; int line = 0;
	Expr* e = nullptr; Expr* e2 = nullptr;
	std::vector<Expr*> es;
	std::string name;
	int slot = -1;
	Block b1, b2;
	bool has2 = false, noBraces = false;
	std::vector<Catch> catches;
	std::vector<std::pair<int, Block>> cases;
	std::vector<std::pair<std::string, std::pair<int,int>>> vars;	// for dumps: name, (kind, slot)
};

enum ExcKind { XInt = 0, XStr = 1, XX0 = 2, XX1 = 3, XY0 = 4, XNative = 5, XObj = 6, XX2 = 7, XY1 = 8, XGInt = 9, XGStr = 10, XIX = 11, XFloat = 12, XDouble = 13, XBool = 14, XAny = -1 };

struct Var_ { std::string name; int slot; bool isR; bool isConst = false; int kind = 0; };	// kind: 1 bool, 2 string

struct Func {
	std::string name;
	int ints = 0;			// number of int parameters
	int defaults = 0;		// trailing parameters with default value
	int rParam = 0;			// number of object parameters
	bool returnsR = false;
	bool method = false, ctor = false;
	bool recursive = false;
	int place = 0;			// 1 in a namespace, 2 a static method
	int slots = 0;
	std::vector<Var_> params;
	std::vector<int> defVals;
	Block body;
	int line = 0;
};

struct Profile {
	bool throws = false, nativeFail = false, finally_ = false, objects = false, exits = false;
	bool shadow = false, dumps = false, opThrow = false, globalsObj = false, foreach_ = true, cycles = false, noops = false;
	bool types = false;			// bool and string variables, also in dumps
	bool ops = false;			// operations that can fail by themselves: division, access through null; members, objects that lose their last reference inside
	int size = 40;
	int maxDepth = 4;
	int failRate = 60;			// per 1000 native calls
	bool terminalOnly = false;	// natives only print (no device reads)
	int dumpRate = 4;
	bool showArgs = false;		// Main prints its arguments
	std::vector<std::string> args;
	int longChain = 0;			// Main first drops a chain of objects of this length
	int churn = 0;				// Main first repeats failing work this often
	bool mods = false;			// variables are modified from outside at dumps
	void drawArgs();
	int files = 0;				// objects own a file: 1 as member, 2 by inheritance; destruction is seen as the file being closed
};

struct Program {
	std::deque<Expr> exprs;
	std::deque<Stmt> stmts;
	std::vector<Func> funcs;	// last one is Main; index order = call order (callers first in list? see lang.cpp)
	int mainIndex = 0, ctorIndex = -1, opIndex = -1;
	int globals = 2;		// the third one is in a namespace
	bool usesObjects = false, cycles = false, noops = false, exitDtor = false, churn = false, longChain = false;
	int operators = 0;		// objects can be copied, added to, compared and converted (2: without asking a device)
	int dtor = 0;			// how the destructor gets at the object: 0 directly, 1 by a variable, 2 by a method, 3 by an argument, 4.. see lang.cpp
	int files = 0;
	std::string text;
	std::vector<std::string> lines;
};

// one prediction of the reference interpreter
struct Item {
	enum Kind { Out, ReadInt, ReadBool, WriteInt, May, Must, Mark } k;
	std::string text;		// Out: the line; wildcard '*' at the end allowed
	int fd = 0;				// device number
	int value = 0;			// result of a read / value written
	bool fail = false;		// the call fails
	int err = 0;
	int id = 0;				// object of May/Must
	int line = 0;
	int site = 0;
};

struct Expectation {
	std::vector<Item> items;
	int status = 0;				// exit status
	bool uncaught = false, exited = false;
	long steps = 0;
	bool tooLong = false;
	int nativeCalls = 0, failures = 0, throws = 0, thrownObjects = 0, handled = 0, finallies = 0, objects = 0, unwound = 0, builtins = 0;
	// statement trace for the debugger checks
	struct Step {
		enum Kind { Statement, Enter, Exit, Throw, Catch } k;
		int line; int depth;
		long hard;			// effects that happened before
		bool leaf;			// a statement without others inside
		std::string name;	// function entered or left
		struct Shown { std::string first; int second; int kind; std::string text; };	// kind 0 int, 1 bool, 2 string
		std::vector<Shown> vars;	// variables in scope with their values, for dumps
		struct Value { std::string name; int value; int frame; std::string text; };
		std::vector<Value> mods;	// variables to be modified in the debugger
		std::vector<Value> outer;	// parameters of the functions that wait for this one, for dumps
	};
	std::vector<Step> trace;
	long hard = 0;
};

void generate(Program& p, const Profile& pr);
void print(Program& p);
void reference(Program& p, const Profile& pr, Expectation& ex);

constexpr int DEV_BASE = 1000;		// first device descriptor
constexpr int DEV_ID = 1098, DEV_DTOR = 1099, DEV_NEXT = 1091, DEV_ITER = 1092;

// Compares the operations of the real interpreter with the prediction.
struct Matcher {
	Expectation* ex = nullptr;
	size_t pos = 0;
	std::set<int> may, dead;
	std::set<int> exempt;		// objects whose destruction cannot be observed
	std::string cls;			// class prefix
	std::string partial;
	bool ended = false;
	uint64_t compared = 0;
	long hard = 0;				// effects seen so far
	void attach(Expectation& e);
	long onRead(int fd, void* buf, size_t n);
	long onWrite(int fd, const void* buf, size_t n);
	void onLine(const std::string& line);
	void onBytes(const std::string& bytes);		// splits into lines, ignores those without '#'
	void finish(int status);
	void destroyed(int id);
	Item* next(const std::string& what);
	std::string describe() const;
	void fail(const std::string& kind, const std::string& msg);
};

void installDevices(Matcher& m);

}
