#include "lang.h"
#include <cerrno>
#include <cstring>

using sim::draw;
using sim::drawWeighted;
using sim::chance;
using sim::range;
using sim::fmt;

namespace lang {

// ---------------------------------------------------------------------------
// Generation
// ---------------------------------------------------------------------------

// operators of the generated objects; the k-th operator adds its operand and k
static const char* const OPERATORS[] = { "+", "-", "*", "/", "%", "&", "|", "<<", ">>" };
static const char* const COMPARISONS[] = { "<", "<=", ">", ">=" };

namespace {

static std::string globalName(int i) { return fmt(i < 2 ? "g%d" : "NG.g%d", i); }

struct Gen {
	Program& p;
	const Profile& pr;
	int fi = 0;									// function being generated
	std::vector<std::vector<Var_>> scopes;
	int loops = 0, catches = 0, budget = 0, evs = 0, sites = 0, names = 0, switches = 0, loopNest = 0;

	Gen(Program& p_, const Profile& pr_) : p(p_), pr(pr_) {}

	Func& f() { return p.funcs[fi]; }
	Expr* mk(EK k, int a = 0, int b = 0) { p.exprs.push_back(Expr()); Expr* e = &p.exprs.back(); e->k = k; e->a = a; e->b = b; return e; }
	Stmt* ms(SK k) { p.stmts.push_back(Stmt()); p.stmts.back().k = k; return &p.stmts.back(); }

	static int thrown() {
		static const int kinds[] = { XInt, XStr, XX0, XX1, XY0, XX2, XY1, XGInt, XGStr, XFloat, XDouble, XBool };
		return kinds[drawWeighted({6, 4, 6, 4, 4, 2, 2, 2, 2, 1, 1, 1})];
	}

	std::vector<Var_> visible(bool r, bool writable = false, int kind = 0) {
		std::vector<Var_> out;
		std::set<std::string> seen;
		for ( auto it = scopes.rbegin(); it != scopes.rend(); ++it ) {
			for ( auto v = it->rbegin(); v != it->rend(); ++v ) {
				if ( !seen.insert(v->name).second ) continue;
				if ( v->isR == r && v->kind == kind && !(writable && v->isConst) ) out.push_back(*v);
			}
		}
		return out;
	}
	// object variables that are always set; names starting with h may be null
	std::vector<Var_> objects() {
		std::vector<Var_> out;
		for ( auto& v : visible(true) ) if ( v.name[0] != 'h' ) out.push_back(v);
		return out;
	}
	int newSlot() { return f().slots++; }
	std::string pickName(const char* prefix) {
		if ( pr.shadow && draw(3) == 0 ) {		// a small pool of names: shadowing outer variables
			std::string n = fmt("%s%u", prefix, 90 + draw(3));
			for ( auto& v : scopes.back() ) if ( v.name == n ) return fmt("%s%d", prefix, names++);
			return n;
		}
		return fmt("%s%d", prefix, names++);
	}
	static bool uses(Expr* e, const std::string& name, Gen& g) {
		if ( (e->k == Var || e->k == RVar || e->k == MCall || e->k == Chain || e->k == GetV || e->k == AssignX || e->k == ObjLess || e->k == IsR || e->k == RSelf || e->k == RValid || e->k == GetW || e->k == ChildV || e->k == ChildW || e->k == IncX || e->k == AtX)
		     && g.nameOf[e] == name ) return true;
		for ( auto c : e->c ) if ( uses(c, name, g) ) return true;
		return false;
	}
	std::map<Expr*, std::string> nameOf;

	Expr* var(EK k, const Var_& v) { Expr* e = mk(k, v.slot); nameOf[e] = v.name; return e; }
	Expr* readI() { return mk(ReadI, DEV_BASE + (sites++ % 88)); }
	Expr* readB() { return mk(ReadB, DEV_BASE + (sites++ % 88)); }

	std::vector<int> callable(bool method, bool returnsR) {
		std::vector<int> out;
		for ( int i = fi + 1; i < (int)p.funcs.size(); ++i ) {
			Func& g = p.funcs[i];
			if ( g.ctor || i == p.opIndex ) continue;
			if ( g.method == method && g.returnsR == returnsR ) {
				if ( g.rParam && !pr.objects ) continue;
				out.push_back(i);
			}
		}
		return out;
	}
	bool canMake() { return pr.objects && p.ctorIndex > fi; }

	// plain: no variables (the arguments of a chained call are looked up in the called object)
	void args(Expr* e, int target, int d, bool plain = false) {
		Func& g = p.funcs[target];
		for ( int i = 0; i < g.rParam; ++i ) {
			Expr* r;
			if ( plain ) { r = mk(New); r->c = { mk(Lit, range(0, 3)) }; }
			else r = object(d - 1);
			e->c.push_back(r);
		}
		int n = g.ints;
		if ( g.defaults && draw(2) ) n -= range(0, g.defaults);
		for ( int i = 0; i < n; ++i ) {
			if ( i == 0 && g.recursive ) { e->c.push_back(mk(Lit, range(0, pr.dumps && draw(8) == 7 ? 30 : 3))); continue; }
			if ( plain ) e->c.push_back(pr.terminalOnly || draw(2) ? mk(Lit, range(0, 5)) : readI());
			else e->c.push_back(intE(d - 1));
		}
		e->b = n;
	}

	Expr* intE(int d) {
		for ( ;; ) {
			uint32_t k = d <= 0 ? drawWeighted({4, 3, 3}) : drawWeighted({3, 4, 4, 5, 3, 2, 4, 4, 3, 2, 2, pr.ops && pr.throws ? 3u : 0, pr.ops ? 1u : 0, pr.ops && pr.objects ? 3u : 0, pr.ops && pr.throws && pr.objects && pr.globalsObj ? (f().method ? 2u : 8u) : 0, pr.ops && pr.throws && pr.objects ? 2u : 0, pr.ops ? 2u : 0, pr.ops && pr.objects ? 1u : 0, pr.ops ? 2u : 0, pr.ops && pr.objects ? 1u : 0});
			switch ( k ) {
				case 0: return mk(Lit, range(0, 5));
				case 1: {
					auto v = visible(false);
					if ( f().method && draw(3) == 0 ) return mk(FieldV);
					if ( draw(6) == 0 ) return mk(Glob, (int)draw(p.globals));
					if ( v.empty() ) return mk(Lit, 1);
					return var(Var, v[draw(v.size())]);
				}
				case 2: if ( pr.terminalOnly ) return mk(Lit, 2); return readI();
				case 3: { Expr* e = mk(draw(2) ? Sub : Add); e->c = { intE(d - 1), nullptr }; e->c[1] = intE(d - 1); return e; }
				case 4: { Expr* e = mk(Mul); e->c = { mk(Lit, range(0, 3)), nullptr }; e->c[1] = pr.terminalOnly ? mk(Lit, 2) : readI(); return e; }
				case 5: { Expr* e = mk(Tern); Expr* c = boolE(d - 1); Expr* a = intE(d - 1); Expr* b = intE(d - 1); e->c = { c, a, b }; return e; }
				case 6: {
					auto fs = callable(false, false);
					if ( fs.empty() ) continue;
					int t = fs[draw(fs.size())];
					if ( p.funcs[t].rParam && !haveObject() ) continue;
					Expr* e = mk(Call, t); args(e, t, d); return e;
				}
				case 7: case 8: {
					if ( !pr.objects ) { if ( draw(4) ) continue; return readI0(); }
					auto fs = callable(true, false); auto os = objects();
					if ( os.empty() || fs.empty() ) continue;
					int t = fs[draw(fs.size())];
					if ( p.funcs[t].rParam && !haveObject() ) continue;
					if ( k == 8 && p.funcs[t].rParam && !canMake() ) continue;
					Var_ o = os[draw(os.size())];
					Expr* e = var(k == 7 ? MCall : Chain, o); e->c.clear();
					Expr* call = mk(Call, t); args(call, t, d, k == 8);
					e->b = t; e->c.push_back(call);
					return e;
				}
				case 9: {
					if ( !pr.objects ) continue;
					auto os = objects(); if ( os.empty() ) continue;
					return var(GetV, os[draw(os.size())]);
				}
				case 10: {
					auto v = visible(false, true); if ( v.empty() ) continue;
					Var_ o = v[draw(v.size())];
					Expr* e = var(AssignX, o); e->c = { intE(d - 1) };
					return e;
				}
				case 11: { Expr* e = mk(draw(2) ? Mod : Div); e->c = { intE(d - 1), nullptr }; e->c[1] = intE(d - 1); return e; }
				case 12: { Expr* e = mk(Neg); e->c = { intE(d - 1) }; return e; }
				case 13: {
					auto os = pr.throws ? visible(true) : objects(); if ( os.empty() ) continue;
					return var(draw(2) ? GetW : GetV, os[draw(os.size())]);
				}
				case 15: {		// the object a member refers to, which may not be set
					EK k = draw(2) ? ChildW : ChildV;
					if ( f().method && draw(2) ) return mk(k, -1);
					auto os = visible(true); if ( os.empty() ) continue;
					return var(k, os[draw(os.size())]);
				}
				case 16: { Expr* e = mk(STern); e->c = { intE(d - 1), nullptr }; e->c[1] = intE(d - 1); return e; }
				case 17: { auto os = objects(); if ( os.empty() ) continue; return var(CastV, os[draw(os.size())]); }
				case 18: { auto v = visible(false, true); if ( v.empty() ) continue; Expr* e = var(IncX, v[draw(v.size())]); e->b = draw(2) ? -1 : 1; return e; }
				case 19: { auto os = objects(); if ( os.empty() ) continue; Expr* e = var(AtX, os[draw(os.size())]); e->c = { intE(d - 1) }; return e; }
				case 14: {
					switch ( draw(4) ) {
						case 0: return mk(GlobV);
						case 1: return mk(GlobW);
						default: {
							auto fs = callable(true, false); if ( fs.empty() ) continue;
							int t = fs[draw(fs.size())];
							if ( p.funcs[t].rParam ) continue;
							Expr* e = mk(GlobM); Expr* call = mk(Call, t);
							for ( int i = 0; i < p.funcs[t].ints; ++i ) call->c.push_back(pure());		// nothing to be seen whether the call takes place or not
							call->b = p.funcs[t].ints; e->c.push_back(call);
							return e;
						}
					}
				}
			}
		}
	}
	Expr* pure() {
		auto v = visible(false);
		if ( v.empty() || draw(2) == 0 ) return mk(Lit, range(0, 5));
		return var(Var, v[draw(v.size())]);
	}
	Expr* readI0() { return pr.terminalOnly ? mk(Lit, 3) : readI(); }
	bool haveObject() { return !objects().empty() || canMake(); }

	Expr* boolE(int d) {
		for ( ;; ) {
			uint32_t k = d <= 0 ? drawWeighted({3, 2, 3}) : drawWeighted({4, 2, 4, 3, 4, 4, 3, 2, 1, pr.ops || pr.types ? 3u : 0, pr.ops && pr.objects ? 2u : 0, pr.ops ? 2u : 0});
			switch ( k ) {
				case 0: if ( pr.terminalOnly ) { Expr* e = mk(Lt); e->c = { intE(0), mk(Lit, 2) }; return e; } return readB();
				case 1: { Expr* e = mk(Eq, 0, pr.ops && draw(2)); e->c = { intE(d - 1), mk(Lit, range(0, 3)) }; return e; }
				case 2: { Expr* e = mk(Lt, 0, pr.ops ? (int)draw(4) : 0); e->c = { intE(d - 1), nullptr }; e->c[1] = intE(d - 1); return e; }
				case 3: { Expr* e = mk(Not); e->c = { boolE(d - 1) }; return e; }
				case 4: { Expr* e = mk(And); e->c = { boolE(d - 1), nullptr }; e->c[1] = boolE(d - 1); return e; }
				case 5: { Expr* e = mk(Or); e->c = { boolE(d - 1), nullptr }; e->c[1] = boolE(d - 1); return e; }
				case 6: return mk(BTrue, 1);
				case 7: {
					if ( !pr.opThrow || p.opIndex <= fi ) continue;
					auto os = objects(); if ( os.empty() ) continue;
					Expr* e = var(ObjLess, os[draw(os.size())]); e->c = { intE(d - 1) }; e->b = pr.ops ? (int)draw(4) : 0;
					return e;
				}
				case 8: {
					if ( !pr.objects ) continue;
					auto os = objects(); if ( os.empty() ) continue;
					return var(IsR, os[draw(os.size())]);
				}
				case 11: { Expr* e = mk(NandX, 0, (int)draw(2)); e->c = { boolE(d - 1), nullptr }; e->c[1] = boolE(d - 1); return e; }
				case 9: { auto v = visible(false, false, 1); if ( v.empty() ) continue; return var(BVar, v[draw(v.size())]); }
				case 10: {
					auto os = objects(); if ( os.empty() ) continue;
					Expr* e = var(ObjEq, os[draw(os.size())]); e->b = os[draw(os.size())].slot;
					return e;
				}
			}
		}
	}

	Expr* object(int d) {
		for ( ;; ) {
			switch ( drawWeighted({4, 4, 2, 1, pr.ops ? 2u : 0, pr.ops ? 1u : 0, pr.ops && pr.throws ? 1u : 0, pr.ops && d > 0 ? 2u : 0}) ) {
				case 7: { Expr* e = mk(RUp, 0, (int)draw(3)); e->c = { object(d - 1) }; return e; }
				case 0: { auto os = objects(); if ( os.empty() ) continue; return var(RVar, os[draw(os.size())]); }
				case 1: {
					if ( !canMake() ) continue;
					Expr* e = mk(New); e->c = { d > 0 ? intE(d - 1) : mk(Lit, range(0, 3)) };
					return e;
				}
				case 2: {
					auto fs = callable(false, true); if ( fs.empty() ) { if ( !haveObject() ) return mk(New); continue; }
					int t = fs[draw(fs.size())];
					if ( p.funcs[t].rParam && !haveObject() ) continue;
					Expr* e = mk(RCall, t); args(e, t, d); return e;
				}
				case 3: { auto os = objects(); if ( os.empty() ) continue; return var(RSelf, os[draw(os.size())]); }
				case 6: { auto os = visible(true); if ( os.empty() ) continue; return var(RValid, os[draw(os.size())]); }
				case 4: { auto os = objects(); if ( os.empty() || !canMake() ) continue; return var(RCopy, os[draw(os.size())]); }
				case 5: {
					auto os = objects(); if ( os.empty() || !canMake() ) continue;
					Expr* e = var(RPlus, os[draw(os.size())]); e->c = { d > 0 ? intE(d - 1) : mk(Lit, range(0, 3)) }; e->b = (int)draw(9);
					return e;
				}
			}
		}
	}

	bool ends(const Block& b) {		// the block cannot be left at its end
		if ( b.s.empty() ) return false;
		SK k = b.s.back()->k;
		return k == SReturn || k == SReturnR || k == SReturnVoid || k == SBreak || k == SContinue || k == SThrow || k == SRethrow;
	}

	void block(Block& b, int depth, int maxStmts) {
		scopes.emplace_back();
		fill(b, depth, maxStmts);
		scopes.pop_back();
	}
	void fill(Block& b, int depth, int maxStmts) {
		int n = range(1, maxStmts);
		for ( int i = 0; i < n && budget > 0; ++i ) {
			stmt(b, depth);
			if ( ends(b) ) return;
		}
		if ( b.s.empty() ) b.s.push_back(ev());
	}
	Stmt* ev() { Stmt* s = ms(SEv); s->a = evs++; s->b = pr.ops && draw(6) == 5; return s; }
	Stmt* dump(int hidden = -1) {		// hidden: a global variable that cannot be seen here
		Stmt* s = ms(SDump); s->a = evs++;
		for ( auto& v : visible(false) ) { s->vars.push_back({ v.name, { 0, v.slot } }); if ( s->vars.size() >= 5 ) break; }
		if ( pr.types ) for ( int k = 1; k <= 2; ++k ) for ( auto& v : visible(false, false, k) ) { s->vars.push_back({ v.name, { 2 + k, v.slot } }); if ( s->vars.size() >= 8 ) break; }
		for ( int i = 0; i < p.globals; ++i ) if ( i != hidden ) s->vars.push_back({ globalName(i), { 1, i } });
		if ( f().method ) s->vars.push_back({ "mV", { 2, 0 } });
		return s;
	}

	void stmt(Block& b, int depth) {
		--budget;
		bool deep = depth < pr.maxDepth;
		for ( ;; ) {
			uint32_t k = drawWeighted({
				5,								// 0 event
				6,								// 1 value event
				4,								// 2 int declaration
				5,								// 3 int assignment
				deep ? 5u : 0,					// 4 if
				deep && loopNest < 2 ? 2u : 0,	// 5 while
				deep && loopNest < 2 ? 3u : 0,	// 6 for
				deep && loopNest < 2 && pr.foreach_ ? 2u : 0,	// 7 foreach
				deep ? 2u : 0,					// 8 switch
				deep ? 2u : 0,					// 9 block
				deep && pr.throws ? (depth == 0 && fi == 0 ? 60u : 8u) : 0,		// 10 try
				2,								// 11 return
				(loops && !switches) || (switches && pr.ops) ? 3u : 0,	// 12 break
				(loops && !switches) || (switches && pr.ops) ? 2u : 0,	// 13 continue (a switch statement is evaluated once more)
				pr.throws ? 4u : 0,				// 14 throw
				pr.throws && catches ? 2u : 0,	// 15 rethrow
				pr.exits ? 2u : 0,				// 16 exit
				4,								// 17 expression statement
				pr.terminalOnly ? 0 : 2u,		// 18 writei
				pr.objects ? 6u : 0,			// 19 object declaration
				pr.objects ? 3u : 0,			// 20 object assignment
				pr.objects ? 2u : 0,			// 21 holder declare / null
				pr.objects && pr.globalsObj ? (!pr.ops ? 1u : f().method ? 12u : 4u) : 0,	// 22 global object
				pr.objects ? 2u : 0,			// 23 member object
				pr.mods ? 14u : pr.dumps ? static_cast<uint32_t>(pr.dumpRate) : 0,	// 24 dump
				pr.ops && pr.objects ? 4u : 0,	// 25 member of an object
				pr.ops && pr.throws && pr.objects && pr.globalsObj ? 4u : 0,	// 26 member of an object that may be replaced meanwhile
				pr.ops && pr.throws && pr.objects ? 2u : 0,	// 27 member of the object a member refers to
				pr.types ? 9u : pr.ops ? 3u : 0,	// 28 bool variable
				pr.types ? 9u : pr.ops ? 4u : 0,	// 29 string variable
				pr.ops ? 1u : 0,				// 30 assertion that holds
			});
			switch ( k ) {
				case 0:
					b.s.push_back(ev());
					if ( pr.cycles && draw(3) == 2 ) { Stmt* s = ms(SCycle); s->a = range(1, 3); b.s.push_back(s); p.cycles = true; }
					if ( pr.noops && draw(3) == 2 ) { b.s.push_back(ms(SNoop)); p.noops = true; }
					return;
				case 1: {
					Stmt* s = ms(SVal); s->a = evs++;
					int n = range(1, 3);
					for ( int i = 0; i < n; ++i ) s->es.push_back(intE(2));
					b.s.push_back(s); return;
				}
				case 2: {
					Stmt* s = ms(SDecl); s->e = intE(2); s->name = pickName("v");
					if ( uses(s->e, s->name, *this) ) s->e = mk(Lit, 4);
					s->a = pr.ops && draw(6) == 5;
					s->slot = newSlot(); b.s.push_back(s);
					scopes.back().push_back({ s->name, s->slot, false });
					return;
				}
				case 3: {
					Stmt* s = ms(SAssign);
					s->a = drawWeighted({5, 2, 2, 2, 1});	// = += -= ++ --
					auto v = visible(false, true);
					uint32_t where = draw(4);
					if ( where == 0 ) { s->b = 1; s->c = draw(p.globals); s->name = globalName(s->c); }
					else if ( where == 1 && f().method ) { s->b = 2; s->name = "mV"; }
					else { if ( v.empty() ) continue; auto& x = v[draw(v.size())]; s->b = 0; s->slot = x.slot; s->name = x.name; }
					if ( s->a <= 2 ) s->e = intE(2);
					b.s.push_back(s); return;
				}
				case 4: {
					Stmt* s = ms(SIf); s->e = boolE(2);
					block(s->b1, depth + 1, 3);
					s->has2 = draw(2); if ( s->has2 ) block(s->b2, depth + 1, 3);
					bare(s);
					if ( pr.ops && s->has2 && draw(3) == 2 ) {
						Stmt* t = ms(SIf); t->e = boolE(1); t->b1 = s->b2;
						t->has2 = draw(2); if ( t->has2 ) block(t->b2, depth + 1, 2);
						s->b2 = Block(); s->b2.s.push_back(t); s->a = 1;
					}
					b.s.push_back(s); return;
				}
				case 5: {
					Stmt* d = ms(SDecl); d->e = mk(Lit, 0); d->name = fmt("w%d", names++); d->slot = newSlot();
					b.s.push_back(d); scopes.back().push_back({ d->name, d->slot, false, true });
					Stmt* s = ms(SWhile); s->a = range(1, 3); s->name = d->name; s->slot = d->slot;
					s->e = boolE(1);
					enterLoop(); block(s->b1, depth + 1, 4); leaveLoop();
					b.s.push_back(s); return;
				}
				case 6: {
					Stmt* s = ms(SFor);
					scopes.emplace_back();
					if ( canMake() && draw(3) == 0 ) {
						s->b = 1; s->a = range(2, 5); s->e = mk(New); s->e->c = { intE(1) };
						s->name = fmt("r%d", names++); s->slot = newSlot();
						scopes.back().push_back({ s->name, s->slot, true, true });
					}
					else {
						s->name = fmt("i%d", names++); s->slot = newSlot();
						bool natives = !pr.terminalOnly && draw(3) == 0;
						s->e = natives ? readI() : mk(Lit, 0);
						s->a = range(1, 4);
						s->e2 = natives ? readI() : nullptr;		// added to the step
						s->c = natives ? (readI())->a : 0;			// device asked in the condition
						scopes.back().push_back({ s->name, s->slot, false, true });
					}
					enterLoop(); block(s->b1, depth + 1, 4); leaveLoop();
					bare(s);
					scopes.pop_back();
					b.s.push_back(s); return;
				}
				case 7: {
					Stmt* s = ms(SForeach); s->e = mk(Lit, range(0, 3));
					s->b = canMake() && draw(2) ? 1 : 0;
					if ( !s->b && pr.ops ) s->a = draw(2);
					s->slot = newSlot(); s->name = fmt(s->b ? "r%d" : "q%d", names++);
					scopes.emplace_back();
					scopes.back().push_back({ s->name, s->slot, s->b == 1, true });
					enterLoop(); block(s->b1, depth + 1, 4); leaveLoop();
					scopes.pop_back();
					b.s.push_back(s); return;
				}
				case 8: {
					Stmt* s = ms(SSwitch); s->e = intE(1);
					int n = range(1, 3);
					bool none = pr.ops && draw(8) == 7;		// nothing but a default
					if ( none ) n = 0;
					++switches;
					for ( int i = 0; i < n; ++i ) {
						s->cases.emplace_back(i, Block());
						s->es.push_back(pr.ops && draw(4) == 3 ? intE(1) : nullptr);
						block(s->cases.back().second, depth + 1, 2);
					}
					s->has2 = none || draw(2); if ( s->has2 ) block(s->b2, depth + 1, 2);
					--switches;
					b.s.push_back(s); return;
				}
				case 9: { Stmt* s = ms(SBlock); block(s->b1, depth + 1, 4); b.s.push_back(s); return; }
				case 10: {
					Stmt* s = ms(STry);
					block(s->b1, depth + 1, 4);
					int n = drawWeighted({1, 5, 3, 2});
					std::set<int> used;
					++catches;
					for ( int i = 0; i < n; ++i ) {
						int t = (int)drawWeighted({4, 6, 6, 4, 4, 8, pr.objects ? 8u : 0u, 2, 1, 2, 2, 2, 1, 1, 1});
						t = t == 5 ? XAny : t;
						if ( !used.insert(t).second ) continue;
						if ( t == XX1 && used.count(XX0) ) continue;
						if ( t == XX2 && (used.count(XX0) || used.count(XX1)) ) continue;
						if ( (t == XY0 || t == XY1) && used.count(XIX) ) continue;
						if ( t == XY1 && used.count(XY0) ) continue;
						s->catches.emplace_back();
						Catch& c = s->catches.back();
						c.type = t; c.slot = newSlot(); c.name = fmt("e%d", names++); c.ev = evs++;
						scopes.emplace_back();
						if ( t == XInt ) scopes.back().push_back({ c.name, c.slot, false, true });
						if ( t == XObj ) scopes.back().push_back({ c.name, c.slot, true, false });
						block(c.body, depth + 1, 3);
						scopes.pop_back();
						if ( t == XAny ) break;
					}
					--catches;
					if ( s->catches.empty() && n ) continue;
					if ( pr.finally_ ) {
						s->has2 = draw(4) != 0;
						int c = catches; catches = 0;		// which exception throw; means here is not specified
						if ( s->has2 ) block(s->b2, depth + 1, 3);
						catches = c;
						if ( s->has2 && draw(6) == 5 ) {		// a result on its way out, and a finally block that may not let it through
							if ( !ends(s->b1) && !f().ctor ) { Stmt* r = ms(f().returnsR ? SReturnR : SReturn); r->e = f().returnsR ? (canMake() ? mkNew() : nullptr) : mk(Lit, 3); if ( r->e ) s->b1.s.push_back(r); }
							if ( !ends(s->b2) && draw(2) ) { Stmt* t = ms(SThrow); t->a = thrown(); t->e = mk(Lit, range(0, 5)); s->b2.s.push_back(t); }
						}
					}
					if ( depth == 0 && fi == 0 && draw(3) ) {		// the program goes on after whatever is thrown here
						Stmt* w = ms(STry);
						w->b1.s.push_back(s);
						w->catches.emplace_back();
						Catch& c = w->catches.back();
						c.type = XAny; c.slot = newSlot(); c.name = fmt("e%d", names++); c.ev = evs++;
						c.body.s.push_back(ev());
						s = w;
					}
					b.s.push_back(s); return;
				}
				case 11: {
					if ( depth == 0 || (f().ctor) ) continue;
					Stmt* s = ms(f().returnsR ? SReturnR : SReturn);
					s->e = f().returnsR ? object(1) : intE(2);
					b.s.push_back(s); return;
				}
				case 12: if ( depth == 0 ) continue; b.s.push_back(ms(SBreak)); return;
				case 13: if ( depth == 0 ) continue; b.s.push_back(ms(SContinue)); return;
				case 14: {
					if ( depth == 0 && draw(3) ) continue;
					Stmt* s = ms(SThrow);
					if ( pr.objects && haveObject() && draw(2) ) { s->a = XObj; s->e = object(1); }
					else { s->a = thrown(); s->e = intE(1); }
					b.s.push_back(s); return;
				}
				case 15: b.s.push_back(ms(SRethrow)); return;
				case 16: { if ( depth == 0 && draw(2) ) continue; Stmt* s = ms(SExit); s->e = mk(Lit, range(0, 255)); if ( draw(3) == 0 ) s->e = intE(1); else if ( pr.ops && draw(3) == 2 ) { s->b = 1 + draw(8); p.exitDtor = true; } b.s.push_back(s); return; }
				case 17: {
					Expr* e;
					auto fr = callable(false, true);
					if ( pr.objects && !fr.empty() && draw(3) == 0 ) {
						int t = fr[draw(fr.size())];
						if ( p.funcs[t].rParam && !haveObject() ) continue;
						e = mk(RCall, t); args(e, t, 2);
					}
					else {
						auto fs = callable(false, false);
						if ( !fs.empty() && draw(2) == 0 ) {
							int t = fs[draw(fs.size())];
							if ( p.funcs[t].rParam && !haveObject() ) continue;
							e = mk(Call, t); args(e, t, 2);
						}
						else {
							auto ms_ = callable(true, false); auto os = objects();
							if ( ms_.empty() || os.empty() ) { if ( pr.terminalOnly ) continue; e = readI(); }
							else {
								int t = ms_[draw(ms_.size())];
								if ( p.funcs[t].rParam && !haveObject() ) continue;
								e = var(MCall, os[draw(os.size())]); e->b = t;
								Expr* call = mk(Call, t); args(call, t, 2); e->c.push_back(call);
							}
						}
					}
					Stmt* s = ms(SExpr); s->e = e; b.s.push_back(s); return;
				}
				case 18: { Stmt* s = ms(SWriteI); s->a = DEV_BASE + (sites++ % 88); s->e = intE(2); b.s.push_back(s); return; }
				case 19: {
					if ( !haveObject() ) continue;
					Stmt* s = ms(SDeclR); s->e = object(2); s->name = fmt("r%d", names++);
					s->slot = newSlot(); b.s.push_back(s);
					scopes.back().push_back({ s->name, s->slot, true });
					return;
				}
				case 20: {
					std::vector<Var_> os;
					for ( auto& v : visible(true, true) ) os.push_back(v);
					if ( os.empty() || !haveObject() ) continue;
					Stmt* s = ms(SAssignR); auto& v = os[draw(os.size())];
					s->slot = v.slot; s->name = v.name; s->e = object(2);
					b.s.push_back(s); return;
				}
				case 21: {
					std::vector<Var_> hs;
					for ( auto& v : visible(true) ) if ( v.name[0] == 'h' ) hs.push_back(v);
					Stmt* s;
					if ( !hs.empty() && draw(2) ) {
						s = ms(SNullR); auto& v = hs[draw(hs.size())]; s->slot = v.slot; s->name = v.name;
					}
					else {
						s = ms(SDeclR); s->name = fmt("h%d", names++); s->slot = newSlot(); s->e = nullptr;
						scopes.back().push_back({ s->name, s->slot, true });
					}
					b.s.push_back(s); return;
				}
				case 22: { if ( !haveObject() ) continue; Stmt* s = ms(SGlobR); s->e = object(1); b.s.push_back(s); return; }
				case 23: {
					if ( !f().method || f().ctor || !haveObject() ) continue;
					Stmt* s = ms(SFieldR); s->e = object(1);
					if ( s->e->k == RVar || s->e->k == RSelf || s->e->k == RValid || s->e->k == RCall || s->e->k == RUp ) s->e = (canMake() ? mkNew() : nullptr);	// no cycles
					if ( !s->e ) continue;
					b.s.push_back(s); return;
				}
				case 24:
					if ( pr.mods && draw(4) == 3 ) {		// a variable that hides a global one
						Stmt* s = ms(SBlock); Stmt* d = ms(SDecl);
						int g = static_cast<int>(draw(static_cast<uint32_t>(p.globals)));
						d->name = fmt("g%d", g); d->e = mk(Lit, range(0, 9)); d->slot = newSlot();
						scopes.emplace_back();
						scopes.back().push_back({ d->name, d->slot, false });
						s->b1.s = { d, dump(g) };
						scopes.pop_back();
						b.s.push_back(s);
					}
					b.s.push_back(dump()); return;
				case 25: {
					auto os = pr.throws ? visible(true) : objects(); if ( os.empty() ) continue;
					auto& v = os[draw(os.size())];
					Stmt* s = ms(SFieldW); s->slot = v.slot; s->name = v.name;
					s->a = drawWeighted({5, 2, 2, 2});		// = += -= ++
					if ( s->a <= 2 ) s->e = v.name[0] == 'h' ? pure() : intE(2);
					b.s.push_back(s); return;
				}
				case 28: {
					auto v = visible(false, true, 1);
					Stmt* s = ms(v.empty() || draw(2) == 0 ? SDeclB : SAssignB);
					s->e = boolE(2);
					if ( s->k == SDeclB ) { s->name = fmt("t%d", names++); s->slot = newSlot(); scopes.back().push_back({ s->name, s->slot, false, false, 1 }); }
					else { auto& x = v[draw(v.size())]; s->name = x.name; s->slot = x.slot; }
					b.s.push_back(s); return;
				}
				case 29: {
					auto v = visible(false, true, 2);
					uint32_t what = v.empty() ? 0 : draw(4);
					Stmt* s = ms(what == 0 ? SDeclS : what == 3 ? SPrintS : SAppendS);
					s->a = evs++; s->b = what == 2;
					if ( what != 3 ) s->e = intE(2);
					if ( what == 0 ) { s->name = fmt("u%d", names++); s->slot = newSlot(); scopes.back().push_back({ s->name, s->slot, false, false, 2 }); }
					else { auto& x = v[draw(v.size())]; s->name = x.name; s->slot = x.slot; }
					b.s.push_back(s); return;
				}
				case 30: { Stmt* s = ms(SAssert); s->e = boolE(1); s->a = draw(2); b.s.push_back(s); return; }
				case 27: {
					Stmt* s = ms(SChildW); s->e = pure();
					auto os = visible(true);
					if ( f().method && draw(2) ) s->slot = -1;
					else if ( os.empty() ) continue;
					else { auto& v = os[draw(os.size())]; s->slot = v.slot; s->name = v.name + "."; }
					b.s.push_back(s); return;
				}
				case 26: {
					if ( !canMake() ) continue;
					Stmt* g = ms(SGlobR); g->e = mkNew(); b.s.push_back(g);
					Stmt* s = ms(SGlobU);
					auto fs = callable(false, false);
					if ( !fs.empty() && draw(3) ) { int t = fs[draw(fs.size())]; s->e = mk(Call, t); args(s->e, t, 2); }
					else s->e = intE(2);
					b.s.push_back(s); return;
				}
			}
		}
	}
	void bare(Stmt* s) {		// a body without braces
		if ( !pr.ops || s->has2 || s->b1.s.size() != 1 || draw(2) == 0 ) return;
		SK k = s->b1.s[0]->k;
		s->noBraces = k == SEv || k == SVal || k == SAssign || k == SExpr || (s->k == SIf && (k == SBreak || k == SContinue)) || k == SThrow || k == SReturn || k == SWriteI;
	}
	Expr* mkNew() { Expr* e = mk(New); e->c = { mk(Lit, range(0, 3)) }; return e; }
	int savedSwitch = 0;
	std::vector<int> sw;
	void enterLoop() { ++loops; ++loopNest; sw.push_back(switches); switches = 0; }
	void leaveLoop() { --loops; --loopNest; switches = sw.back(); sw.pop_back(); }

	void function(int index, int size) {
		fi = index;
		scopes.clear(); scopes.emplace_back();
		loops = catches = switches = loopNest = 0;
		Func& g = p.funcs[index];
		for ( auto& prm : g.params ) scopes.back().push_back(prm);
		scopes.emplace_back();
		budget = size;
		if ( g.recursive ) {
			// if ( p0 > 0 ) { v = self(p0 - 1, ...) }
			Stmt* s = ms(SIf); Expr* c = mk(Lt); c->c = { mk(Lit, 0), var(Var, g.params[g.rParam]) };
			s->e = c;
			Expr* call = mk(Call, index);
			for ( int i = 0; i < g.rParam; ++i ) call->c.push_back(var(RVar, g.params[draw(g.rParam)]));
			Expr* sub = mk(Sub); sub->c = { var(Var, g.params[g.rParam]), mk(Lit, 1) };
			call->c.push_back(sub);
			for ( int i = 1; i < g.ints; ++i ) call->c.push_back(intE(1));
			call->b = g.ints;
			Stmt* v = ms(SVal); v->a = evs++; v->es.push_back(call);
			s->b1.s.push_back(v);
			// ... from anywhere inside a statement that is entered again by it
			auto anything = [&](Stmt* t) {
				t->catches.emplace_back();
				Catch& k = t->catches.back();
				k.type = XAny; k.slot = newSlot(); k.name = fmt("e%d", names++); k.ev = evs++;
				return &k.body;
			};
			switch ( draw(6) ) {
				case 3:
					if ( pr.finally_ ) {
						Stmt* t = ms(STry); t->b1.s.push_back(ev()); t->has2 = true; t->b2.s.push_back(s); t->b2.s.push_back(ev());
						if ( draw(2) ) anything(t)->s.push_back(ev());
						s = t;
					}
					break;
				case 4:
					if ( pr.throws ) {
						Stmt* t = ms(STry); Stmt* x = ms(SThrow); x->a = thrown(); x->e = mk(Lit, range(0, 5)); t->b1.s.push_back(x);
						anything(t)->s.push_back(s);
						if ( pr.finally_ && draw(2) ) { t->has2 = true; t->b2.s.push_back(ev()); }
						s = t;
					}
					break;
				case 5:
					if ( pr.throws ) {
						Stmt* t = ms(STry); t->b1.s.push_back(s);
						anything(t)->s.push_back(ev());
						if ( pr.finally_ && draw(2) ) { t->has2 = true; t->b2.s.push_back(ev()); }
						s = t;
					}
					break;
				default: break;
			}
			g.body.s.push_back(s);
		}
		if ( g.ctor ) {
			// effects after the identity was taken
			if ( pr.throws && draw(3) == 0 ) {
				Stmt* s = ms(SIf); s->e = pr.terminalOnly ? boolE(1) : readB();
				Stmt* t = ms(SThrow); t->a = (int)drawWeighted({3, 2, 3}); t->e = mk(Lit, range(0, 9));
				s->b1.s.push_back(t);
				g.body.s.push_back(s);
			}
			else if ( draw(3) == 0 && !pr.terminalOnly ) {
				Stmt* s = ms(SExpr); s->e = readI(); g.body.s.push_back(s);
			}
			if ( pr.exits && draw(3) == 0 ) {
				Stmt* s = ms(SIf); s->e = pr.terminalOnly ? boolE(1) : readB();
				Stmt* t = ms(SExit); t->e = mk(Lit, range(0, 255)); s->b1.s.push_back(t);
				if ( pr.ops && draw(3) == 2 ) { t->b = 1 + draw(8); p.exitDtor = true; }
				g.body.s.push_back(s);
			}
			return;
		}
		if ( index == 0 && pr.ops && pr.objects && pr.globalsObj && draw(3) ) { Stmt* s = ms(SGlobR); s->e = mkNew(); g.body.s.push_back(s); }
		if ( index == 0 && pr.mods ) g.body.s.push_back(dump());
		if ( index == 0 && pr.showArgs ) g.body.s.push_back(ms(SArgs));
		if ( index == 0 && pr.churn ) { Stmt* s = ms(SChurn); s->a = (int)draw(12); s->b = pr.churn; p.churn = true; g.body.s.push_back(s); }
		if ( index == 0 && pr.longChain ) { Stmt* s = ms(SLong); s->a = (int)draw(4); s->slot = (int)draw(2); s->b = pr.longChain; p.longChain = true; g.body.s.push_back(s); }
		int n = range(2, 6);
		for ( int i = 0; i < n && budget > 0; ++i ) {
			stmt(g.body, 0);
			if ( ends(g.body) ) return;
		}
		Stmt* s = ms(g.returnsR ? SReturnR : SReturn);
		if ( g.returnsR ) s->e = object(1);
		else s->e = intE(2);
		g.body.s.push_back(s);
	}
};

}

void generate(Program& p, const Profile& pr) {
	Gen g(p, pr);
	if ( pr.ops && draw(3) == 2 ) p.globals = 3;
	int nf = range(1, 4);
	auto add = [&](Func f) { p.funcs.push_back(f); return (int)p.funcs.size() - 1; };
	Func m; m.name = "Main";
	m.params = {};
	add(m);
	int nm = pr.objects ? range(1, 2) : 0;
	for ( int i = 0; i < nf + nm; ++i ) {
		Func f;
		f.method = i >= nf;
		f.name = f.method ? fmt("m%d", i - nf) : fmt("f%d", i);
		f.ints = range(0, 2);
		f.rParam = pr.objects && draw(3) == 0 ? (draw(3) == 2 ? 2 : 1) : 0;
		f.returnsR = pr.objects && !f.method && draw(3) == 0;
		f.recursive = !f.method && !f.returnsR && f.ints > 0 && draw(3) == 0;
		if ( f.ints && !f.recursive && draw(3) == 0 ) f.defaults = 1;
		if ( pr.ops && !f.method ) f.place = drawWeighted({4, 1, 1});
		for ( int k = 0; k < f.rParam; ++k ) f.params.push_back({ k ? "rp" : "ro", f.slots++, true, true });
		for ( int k = 0; k < f.ints; ++k ) { f.params.push_back({ fmt("p%d", k), f.slots++, false, f.recursive && k == 0 }); f.defVals.push_back(range(0, 4)); }
		add(f);
	}
	if ( pr.opThrow && pr.objects ) {
		Func f; f.name = "operator<"; f.method = true; f.ints = 1;
		p.opIndex = add(f);
	}
	if ( pr.objects ) {
		Func f; f.name = "Constructor"; f.method = true; f.ctor = true; f.ints = 1;
		f.params.push_back({ "p0", f.slots++, false });
		p.ctorIndex = add(f);
		p.usesObjects = true;
	}
	int n = (int)p.funcs.size();
	int size = pr.size;
	for ( int i = 0; i < n; ++i ) {
		if ( i == p.opIndex ) continue;
		g.function(i, i == 0 ? size / 2 : size / (2 * (nf + nm)) + 3);
	}
	p.mainIndex = 0;
	p.operators = !pr.ops || !pr.objects ? 0 : pr.terminalOnly ? 2 : 1;
	if ( pr.ops && pr.objects ) p.dtor = drawWeighted({6, 2, 2, 2, 2, 1, 1, 1, 1});
	(void)nf;
}

// ---------------------------------------------------------------------------
// Text
// ---------------------------------------------------------------------------

namespace {

struct Printer {
	Program& p;
	std::vector<std::string> out;
	int ind = 0;
	explicit Printer(Program& p_) : p(p_) {}
	std::map<const Expr*, std::string> cache;
	std::map<int, std::string> names;		// slot -> name within the function

	int line(const std::string& s) { out.push_back(std::string(ind, '\t') + s); return (int)out.size(); }

	std::string args(const Expr* e) {
		std::string s;
		for ( auto c : e->c ) { if ( !s.empty() ) s += ", "; s += x(c); }
		return s;
	}
	static std::string place(const Func& f) { return f.place == 1 ? "N." : f.place == 2 ? "U" + f.name + "." : ""; }
	std::string x(const Expr* e) {
		static const char* lt[] = { " < ", " <= ", " > ", " >= " };
		switch ( e->k ) {
			case Lit: return fmt("%d", e->a);
			case Var: case RVar: return names[e->a];
			case FieldV: return "mV";
			case Glob: return globalName(e->a);
			case ReadI: return fmt("readi(%d)", e->a);
			case ReadB: return fmt("readb(%d)", e->a);
			case Add: return "(" + x(e->c[0]) + " + " + x(e->c[1]) + ")";
			case Sub: return "(" + x(e->c[0]) + " - " + x(e->c[1]) + ")";
			case Mul: return "(" + x(e->c[0]) + " * " + x(e->c[1]) + ")";
			case Tern: return "((" + x(e->c[0]) + ") ? " + x(e->c[1]) + " : " + x(e->c[2]) + ")";
			case Call: case RCall: return place(p.funcs[e->a]) + p.funcs[e->a].name + "(" + args(e) + ")";
			case MCall: return names[e->a] + "." + x(e->c[0]);
			case Chain: return names[e->a] + ".self()." + x(e->c[0]);
			case GetV: return names[e->a] + ".getV()";
			case Div: return "(" + x(e->c[0]) + " / " + x(e->c[1]) + ")";
			case Mod: return "(" + x(e->c[0]) + " % " + x(e->c[1]) + ")";
			case Neg: return "(-" + par(x(e->c[0])) + ")";
			case GetW: return names[e->a] + ".mW";
			case ChildV: return (e->a < 0 ? "" : names[e->a] + ".") + "mR.getV()";
			case ChildW: return (e->a < 0 ? "" : names[e->a] + ".") + "mR.mW";
			case GlobV: return "gR.getV()";
			case GlobW: return "gR.mW";
			case GlobM: return "gR." + x(e->c[0]);
			case AssignX: return "(" + names[e->a] + " = " + x(e->c[0]) + " % 97)";
			case BTrue: return e->a ? "true" : "false";
			case Lt: return "(" + x(e->c[0]) + lt[e->b] + x(e->c[1]) + ")";
			case Eq: return "(" + x(e->c[0]) + (e->b ? " != " : " == ") + x(e->c[1]) + ")";
			case And: return "(" + x(e->c[0]) + " && " + x(e->c[1]) + ")";
			case Or: return "(" + x(e->c[0]) + " || " + x(e->c[1]) + ")";
			case Not: return "(!" + par(x(e->c[0])) + ")";
			case ObjLess: return "(" + names[e->a] + " " + COMPARISONS[e->b] + " " + x(e->c[0]) + ")";
			case IsR: return "(" + names[e->a] + " is R)";
			case STern: return "(" + par(x(e->c[0])) + " ?: " + par(x(e->c[1])) + ")";
			case CastV: return "(int " + names[e->a] + ")";
			case IncX: return "(" + names[e->a] + (e->b > 0 ? "++)" : "--)");
			case AtX: return names[e->a] + "[" + x(e->c[0]) + "]";
			case NandX: return "((" + x(e->c[0]) + (e->b ? " !& " : " !| ") + x(e->c[1]) + ") || true)";
			case BVar: return names[e->a];
			case ObjEq: return "(" + names[e->a] + " == " + names[e->b] + ")";
			case RCopy: return "copy " + names[e->a];
			case RPlus: return "(" + names[e->a] + " " + OPERATORS[e->b] + " " + par(x(e->c[0])) + ")";
			case New: return "new R(" + args(e) + ")";
			case RSelf: return names[e->a] + ".self()";
			case RValid: return names[e->a] + "!";
			case RUp: return e->b == 2 ? "boxed(" + x(e->c[0]) + ")" : fmt("(R up%d(IR ", e->b) + (x(e->c[0])[0] == '(' ? "same(" + x(e->c[0]) + ")" : x(e->c[0])) + "))";
		}
		return "?";
	}
	static std::string par(const std::string& s) { return s[0] == '(' ? s : "(" + s + ")"; }
	static std::string excType(int t) {
		static const char* n[] = { "int", "string", "X0", "X1", "Y0", "", "R", "X2", "Y1", "G<int>", "G<string>", "IX", "float", "double", "bool" };
		return n[t];
	}

	void body(Block& b) { ++ind; for ( auto s : b.s ) stmt(*s); --ind; }

	void stmt(Stmt& s) {
		switch ( s.k ) {
			case SArgs: s.line = line("writeln(\"#a \" + argc + \" \" + argv);"); break;
			case SEv: s.line = line(fmt(s.b ? "print(\"#e%d\");" : "writeln(\"#e%d\");", s.a)); break;
			case SVal: {
				std::string t = fmt("writeln(\"#v%d\"", s.a);
				for ( auto e : s.es ) t += " + \" \" + " + x(e);
				s.line = line(t + ");"); break;
			}
			case SDecl: names[s.slot] = s.name; s.line = line((s.a ? "var " : "int ") + s.name + " = " + x(s.e) + (s.e->k == Lit ? "" : " % 97") + ";"); break;
			case SDeclR: names[s.slot] = s.name; s.line = line(s.e ? "R " + s.name + " = " + x(s.e) + ";" : "R " + s.name + ";"); break;
			case SAssign: {
				std::string n = s.name;
				switch ( s.a ) {
					case 0: s.line = line(n + " = " + x(s.e) + " % 97;"); break;
					case 1: s.line = line(n + " += " + x(s.e) + " % 97;"); break;
					case 2: s.line = line(n + " -= " + x(s.e) + " % 97;"); break;
					case 3: s.line = line(n + "++;"); break;
					case 4: s.line = line(n + "--;"); break;
				}
				break;
			}
			case SAssignR: s.line = line(s.name + " = " + x(s.e) + ";"); break;
			case SNullR: s.line = line(s.name + " = R null;"); break;
			case SFieldW: {
				static const char* op[] = { " = ", " += ", " -= " };
				s.line = line(s.name + ".mW" + (s.a <= 2 ? op[s.a] + x(s.e) + " % 97;" : "++;")); break;
			}
			case SChildW: s.line = line(s.name + "mR.mW = " + x(s.e) + ";"); break;
			case SGlobU: s.line = line("gR.mU = " + x(s.e) + ";"); break;
			case SGlobR: s.line = line("gR = " + x(s.e) + ";"); break;
			case SFieldR: s.line = line("mR = " + x(s.e) + ";"); break;
			case SIf:
				if ( s.noBraces ) { s.line = line("if ( " + x(s.e) + " )"); body(s.b1); break; }
				s.line = line("if ( " + x(s.e) + " ) {");
				for ( Stmt* t = &s; ; t = t->b2.s[0] ) {
					body(t->b1);
					if ( !t->has2 ) break;
					line("}");
					if ( !t->a ) { line("else {"); body(t->b2); break; }
					t->b2.s[0]->line = line("else if ( " + x(t->b2.s[0]->e) + " ) {");
				}
				line("}"); break;
			case SWhile:
				s.line = line("while ( (" + s.name + fmt(" < %d) && ", s.a) + x(s.e) + " ) {");
				++ind; line(s.name + "++;"); --ind;
				body(s.b1); line("}"); break;
			case SFor:
				names[s.slot] = s.name;
				if ( s.b == 1 ) s.line = line("for ( R " + s.name + " = " + x(s.e) + "; " + s.name + fmt(".tick() < %d; ", s.a) + s.name + ".tick() ) " + (s.noBraces ? "" : "{"));
				else if ( s.e2 ) s.line = line("for ( int " + s.name + " = " + x(s.e) + fmt("; %s < (%d + readi(%d)); ", s.name.c_str(), s.a, s.c) + s.name + " = (" + s.name + " + 1) + " + x(s.e2) + " ) " + (s.noBraces ? "" : "{"));
				else s.line = line("for ( int " + s.name + " = 0; " + s.name + fmt(" < %d; ", s.a) + s.name + "++ ) " + (s.noBraces ? "" : "{"));
				body(s.b1); if ( !s.noBraces ) line("}"); break;
			case SForeach:
				names[s.slot] = s.name;
				s.line = line(std::string("foreach ( ") + (s.b ? "R " : "int ") + s.name + " : " + (s.b ? "new CollR(" : s.a ? "iterate(" : "new Coll(") + x(s.e) + ") ) {");
				body(s.b1); line("}"); break;
			case SSwitch:
				s.line = line("switch ( " + x(s.e) + " ) {");
				++ind;
				for ( size_t i = 0; i < s.cases.size(); ++i ) { auto& c = s.cases[i]; line(s.es[i] ? "case " + x(s.es[i]) + ": {" : fmt("case %d: {", c.first)); body(c.second); ++ind; brk(c.second); --ind; line("}"); }
				if ( s.has2 ) { line("default: {"); body(s.b2); ++ind; brk(s.b2); --ind; line("}"); }
				--ind; line("}"); break;
			case SBlock: s.line = line("{"); body(s.b1); line("}"); break;
			case STry:
				s.line = line("try {"); body(s.b1); line("}");
				for ( auto& c : s.catches ) {
					if ( c.type == XAny ) { c.line = line("catch {"); ++ind; line(fmt("writeln(\"#c%d\");", c.ev)); --ind; }
					else {
						names[c.slot] = c.name;
						c.line = line("catch ( " + excType(c.type) + " " + c.name + " ) {");
						++ind; line(fmt("writeln(\"#c%d \" + ", c.ev) + c.name + (c.type == XObj ? ".getV());" : c.type >= XX0 && c.type < XFloat ? ".get());" : ");")); --ind;
					}
					body(c.body); line("}");
				}
				if ( s.has2 ) { line("finally {"); body(s.b2); line("}"); }
				break;
			case SReturn: case SReturnR: s.line = line("return " + x(s.e) + ";"); break;
			case SReturnVoid: s.line = line("return;"); break;
			case SBreak: s.line = line("break;"); break;
			case SContinue: s.line = line("continue;"); break;
			case SThrow:
				switch ( s.a ) {
					case XInt: s.line = line("throw " + x(s.e) + ";"); break;
					case XObj: s.line = line("throw " + x(s.e) + ";"); break;
					case XStr: s.line = line("throw (\"s\" + " + x(s.e) + ");"); break;
					case XGStr: s.line = line("throw new G<string>(\"s\" + " + x(s.e) + ");"); break;
					case XFloat: s.line = line("throw (((" + x(s.e) + ") == 1) ? 1.5f : 2.5f);"); break;
					case XDouble: s.line = line("throw (((" + x(s.e) + ") == 1) ? 1.25d : 2.25d);"); break;
					case XBool: s.line = line("throw ((" + x(s.e) + ") == 1);"); break;
					default: s.line = line("throw new " + excType(s.a) + "(" + x(s.e) + ");"); break;
				}
				break;
			case SRethrow: s.line = line("throw;"); break;
			case SExit: {
				static const char* forms[] = { "exit( @ );", "{ Q q = new Q(@); }", "qe(@);", "{ Q q = new Q(@); q = new Q(-1); writeln(\"#never\"); }",
					"try { Q q = new Q(@); throw 7; } catch ( int never ) { writeln(\"#never\"); } finally { writeln(\"#never\"); }",
					"while ( true ) { Q q = new Q(@); continue; }", "{ int q = 1 + qe(@) + qn(); }", "qk(new Q(@));", "{ Q q = new Q(@); q = Q null; writeln(\"#never\"); }" };
				std::string t = forms[s.b]; auto at = t.find('@'); t.replace(at, 1, x(s.e));
				s.line = line(t); break;
			}
			case SExpr: s.line = line(x(s.e) + ";"); break;
			case SWriteI: s.line = line(fmt("writei(%d, ", s.a) + x(s.e) + ");"); break;
			case SCycle: s.line = line(fmt("ring(%d);", s.a)); break;
			case SNoop: s.line = line("noop();"); break;
			case SChurn: s.line = line(fmt("writeln(\"#c%d \" + churn(%d, %d));", s.a, s.a, s.b)); break;
			case SDeclB: names[s.slot] = s.name; s.line = line("bool " + s.name + " = " + x(s.e) + ";"); break;
			case SAssignB: s.line = line(s.name + " = " + x(s.e) + ";"); break;
			case SLong: s.line = line(fmt("writeln(\"#l%d \" + chain%d(%d, %s));", s.a, s.a, s.b, s.slot ? "true" : "false")); break;
			case SDeclS: names[s.slot] = s.name; s.line = line("string " + s.name + " = \"u\" + " + x(s.e) + ";"); break;
			case SAppendS: s.line = line(s.b ? s.name + " = " + s.name + " + \"_\" + " + x(s.e) + ";" : s.name + " += \"-\" + " + x(s.e) + ";"); break;
			case SPrintS: s.line = line(fmt("writeln(\"#s%d \" + ", s.a) + s.name + ");"); break;
			case SAssert: s.line = line("assert( " + x(s.e) + " || true" + (s.a ? ", \"#message\" );" : " );")); break;
			case SDump: {
				std::string t = fmt("writeln(\"#d%d\"", s.a);
				for ( auto& v : s.vars ) t += " + \" \" + " + v.first;
				s.line = line(t + ");"); break;
			}
		}
	}
	void brk(Block& b) {
		if ( !b.s.empty() ) {
			SK k = b.s.back()->k;
			if ( k == SReturn || k == SReturnR || k == SThrow || k == SRethrow || k == SReturnVoid || k == SBreak || k == SContinue ) return;
		}
		line("break;");
	}
	void func(Func& f) {
		names.clear();
		std::string sig;
		for ( auto& q : f.params ) names[q.slot] = q.name;
		int k = 0, firstDef = f.ints - f.defaults;
		for ( auto& q : f.params ) {
			if ( !sig.empty() ) sig += ", ";
			if ( q.isR ) sig += "R " + q.name;
			else { sig += "int " + q.name; if ( k >= firstDef ) sig += fmt(" = %d", f.defVals[k]); ++k; }
		}
		if ( f.place == 1 ) line("public namespace N {");
		if ( f.place == 2 ) line("public object U" + f.name + " {");
		if ( f.name == "Main" ) sig = "int argc, string argv";
		f.line = line(std::string("public ") + (f.place == 2 ? "static " : "") + (f.ctor ? "void" : f.returnsR ? "R" : "int") + " " + f.name + "(" + sig + ") modify throws {");
		if ( f.ctor ) {
			++ind; line(fmt("mId = readi(%d);", DEV_ID)); line("mV = p0;"); line("mT = 0;");
			if ( p.files == 1 ) line("mF = new System.IO.File(\"/simfs/work/r\" + mId, \"r\");");
			if ( p.files == 2 ) line("open(\"/simfs/work/r\" + mId, \"r\");");
			--ind;
		}
		body(f.body);
		line(f.place ? "} }" : "}");
		line("");
	}
};

}

void print(Program& p) {
	Printer w(p);
	if ( p.files ) w.line("import System.IO.File;");
	for ( int i = 0; i < p.globals; ++i ) w.line(i < 2 ? fmt("public int g%d = %d;", i, i + 1) : fmt("public namespace NG { public int g%d = %d; }", i, i + 1));
	w.line("public object X0 { private int mX; public void Constructor(int a) modify { mX = a; } public int get() const { return mX; } }");
	w.line("public object X1 extends X0 { public void Constructor(int a) modify { base.Constructor(a); } }");
	w.line("public object X2 extends X1 { public void Constructor(int a) modify { base.Constructor(a); } }");
	w.line("public interface IX { public int get() const; }");
	w.line("public object G<T> { private T mX; public void Constructor(T a) modify { mX = a; } public T get() const { return mX; } }");
	w.line("public object Y0 implements IX { private int mX; public void Constructor(int a) modify { mX = a; } public int get() const { return mX; } }");
	w.line("public object Y1 extends Y0 { public void Constructor(int a) modify { base.Constructor(a); } }");
	w.line("public object Iterator { private int mN; private int mI; public void Constructor(int n) modify { mN = n; mI = 0; }");
	w.line("\tpublic bool hasNext() const { return mI < mN; }");
	w.line(fmt("\tpublic int next() modify throws { mI = mI + 1; return readi(%d); } }", DEV_NEXT));
	w.line("public object Coll { private int mN; public void Constructor(int n) modify throws { mN = n; }");
	w.line(fmt("\tpublic Iterator getIterator() modify throws { int t = readi(%d); return new Iterator(mN); } }", DEV_ITER));
	w.line(fmt("public Iterator iterate(int n) modify throws { int t = readi(%d); return new Iterator(n); }", DEV_ITER));
	if ( p.exitDtor ) {
		// ends the program when released
		w.line("public object Q { private int mQ; public void Constructor(int q) modify { mQ = q; } public int get() const { return mQ; }");
		w.line("\tpublic void Destructor() modify throws { if ( mQ >= 0 ) { exit( mQ ); } } }");
		w.line("public int qe(int n) modify throws { Q q = new Q(n); return q.get(); }");
		w.line("public int qn() modify { writeln(\"#never\"); return 0; }");
		w.line("public void qk(Q q) modify { }");
	}
	if ( p.noops ) w.line("public void noop() modify { }");
	if ( p.churn ) {
		// work that fails in many ways; counts the objects that are alive
		static const char* text[] = {
			"public int gAlive = 0;",
			"public object Z { private int mA; public void Constructor(int a) modify throws { gAlive = gAlive + 1; mA = a; if ( a < 0 ) { throw 5; } }",
			"\tpublic void Destructor() modify { gAlive = gAlive - 1; }",
			"\tpublic int bad(int n) modify throws { int x = n; if ( x >= 0 ) { throw \"six\"; } return x; }",
			"\tpublic Z me() modify { return this; }",
			"\tpublic bool operator==(Z o) modify throws { if ( mA >= 0 ) { throw 7; } return false; } }",
			"public int boom0(int n) modify throws { int x = n; if ( x >= 0 ) { throw 1; } return x; }",
			"public int boom1(int n) modify throws { for ( int i = 0; i < 3; i++ ) { int y = i; while ( y == 1 ) { throw n; } } return 0; }",
			"public int boom2(int n) modify throws { switch ( n ) { case -1: { break; } default: { boom0(n); break; } } return 0; }",
			"public int boom3(int n) modify throws { int c = 0; try { boom0(n); } catch ( string e ) { c = 1; } finally { c = n; } return c; }",
			"public int boom4(int n) modify throws { Z z = new Z(n - n - 1); return 0; }",
			"public int boom5(int n) modify throws { Z z = new Z(n); return 1 + z.me().bad(n); }",
			"public int boom6(int n) modify throws { Z z = new Z(n); int d = n - n; return n / d; }",
			"public int boom7(int n) modify throws { Z z; return z.bad(n); }",
			"public int boom8(int n) modify throws { Z z = new Z(n); if ( n % 6 == 0 ) { throw z; } return boom8(n - 1); }",
			"public int boom9(int n) modify throws { Z a = new Z(n); Z b = new Z(n); try { boom0(n); } catch ( int e ) { if ( a == b ) { return 1; } } finally { n = 3; } return 0; }",
			"public int boom10(int n) modify throws { try { throw 1; } catch ( int e ) { Z z = new Z(e); throw z; } return 0; }",
			"public int boom11(int n) modify throws { while ( true ) { Z z = new Z(n); try { if ( n % 2 == 0 ) { break; } boom10(n); } catch ( Z e ) { n = n + 1; continue; } finally { int q = n; } } throw 4; return 0; }",
			"public int fine(int n) modify throws { Z z = new Z(n); for ( int i = 0; i < 2; i++ ) { int y = i; if ( y == 1 ) { return n; } } return 0; }",
			"public int boom(int k, int n) modify throws {",
			"\tswitch ( k ) {",
			"\t\tcase 0: { return boom0(n); } case 1: { return boom1(n); } case 2: { return boom2(n); } case 3: { return boom3(n); } case 4: { return boom4(n); } case 5: { return boom5(n); }",
			"\t\tcase 6: { return boom6(n); } case 7: { return boom7(n); } case 8: { return boom8(n); } case 9: { return boom9(n); } case 10: { return boom10(n); } case 11: { return boom11(n); }",
			"\t}",
			"\treturn 0;",
			"}",
			"public string churn(int k, int n) modify throws {",
			"\tint c = 0; int i = 0;",
			"\twhile ( i < n ) { int y = i; try { boom(k, i); c = c + 10000; } catch { c = c + 1; } i = i + fine(1); }",
			"\treturn \"\" + c + \" \" + gAlive;",
			"}" };
		for ( auto l : text ) w.line(l);
	}
	if ( p.longChain ) {
		// every object is the only one that refers to the next one
		static const char* text[] = {
			"public string gTrail; public bool gDeep;",
			"public object Chain {",
			"\tpublic Chain mNext; public int mI;",
			"\tpublic void Constructor(int i, int n) modify { mI = i; if ( n > 0 ) { mNext = new Chain(i + 1, n - 1); } }",
			"\tpublic void Destructor() modify { gTrail = gTrail + mI + \",\"; if ( gDeep ) { delete mNext; } }",
			"}",
			"public Chain made(int n) { return new Chain(0, n); }",
			"public string chain0(int n, bool deep) modify { gDeep = deep; gTrail = \"\"; { Chain c = new Chain(0, n); gTrail = gTrail + \"+\"; } return gTrail; }",
			"public string chain1(int n, bool deep) modify { gDeep = deep; gTrail = \"\"; try { Chain c = new Chain(0, n); gTrail = gTrail + \"+\"; if ( n >= 0 ) { throw 1; } } catch { gTrail = gTrail + \"!\"; } return gTrail; }",
			"public string chain2(int n, bool deep) modify { gDeep = deep; gTrail = \"\"; { Chain c = new Chain(0, n); c = new Chain(1000, 0); gTrail = gTrail + \"+\"; } return gTrail; }",
			"public string chain3(int n, bool deep) modify { gDeep = deep; gTrail = \"\"; made(n); gTrail = gTrail + \"+\"; return gTrail; }" };
		for ( auto l : text ) w.line(l);
	}
	if ( p.cycles ) {
		// objects nobody can reach any more, but which reference each other
		w.line("public object Link { public Link mNext; public X0 mX; public void Constructor(int a) modify { mX = new X0(a); } public void link(Link n) modify { mNext = n; } }");
		w.line("public void ring(int n) modify { Link a = new Link(n); Link b = new Link(n + 1); a.link(b); if ( n > 1 ) { b.link(a); } if ( n > 2 ) { Link c = new Link(n + 2); c.link(a); b.link(c); } }");
	}
	if ( p.operators ) w.line("public interface IR { public int getV() const; }");
	if ( p.usesObjects ) {
		w.line(p.files == 2 ? (p.operators ? "public object R extends System.IO.File implements IR {" : "public object R extends System.IO.File {") : p.operators ? "public object R implements IR {" : "public object R {");
		w.ind++;
		w.line("private int mId; private int mV; private int mT; public R mR; public int mW; public int mU;");
		if ( p.files == 1 ) w.line("private System.IO.File mF;");
		static const char* dtor[] = { "writei(%d, mId);", "R me = this; writei(%d, me.mId);", "this.gone(%d);", "gone(%d, this);",
			"writei(%d, mId); throw 77;", "try { throw mId; } catch ( int e ) { writei(%d, e); }", "writei(%d, mId); mT = 1 / (mT - mT);", "try { writei(%d, mId); return; } finally { mU = 1; }",
			"try { try { throw 77; } finally { writei(%d, mId); } } catch ( string e ) { }" };
		if ( !p.files ) {
			w.line(std::string("public void Destructor() modify") + (p.dtor > 3 ? " throws" : "") + " { " + fmt(dtor[p.dtor], DEV_DTOR) + " }");
			if ( p.dtor == 2 ) w.line("private void gone(int d) modify { writei(d, mId); }");
			if ( p.dtor == 3 ) w.line("private void gone(int d, R me) modify { writei(d, me.mId); }");
		}
		w.line("public R self() modify { return this; }");
		w.line("public int getV() const { return mV; }");
		if ( p.operators ) {
			w.line("public R Copy() const throws { writeln(\"#copy\"); return new R(mV + 1); }");
			for ( int k = 0; k < 9; ++k ) w.line(fmt("public R operator%s(int o) modify throws { writeln(\"#plus%d\"); return new R(mV + o + %d); }", OPERATORS[k], k, k));
			w.line("public int operator[](int i) const throws { writeln(\"#at\"); return mV + i; }");
			w.line("public bool operator==(R o) modify throws { writeln(\"#equal\"); return mV == o.mV; }");
			w.line(p.operators == 2 ? "public int =operator(int none) const { writeln(\"#cast\"); return mV; }" : "public int =operator(int none) const throws { writeln(\"#cast\"); return mV + readi(1094); }");
		}
		w.line("public int tick() modify { mT = mT + 1; return mT; }");
		if ( p.opIndex >= 0 ) for ( int k = 0; k < (p.operators ? 4 : 1); ++k ) w.line(fmt("public bool operator%s(int o) modify throws { writeln(\"#op%d\"); if ( readb(1093) ) { throw 9; } return mV %s o; }", COMPARISONS[k], k, COMPARISONS[k]));
		for ( auto& f : p.funcs ) if ( f.method && f.name != "operator<" ) w.func(f);
		w.ind--;
		w.line("}");
		if ( p.operators ) {
			w.line("public object Box<T> { private T mT; public void Constructor(T t) modify { mT = t; } public T get() modify { return mT; } }");
			w.line("public R same(R r) modify { return r; }");
			w.line("public IR up0(IR r) modify { return r; }");
			w.line("public IR up1(IR r) modify { IR i = IR r; writeln(\"#up \" + i.getV()); return i; }");
			w.line("public R boxed(R r) modify { Box<R> b = new Box<R>(r); return b.get(); }");
		}
		w.line("public object ItR { private int mN; private int mI; public void Constructor(int n) modify { mN = n; mI = 0; }");
		w.line("\tpublic bool hasNext() const { return mI < mN; }");
		w.line("\tpublic R next() modify throws { mI = mI + 1; return new R(mI); } }");
		w.line("public object CollR { private int mN; public void Constructor(int n) modify { mN = n; }");
		w.line("\tpublic ItR getIterator() modify throws { return new ItR(mN); } }");
		w.line("public R gR;");
	}
	for ( int i = (int)p.funcs.size() - 1; i >= 0; --i ) if ( !p.funcs[i].method ) w.func(p.funcs[i]);
	p.lines = w.out;
	p.text.clear();
	for ( auto& l : w.out ) p.text += l + "\n";
}

// ---------------------------------------------------------------------------
// Reference interpreter
// ---------------------------------------------------------------------------

namespace {

struct Obj { int id; int v = 0, t = 0, w = 0; Obj* child = nullptr; int refs = 0; bool dead = false; bool broken = false; };
struct Exc { int kind = 0; int val = 0; Obj* obj = nullptr; std::shared_ptr<void> hold; };		// copies share one reference to obj
struct Thrown {};
struct Exited { int status; };
struct TooLong {};
enum Flow { FNormal, FBreak, FContinue, FReturn };

struct Frame {
	Func* f = nullptr;
	Obj* self = nullptr;
	std::vector<int> iv;
	std::vector<Obj*> ov;
	std::map<int, std::string> sv;
	std::vector<std::vector<int>> scopes;	// object slots declared per open block
	int ret = 0; Obj* retObj = nullptr;
	std::vector<Exc> handling;
	int chained = 0;			// names are looked up in another object at the moment
};
struct Chained { Frame& f; Chained(Frame& a) : f(a) { ++f.chained; } ~Chained() { --f.chained; } };

struct Ref {
	Program& p; const Profile& pr; Expectation& ex;
	std::deque<Obj> heap;
	std::vector<Frame*> stack;
	std::vector<int> globals;
	Obj* gR = nullptr;
	std::vector<Obj*> pending;		// died, deadline at end of the enclosing statement
	Exc exc;
	int nextId = 1;
	int native = 0;

	Ref(Program& a, const Profile& b, Expectation& c) : p(a), pr(b), ex(c) {}
	Frame& F() { return *stack.back(); }

	void item(Item i) { if ( i.k != Item::May && i.k != Item::Must ) ++ex.hard; ex.items.push_back(std::move(i)); }
	void out(const std::string& s) { Item i; i.k = Item::Out; i.text = s; item(i); }

	void step() { if ( ++ex.steps > 2500 || ex.items.size() > 1200 ) throw TooLong(); }

	int nativeCall(Item::Kind k, int fd, bool isBool, int outValue = 0) {
		++native; ++ex.nativeCalls;
		Item i; i.k = k; i.fd = fd; i.value = outValue;
		bool lively = native <= 60;
		if ( k != Item::WriteInt ) i.value = lively ? (isBool ? (int)draw(2) : (int)draw(4)) : 0;
		if ( pr.nativeFail && lively && draw(1000) >= (uint32_t)(1000 - pr.failRate) ) {
			i.fail = true;
			static const int errs[] = { EIO, ECONNRESET, EBADF, EPIPE };
			i.err = errs[draw(4)];
			++ex.failures;
		}
		item(i);
		if ( i.fail ) { exc = Exc(); exc.kind = XNative; throw Thrown(); }
		return i.value;
	}

	// --- object lifetime ----------------------------------------------------
	void take(Obj* o) { if ( o ) ++o->refs; }
	void drop(Obj* o) {
		if ( !o ) return;
		if ( --o->refs == 0 && !o->dead ) {
			o->dead = true;
			Item i; i.k = Item::May; i.id = o->id; item(i);
			if ( !o->broken || pr.files == 1 ) pending.push_back(o);
			if ( o->child ) { Obj* c = o->child; o->child = nullptr; drop(c); }
		}
	}
	void flush(size_t mark) {
		while ( pending.size() > mark ) {
			Item i; i.k = Item::Must; i.id = pending.back()->id; pending.pop_back(); item(i);
		}
	}
	struct Hold {		// a temporary reference
		Ref& r; Obj* o;
		Hold(Ref& r_, Obj* o_) : r(r_), o(o_) {}
		Hold(const Hold&) = delete;
		~Hold() { r.drop(o); }
		Obj* release() { Obj* x = o; o = nullptr; return x; }
	};

	// --- calls --------------------------------------------------------------
	void call(int fi, Obj* self, const std::vector<int>& ints, const std::vector<Obj*>& rs, int& result, Obj** robj) {
		step();
		if ( stack.size() > 60 ) throw TooLong();
		Func& f = p.funcs[fi];
		Frame fr; fr.f = &f; fr.self = self;
		fr.iv.assign(f.slots + 1, 0); fr.ov.assign(f.slots + 1, nullptr);
		fr.scopes.emplace_back();
		int k = 0, ri = 0;
		for ( auto& q : f.params ) {
			if ( q.isR ) { Obj* r = rs[ri++]; fr.ov[q.slot] = r; take(r); fr.scopes.back().push_back(q.slot); }
			else { fr.iv[q.slot] = k < (int)ints.size() ? ints[k] : f.defVals[k]; ++k; }
		}
		stack.push_back(&fr);
		size_t mark = pending.size();
		struct Leave {
			Ref& r; Frame& fr; size_t mark; bool exitRun = false;
			~Leave() {
				for ( int s : fr.scopes.back() ) { Obj* o = fr.ov[s]; fr.ov[s] = nullptr; r.drop(o); }
				r.flush(mark);
				r.stack.pop_back();
			}
		};
		Obj* ro = nullptr;
		{
			Leave lv{ *this, fr, mark };
			try {
				ex.trace.push_back({ Expectation::Step::Enter, f.line, (int)stack.size(), ex.hard, false, f.name, {}, {}, {} });
				runBlock(f.body, false);
				ex.trace.push_back({ Expectation::Step::Exit, f.line, (int)stack.size(), ex.hard, false, f.name, {}, {}, {} });
			}
			catch ( ... ) {
				Obj* x = fr.retObj; fr.retObj = nullptr;
				drop(x);
				throw;
			}
			ro = fr.retObj;
		}
		result = fr.ret;
		if ( robj ) *robj = ro; else drop(ro);
	}

	Obj* construct(int arg) {
		heap.emplace_back();
		Obj* o = &heap.back();
		++ex.objects;
		o->id = nextId++;
		take(o);
		Hold h(*this, o);
		{
			Item i; i.k = Item::ReadInt; i.fd = DEV_ID; i.value = o->id; item(i);
		}
		o->v = arg;
		o->broken = true;		// until the constructor completes
		int dummy = 0;
		call(p.ctorIndex, o, { arg }, {}, dummy, nullptr);
		o->broken = false;
		return h.release();
	}

	int callExpr(Expr* e, Obj* self, Obj** robj) {
		Func& f = p.funcs[e->a];
		std::vector<int> ints;
		size_t i = 0;
		std::vector<Obj*> r;
		struct HoldAll { Ref& ref; std::vector<Obj*>& r; ~HoldAll() { for ( auto o : r ) ref.drop(o); } } h{ *this, r };
		for ( int k = 0; k < f.rParam; ++k ) r.push_back(obj(e->c[i++]));
		for ( ; i < e->c.size(); ++i ) ints.push_back(num(e->c[i]));
		int res = 0;
		call(e->a, self, ints, r, res, robj);
		return res;
	}

	// --- expressions ----------------------------------------------------------
	int num(Expr* e) {
		step();
		switch ( e->k ) {
			case Lit: return e->a;
			case Var: return F().iv[e->a];
			case FieldV: return F().self->v;
			case Glob: return globals[e->a];
			case ReadI: return nativeCall(Item::ReadInt, e->a, false);
			case Add: { int a = num(e->c[0]); return a + num(e->c[1]); }
			case Sub: { int a = num(e->c[0]); return a - num(e->c[1]); }
			case Mul: { int a = num(e->c[0]); return a * num(e->c[1]); }
			case Tern: return truth(e->c[0]) ? num(e->c[1]) : num(e->c[2]);
			case Call: return callExpr(e, nullptr, nullptr);
			case MCall: return callExpr(e->c[0], F().ov[e->a], nullptr);
			case Chain: { Obj* o = F().ov[e->a]; take(o); Hold h(*this, o); Chained c(F()); return callExpr(e->c[0], o, nullptr); }
			case GetV: return checked(F().ov[e->a])->v;
			case GetW: return checked(F().ov[e->a])->w;
			case ChildV: return checked(owner(e->a)->child)->v;
			case ChildW: return checked(owner(e->a)->child)->w;
			case GlobV: return checked(gR)->v;
			case GlobW: return checked(gR)->w;
			case GlobM: { Obj* o = checked(gR); take(o); Hold h(*this, o); return callExpr(e->c[0], o, nullptr); }
			case Div: { int a = num(e->c[0]); int b = num(e->c[1]); if ( !b ) builtin(); return a / b; }
			case Mod: { int a = num(e->c[0]); int b = num(e->c[1]); if ( !b ) builtin(); return a % b; }
			case Neg: return -num(e->c[0]);
			case STern: { int a = num(e->c[0]); return a ? a : num(e->c[1]); }
			case IncX: return F().iv[e->a] += e->b;
			case AtX: { Obj* o = F().ov[e->a]; take(o); Hold h(*this, o); int i = num(e->c[0]); out("#at"); return o->v + i; }
			case CastV: { int v = F().ov[e->a]->v; out("#cast"); return p.operators == 2 ? v : v + nativeCall(Item::ReadInt, 1094, false); }
			case AssignX: { int v = num(e->c[0]) % 97; F().iv[e->a] = v; return v; }
			default: throw TooLong();
		}
	}
	bool truth(Expr* e) {
		step();
		switch ( e->k ) {
			case BTrue: return e->a;
			case ReadB: return nativeCall(Item::ReadBool, e->a, true);
			case Lt: { int a = num(e->c[0]); int b = num(e->c[1]); return e->b == 0 ? a < b : e->b == 1 ? a <= b : e->b == 2 ? a > b : a >= b; }
			case Eq: { int a = num(e->c[0]); return (a == num(e->c[1])) != (e->b != 0); }
			case And: return truth(e->c[0]) && truth(e->c[1]);
			case Or: return truth(e->c[0]) || truth(e->c[1]);
			case Not: return !truth(e->c[0]);
			case NandX: { bool l = truth(e->c[0]); if ( l == (e->b != 0) ) truth(e->c[1]); return true; }
			case IsR: return true;
			case BVar: return F().iv[e->a];
			case ObjEq: { out("#equal"); return F().ov[e->a]->v == F().ov[e->b]->v; }
			case ObjLess: {
				int n = num(e->c[0]);
				Obj* o = F().ov[e->a];
				out(fmt("#op%d", e->b));
				if ( nativeCall(Item::ReadBool, 1093, true) ) { raise(XInt, 9); }
				return e->b == 0 ? o->v < n : e->b == 1 ? o->v <= n : e->b == 2 ? o->v > n : o->v >= n;
			}
			default: throw TooLong();
		}
	}
	Obj* obj(Expr* e) {		// result carries one reference
		step();
		switch ( e->k ) {
			case RVar: case RSelf: { Obj* o = F().ov[e->a]; take(o); return o; }
			case RValid: { Obj* o = F().ov[e->a]; if ( !o ) builtin(); take(o); return o; }
			case New: { int a = e->c.empty() ? 0 : num(e->c[0]); return construct(a); }
			case RCall: { Obj* o = nullptr; callExpr(e, nullptr, &o); return o; }
			case RCopy: { out("#copy"); return construct(F().ov[e->a]->v + 1); }
			case RUp: { Obj* o = obj(e->c[0]); if ( e->b == 1 ) out(fmt("#up %d", checked(o)->v)); return o; }
			case RPlus: { int n = num(e->c[0]); out(fmt("#plus%d", e->b)); return construct(F().ov[e->a]->v + n + e->b); }
			default: throw TooLong();
		}
	}
	[[noreturn]] void builtin() { ++ex.builtins; exc = Exc(); exc.kind = XNative; throw Thrown(); }
	Obj* owner(int slot) { return slot < 0 ? F().self : checked(F().ov[slot]); }
	Obj* checked(Obj* o) { if ( !o ) builtin(); return o; }
	void traceExc(Expectation::Step::Kind k) { ex.trace.push_back({ k, 0, (int)stack.size(), ex.hard, false, F().f->name, {}, {}, {} }); }
	[[noreturn]] void raise(int kind, int val) { exc = Exc(); exc.kind = kind; exc.val = val; ++ex.throws; traceExc(Expectation::Step::Throw); throw Thrown(); }

	[[noreturn]] void raiseObj(Obj* o) {		// takes over the reference
		Exc n; n.kind = XObj; n.obj = o;
		n.hold = std::shared_ptr<void>((void*)o, [this](void* x) { drop((Obj*)x); });
		exc = n; ++ex.throws; ++ex.thrownObjects;
		traceExc(Expectation::Step::Throw);
		throw Thrown();
	}

	// --- statements -----------------------------------------------------------
	struct ScopeGuard {
		Ref& r; size_t mark;
		explicit ScopeGuard(Ref& r_) : r(r_), mark(r_.pending.size()) { r.F().scopes.emplace_back(); }
		~ScopeGuard() {
			Frame& f = r.F();
			auto slots = f.scopes.back();
			f.scopes.pop_back();
			for ( int s : slots ) { Obj* o = f.ov[s]; f.ov[s] = nullptr; r.drop(o); }
			r.flush(mark);
		}
	};
	struct StmtGuard { Ref& r; size_t mark; explicit StmtGuard(Ref& r_) : r(r_), mark(r_.pending.size()) {} ~StmtGuard() { r.flush(mark); } };

	void declare(int slot, Obj* o) { F().ov[slot] = o; F().scopes.back().push_back(slot); }

	Flow runBlock(Block& b, bool scope) {
		if ( scope ) { ScopeGuard g(*this); return runBlock(b, false); }
		for ( auto s : b.s ) { Flow f = run(*s); if ( f != FNormal ) return f; }
		return FNormal;
	}

	bool matches(int type, const Exc& x) {
		if ( type == XAny ) return true;
		if ( x.kind == XNative ) return type == XStr;
		if ( type == XX0 ) return x.kind == XX0 || x.kind == XX1 || x.kind == XX2;
		if ( type == XX1 ) return x.kind == XX1 || x.kind == XX2;
		if ( type == XIX || type == XY0 ) return x.kind == XY0 || x.kind == XY1;
		return type == x.kind;
	}
	static std::string excText(const Exc& x) {
		if ( x.kind == XObj ) return fmt("%d", x.obj->v);
		switch ( x.kind ) {
			case XStr: case XGStr: return fmt("s%d", x.val);
			case XFloat: return x.val == 1 ? "1.5" : "2.5";
			case XDouble: return x.val == 1 ? "1.25" : "2.25";
			case XBool: return x.val == 1 ? "1" : "0";
			case XNative: return "*";
			default: return fmt("%d", x.val);
		}
	}

	Flow tryStmt(Stmt& s) {
		Flow flow = FNormal; bool thrown = false; Exc pend;
		try { flow = runBlock(s.b1, true); }
		catch ( Thrown& ) { thrown = true; pend = exc; exc = Exc(); }
		if ( thrown ) {
			if ( s.catches.empty() ) { thrown = false; pend = Exc(); ++ex.handled; }
			for ( auto& c : s.catches ) {
				if ( !matches(c.type, pend) ) continue;
				thrown = false; ++ex.handled;
				Exc caught = pend;
				pend = Exc();
				F().handling.push_back(caught);
				size_t depth = F().handling.size();
				if ( c.type == XInt ) F().iv[c.slot] = caught.val;
				traceExc(Expectation::Step::Catch);
				try {
					out(fmt("#c%d", c.ev) + (c.type == XAny ? "" : " " + excText(caught)));
					ScopeGuard g(*this);
					if ( c.type == XObj ) { take(caught.obj); declare(c.slot, caught.obj); }
					flow = runBlock(c.body, true);
				}
				catch ( Thrown& ) { thrown = true; pend = exc; exc = Exc(); }
				F().handling.resize(depth - 1);
				break;
			}
		}
		if ( s.has2 ) {
			++ex.finallies;
			// a pending return value survives unless finally leaves by another way
			int ret = F().ret; Obj* ro = F().retObj; F().retObj = nullptr;
			Flow g;
			try { g = runBlock(s.b2, true); }
			catch ( ... ) { drop(ro); throw; }
			if ( g != FNormal ) { drop(ro); return g; }
			F().ret = ret; F().retObj = ro;
		}
		if ( thrown ) { exc = pend; throw Thrown(); }
		return flow;
	}

	Flow loopFlow(Flow f, bool& stop) {
		stop = false;
		if ( f == FBreak ) { stop = true; return FNormal; }
		if ( f == FReturn ) { stop = true; return FReturn; }
		return FNormal;
	}

	int value(const std::pair<int, int>& v) { return v.first == 4 ? 0 : v.first == 0 || v.first == 3 ? F().iv[v.second] : v.first == 1 ? globals[v.second] : F().self->v; }

	void trace(Stmt& s) {
		bool leaf = s.k != SIf && s.k != SWhile && s.k != SFor && s.k != SForeach && s.k != SSwitch && s.k != SBlock && s.k != STry;
		ex.trace.push_back({ Expectation::Step::Statement, s.line, (int)stack.size(), ex.hard, leaf, "", {}, {}, {} });
		if ( s.k == SDump ) for ( auto& v : s.vars ) ex.trace.back().vars.push_back({ v.first, value(v.second), v.second.first < 3 ? 0 : v.second.first - 2, v.second.first == 4 ? F().sv[v.second.second] : "" });
		if ( s.k == SDump && pr.mods && !s.vars.empty() && (ex.trace.size() < 3 || draw(2)) ) {
			auto& v = s.vars[draw(static_cast<uint32_t>(s.vars.size()))];
			int n = range(-3, 12);
			if ( v.second.first == 3 ) {
				static const char* b[] = { "false", "true", "0", "1" };
				uint32_t k = draw(4);
				F().iv[v.second.second] = k & 1;
				ex.trace.back().mods.push_back({ v.first, static_cast<int>(k & 1), -1, b[k] });
			}
			else if ( v.second.first == 4 ) {
				static const char* t[] = { "x", "u-1", "7", "true", "2.5", "-3", "0x", "U" };
				F().sv[v.second.second] = t[draw(8)];
				ex.trace.back().mods.push_back({ v.first, 0, -1, F().sv[v.second.second] });
			}
			else {
				(v.second.first == 0 ? F().iv[v.second.second] : v.second.first == 1 ? globals[v.second.second] : F().self->v) = n;
				ex.trace.back().mods.push_back({ v.first, n, -1, "" });
			}
		}
		if ( s.k != SDump || pr.shadow ) return;
		std::vector<int*> at;
		auto& outer = ex.trace.back().outer;
		for ( size_t i = 0; i + 1 < stack.size(); ++i ) if ( !stack[i]->chained ) for ( auto& v : stack[i]->f->params ) if ( !v.isR && v.kind == 0 ) {
			outer.push_back({ v.name, stack[i]->iv[v.slot], static_cast<int>(i), "" });
			at.push_back(&stack[i]->iv[v.slot]);
		}
		if ( pr.mods && !outer.empty() && draw(4) == 3 ) {
			size_t k = draw(static_cast<uint32_t>(outer.size()));
			*at[k] = outer[k].value = range(-3, 12);
			ex.trace.back().mods.push_back(outer[k]);
		}
	}

	Flow run(Stmt& s) {
		step();
		trace(s);
		StmtGuard guard(*this);
		switch ( s.k ) {
			case SEv: out(fmt("#e%d", s.a)); return FNormal;
			case SArgs:
				out(fmt("#a %d /simfs/work/main.os", static_cast<int>(pr.args.size()) + 1));
				for ( auto& a : pr.args ) if ( a[0] == '#' ) out(a);
				return FNormal;
			case SVal: {
				std::string t = fmt("#v%d", s.a);
				for ( auto e : s.es ) t += fmt(" %d", num(e));
				out(t); return FNormal;
			}
			case SDecl: { int v = num(s.e); F().iv[s.slot] = s.e->k == Lit ? v : v % 97; return FNormal; }
			case SDeclR: {
				if ( !s.e ) { declare(s.slot, nullptr); return FNormal; }
				Obj* o = obj(s.e); declare(s.slot, o); return FNormal;
			}
			case SAssign: {
				int old = s.b == 0 ? F().iv[s.slot] : s.b == 1 ? globals[s.c] : F().self->v;	// left operand first
				int v = s.e ? num(s.e) % 97 : 0;
				int* t = s.b == 0 ? &F().iv[s.slot] : s.b == 1 ? &globals[s.c] : &F().self->v;
				switch ( s.a ) {
					case 0: *t = v; break; case 1: *t = old + v; break; case 2: *t = old - v; break;
					case 3: ++*t; break; case 4: --*t; break;
				}
				return FNormal;
			}
			case SAssignR: { Obj* o = obj(s.e); Obj* old = F().ov[s.slot]; F().ov[s.slot] = o; drop(old); return FNormal; }
			case SNullR: { Obj* old = F().ov[s.slot]; F().ov[s.slot] = nullptr; drop(old); return FNormal; }
			case SFieldW: {
				Obj* o = checked(F().ov[s.slot]);
				int old = o->w;
				int v = s.e ? num(s.e) % 97 : 0;
				o->w = s.a == 0 ? v : s.a == 1 ? old + v : s.a == 2 ? old - v : o->w + 1;
				return FNormal;
			}
			case SGlobU: num(s.e); return FNormal;
			case SChildW: { int v = num(s.e); checked(owner(s.slot)->child)->w = v; return FNormal; }
			case SGlobR: { Obj* o = obj(s.e); Obj* old = gR; gR = o; drop(old); return FNormal; }
			case SFieldR: { Obj* o = obj(s.e); Obj* self = F().self; Obj* old = self->child; self->child = o; drop(old); return FNormal; }
			case SIf: {
				if ( truth(s.e) ) return runBlock(s.b1, true);
				if ( s.has2 ) return runBlock(s.b2, true);
				return FNormal;
			}
			case SWhile: {
				while ( F().iv[s.slot] < s.a && truth(s.e) ) {
					bool stop; Flow f;
					{ ScopeGuard g(*this); F().iv[s.slot]++; f = loopFlow(runBlock(s.b1, false), stop); }
					if ( stop ) return f;
				}
				return FNormal;
			}
			case SFor: {
				ScopeGuard g(*this);
				if ( s.b == 1 ) {
					declare(s.slot, nullptr);
					Obj* o = obj(s.e); F().ov[s.slot] = o;
					while ( ++o->t < s.a ) {
						bool stop; Flow f = loopFlow(runBlock(s.b1, true), stop);
						if ( stop ) return f;
						++o->t;
					}
					return FNormal;
				}
				int i = num(s.e);
				F().iv[s.slot] = i;
				for ( ;; ) {
					if ( s.e2 ) { if ( !(F().iv[s.slot] < s.a + nativeCall(Item::ReadInt, s.c, false)) ) break; }
					else if ( !(F().iv[s.slot] < s.a) ) break;
					bool stop; Flow f = loopFlow(runBlock(s.b1, true), stop);
					if ( stop ) return f;
					if ( s.e2 ) { int x = F().iv[s.slot] + 1; F().iv[s.slot] = x + num(s.e2); }
					else F().iv[s.slot]++;
				}
				return FNormal;
			}
			case SForeach: {
				int n = num(s.e);
				if ( !s.b ) nativeCall(Item::ReadInt, DEV_ITER, false);
				for ( int i = 0; i < n; ++i ) {
					ScopeGuard g(*this);
					if ( s.b ) { Obj* o = construct(i + 1); declare(s.slot, o); }
					else F().iv[s.slot] = nativeCall(Item::ReadInt, DEV_NEXT, false);
					bool stop; Flow f = loopFlow(runBlock(s.b1, true), stop);
					if ( stop ) return f;
				}
				return FNormal;
			}
			case SSwitch: {
				for ( ;; ) {
					step();
					int v = num(s.e);
					Block* b = nullptr;
					for ( size_t i = 0; i < s.cases.size() && !b; ++i ) if ( (s.es[i] ? num(s.es[i]) : s.cases[i].first) == v ) b = &s.cases[i].second;
					if ( !b && s.has2 ) b = &s.b2;
					if ( !b ) return FNormal;
					Flow f = runBlock(*b, true);
					if ( f == FContinue ) continue;
					return f == FBreak ? FNormal : f;
				}
			}
			case SBlock: return runBlock(s.b1, true);
			case STry: return tryStmt(s);
			case SReturn: { int v = num(s.e); F().ret = v; return FReturn; }
			case SReturnR: { Obj* o = obj(s.e); Obj* old = F().retObj; F().retObj = o; drop(old); return FReturn; }
			case SReturnVoid: return FReturn;
			case SBreak: return FBreak;
			case SContinue: return FContinue;
			case SThrow: { if ( s.a == XObj ) raiseObj(obj(s.e)); int v = num(s.e); raise(s.a, v); }
			case SRethrow: exc = F().handling.back(); traceExc(Expectation::Step::Throw); throw Thrown();
			case SExit: { int v = num(s.e); throw Exited{ v }; }
			case SExpr: {
				if ( s.e->k == RCall ) { Obj* o = obj(s.e); Hold h(*this, o); return FNormal; }
				num(s.e); return FNormal;
			}
			case SWriteI: { int v = num(s.e); nativeCall(Item::WriteInt, s.a, false, v); return FNormal; }
			case SCycle: return FNormal;
			case SChurn: out(fmt("#c%d %d 0", s.a, s.b)); return FNormal;
			case SLong: {
				std::string all;
				for ( int i = 0; i <= s.b; ++i ) all += fmt("%d,", i);
				out(fmt("#l%d ", s.a) + (s.a == 0 ? "+" + all : s.a == 1 ? "+" + all + "!" : s.a == 2 ? all + "+1000," : all + "+"));
				return FNormal;
			}
			case SDeclB: case SAssignB: { bool v = truth(s.e); F().iv[s.slot] = v; return FNormal; }
			case SDeclS: { int v = num(s.e); F().sv[s.slot] = fmt("u%d", v); return FNormal; }
			case SAppendS: { std::string old = F().sv[s.slot]; int v = num(s.e); F().sv[s.slot] = old + fmt(s.b ? "_%d" : "-%d", v); return FNormal; }
			case SPrintS: out(fmt("#s%d ", s.a) + F().sv[s.slot]); return FNormal;
			case SAssert: truth(s.e); return FNormal;
			case SNoop:
				ex.trace.push_back({ Expectation::Step::Enter, 0, static_cast<int>(stack.size()) + 1, ex.hard, false, "noop", {}, {}, {} });
				ex.trace.push_back({ Expectation::Step::Exit, 0, static_cast<int>(stack.size()) + 1, ex.hard, false, "noop", {}, {}, {} });
				return FNormal;
			case SDump: {
				std::string t = fmt("#d%d", s.a);
				for ( auto& v : s.vars ) t += v.second.first == 4 ? " " + F().sv[v.second.second] : fmt(" %d", value(v.second));
				out(t); return FNormal;
			}
		}
		return FNormal;
	}
};

}

void reference(Program& p, const Profile& pr, Expectation& ex) {
	Ref r(p, pr, ex);
	for ( int i = 0; i < p.globals; ++i ) r.globals.push_back(i + 1);
	try {
		int res = 0;
		r.call(0, nullptr, {}, {}, res, nullptr);
		ex.status = res & 0xff;
	}
	catch ( Thrown& ) { ex.status = 255; ex.uncaught = true; }
	catch ( Exited& e ) {
		ex.status = e.status & 0xff; ex.exited = true;
		// exit ends the program at once: nothing has to be destroyed any more
		// (predictions made while unwinding are optional)
	}
	catch ( TooLong& ) { ex.tooLong = true; }
	r.exc = Exc();
	for ( auto& o : r.heap ) if ( !o.dead ) { Item i; i.k = Item::May; i.id = o.id; ex.items.push_back(i); }
	if ( ex.exited ) {
		// the trailing part consists only of May/Must made while unwinding
		while ( !ex.items.empty() && ex.items.back().k == Item::May ) ex.items.pop_back();
		std::vector<Item> kept;
		size_t last = 0;
		for ( size_t i = 0; i < ex.items.size(); ++i ) if ( ex.items[i].k != Item::May && ex.items[i].k != Item::Must ) last = i + 1;
		for ( size_t i = 0; i < last; ++i ) kept.push_back(ex.items[i]);
		ex.items.swap(kept);
		for ( auto& o : r.heap ) { Item i; i.k = Item::May; i.id = o.id; ex.items.push_back(i); }
	}
	uint64_t h = 0;
	for ( auto& i : ex.items ) {
		h = sim::mix(h, i.k * 1000003ull + i.fd * 31 + i.value + (i.fail ? 77777 : 0));
		for ( char c : i.text ) h = sim::mix(h, (unsigned char)c);
	}
	sim::note(h);
}

// ---------------------------------------------------------------------------
// Comparison
// ---------------------------------------------------------------------------

void Matcher::attach(Expectation& e) { ex = &e; pos = 0; hard = 0; may.clear(); dead.clear(); partial.clear(); }

std::string Matcher::describe() const {
	std::string s;
	size_t from = pos > 6 ? pos - 6 : 0;
	for ( size_t i = from; i < ex->items.size() && i < pos + 4; ++i ) {
		auto& it = ex->items[i];
		s += i == pos ? "  > " : "    ";
		switch ( it.k ) {
			case Item::Out: s += "print " + it.text; break;
			case Item::ReadInt: s += fmt("readi(%d) -> %s", it.fd, it.fail ? "fails" : fmt("%d", it.value).c_str()); break;
			case Item::ReadBool: s += fmt("readb(%d) -> %s", it.fd, it.fail ? "fails" : fmt("%d", it.value).c_str()); break;
			case Item::WriteInt: s += fmt("writei(%d, %d)%s", it.fd, it.value, it.fail ? " fails" : ""); break;
			case Item::May: s += fmt("object %d unreferenced", it.id); break;
			case Item::Must: s += fmt("object %d destroyed by here", it.id); break;
			case Item::Mark: s += "mark"; break;
		}
		s += "\n";
	}
	return s;
}

void Matcher::fail(const std::string& kind, const std::string& msg) {
	sim::violation(cls + kind, msg + "\nprediction around this point:\n" + describe());
}

void Matcher::destroyed(int id) {
	++compared;
	if ( dead.count(id) ) fail("destroyed-twice", fmt("object %d was destroyed a second time", id));
	bool ok = may.count(id);
	for ( size_t i = pos; !ok && i < ex->items.size(); ++i ) {
		auto& it = ex->items[i];
		if ( it.k != Item::May && it.k != Item::Must ) break;
		if ( it.k == Item::May && it.id == id ) ok = true;
	}
	if ( !ok ) fail("destroyed-early", fmt("object %d was destroyed while still referenced (or does not exist)", id));
	dead.insert(id);
}

// moves to the next operation; checks deadlines passed on the way
Item* Matcher::next(const std::string& what) {
	while ( pos < ex->items.size() ) {
		auto& it = ex->items[pos];
		if ( it.k == Item::May ) { may.insert(it.id); ++pos; continue; }
		if ( it.k == Item::Must ) {
			if ( !dead.count(it.id) && !exempt.count(it.id) ) fail("not-destroyed", fmt("object %d lost its last reference but was not destroyed before: %s", it.id, what.c_str()));
			++compared; ++pos; continue;
		}
		return &it;
	}
	return nullptr;
}

void Profile::drawArgs() {
	showArgs = draw(4) == 3;
	if ( !showArgs ) return;
	static const char* words[] = { "#x", "#1", "#--file", "-v", "#x", "--help", "-l", "-", "#\xc3\xa4" };
	int n = range(0, 4);
	for ( int i = 0; i < n; ++i ) args.push_back(words[draw(9)]);
}

void Matcher::onLine(const std::string& line) {
	sim::log("line %s", sim::quote(line).c_str());
	if ( line.empty() || line[0] != '#' ) return;
	Item* it = next("print " + line);
	++compared;
	if ( !it ) fail("extra-effect", "the program printed " + sim::quote(line) + " after its predicted end");
	bool match = it->k == Item::Out;
	if ( match ) {
		if ( !it->text.empty() && it->text.back() == '*' ) match = line.compare(0, it->text.size() - 1, it->text, 0, it->text.size() - 1) == 0;
		else match = line == it->text;
	}
	if ( !match ) {
		bool sameSite = it->k == Item::Out && it->text.substr(0, it->text.find(' ')) == line.substr(0, line.find(' '));
		fail(sameSite ? "wrong-value" : "wrong-effect", "the program printed " + sim::quote(line));
	}
	++pos; ++hard;
}

void Matcher::onBytes(const std::string& bytes) {
	for ( char c : bytes ) {
		if ( c == '\n' ) { std::string l; l.swap(partial); onLine(l); }
		else partial += c;
	}
}

long Matcher::onRead(int fd, void* buf, size_t n) {
	std::string what = fmt("read(%d, %zu)", fd, n);
	sim::log("%s", what.c_str());
	Item* it = next(what);
	++compared;
	if ( !it ) fail("extra-effect", what + " after the predicted end of the program");
	Item::Kind k = n == 4 ? Item::ReadInt : Item::ReadBool;
	if ( it->k != k || it->fd != fd ) fail("wrong-effect", "the program called " + what);
	++pos; ++hard;
	if ( it->fail ) { sim::count("fault.native-read"); sim::log(" -> error %d", it->err); return -it->err; }
	if ( n == 4 ) memcpy(buf, &it->value, 4);
	else *(char*)buf = (char)it->value;
	sim::log(" -> %d", it->value);
	return (long)n;
}

long Matcher::onWrite(int fd, const void* buf, size_t n) {
	int v = 0; if ( n == 4 ) memcpy(&v, buf, 4);
	std::string what = fmt("write(%d, %d)", fd, v);
	sim::log("%s", what.c_str());
	if ( fd == DEV_DTOR ) { destroyed(v); return (long)n; }
	Item* it = next(what);
	++compared;
	if ( !it ) fail("extra-effect", what + " after the predicted end of the program");
	if ( it->k != Item::WriteInt || it->fd != fd ) fail("wrong-effect", "the program called " + what);
	if ( it->value != v ) fail("wrong-value", "the program called " + what);
	++pos; ++hard;
	if ( it->fail ) { sim::count("fault.native-write"); return -it->err; }
	return (long)n;
}

void Matcher::finish(int status) {
	sim::log("end status %d", status);
	Item* it = next("end of program");
	++compared;
	if ( it ) fail("missing-effect", fmt("the program ended (status %d) before all predicted operations happened", status));
	if ( (status & 0xff) != ex->status ) fail("wrong-status", fmt("the program ended with status %d, expected %d", status & 0xff, ex->status));
	sim::S->evalUnits += compared;
}

void installDevices(Matcher& m) {
	using namespace sim;
	for ( int i = 0; i < 100; ++i ) {
		OpenFile f; f.device = i; f.readable = f.writable = true;
		W.fds[DEV_BASE + i] = f;
	}
	W.nextFd = DEV_BASE + 100;
	W.socketRead = [&m](int fd, void* b, size_t n) { return m.onRead(fd, b, n); };
	W.socketWrite = [&m](int fd, const void* b, size_t n) { return m.onWrite(fd, b, n); };
	W.onOutput = [&m](int fd, const std::string& b) { if ( fd == 1 ) m.onBytes(b); else sim::log("stderr %s", sim::quote(b).c_str()); };
}

}
