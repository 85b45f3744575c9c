// Abstract values, memory and joins.
#pragma once
#include "num.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>

using Tab = std::array<i64, 256>;
struct BX;
using BXP = std::shared_ptr<const BX>;
struct BX { // symbolic boolean
	enum Op { CMP_LE, CMP_EQ, NULLP, BYTE, AND, OR, NOT, UNK } op = UNK;
	Lin a;      // CMP_LE: a <= 0; CMP_EQ: a == 0
	int region = 0; // NULLP
	Id byte = 0;
	std::shared_ptr<const Tab> tab; // BYTE: true iff nonzero
	BXP l, r;
};

constexpr i64 NOSUB = INT64_MIN;
struct Val {
	enum K : uint8_t { Top, Int, Ptr, Fn, Agg, Byte, Bool } k = Top;
	Lin l;
	int r = 0; // region, 0 is null
	bool mn = false; // may be null as well
	i64 sLo = NOSUB, sHi = NOSUB; // bounds of the array subobject a pointer was derived from; byte: it is byte sLo of the number l of sHi bytes
	const llvm::Function* f = nullptr;
	std::shared_ptr<const std::vector<Val>> a;
	Id b = 0;
	std::shared_ptr<const Tab> t;
	BXP x;
	static Val top() { return {}; }
	static Val num(const Lin& l) { Val v; v.k = Int; v.l = l; return v; }
	static Val ptr(int r, const Lin& o) { Val v; v.k = Ptr; v.r = r; v.l = o; return v; }
	static Val fn(const llvm::Function* f) { Val v; v.k = Fn; v.f = f; return v; }
	static Val agg(std::vector<Val> e) { Val v; v.k = Agg; v.a = std::make_shared<const std::vector<Val>>(std::move(e)); return v; }
	static Val boolean(BXP x) { Val v; v.k = Bool; v.x = x; return v; }
	static Val byteOf(Id b, std::shared_ptr<const Tab> t) { Val v; v.k = Byte; v.b = b; v.t = t; return v; }
	bool slice() const { return k == Byte && sLo != NOSUB; }
	bool isC(i64& c) const { if (k == Int && l.isConst()) { c = l.k; return true; } return false; }
};

inline bool bxEq(const BXP& a, const BXP& b) {
	if (a == b) return true;
	if (!a || !b || a->op != b->op) return false;
	if (a->op == BX::UNK) return false;
	if (a->byte != b->byte || a->region != b->region || a->a != b->a) return false;
	if (a->tab != b->tab && !(a->tab && b->tab && *a->tab == *b->tab)) return false;
	return ((!a->l && !b->l) || bxEq(a->l, b->l)) && ((!a->r && !b->r) || bxEq(a->r, b->r));
}
inline bool valEq(const Val& a, const Val& b) {
	if (a.k != b.k) return false;
	switch (a.k) {
	case Val::Top: return true;
	case Val::Int: return a.l == b.l;
	case Val::Ptr: return a.r == b.r && a.mn == b.mn && a.l == b.l && a.sLo == b.sLo && a.sHi == b.sHi;
	case Val::Fn: return a.f == b.f;
	case Val::Agg:
		if (a.a == b.a) return true;
		if (a.a->size() != b.a->size()) return false;
		for (size_t i = 0; i < a.a->size(); i++) if (!valEq((*a.a)[i], (*b.a)[i])) return false;
		return true;
	case Val::Byte: return a.b == b.b && (a.t == b.t || *a.t == *b.t);
	case Val::Bool: return bxEq(a.x, b.x);
	}
	return false;
}

struct Cell { Val v; unsigned size; };
using Cells = std::map<i64, Cell>;

enum class Def : uint8_t { Uninit, Lazy, Const, Zero, Any, Bytes };
struct RS {
	bool hasSize = false;
	Lin size;
	Def def = Def::Any;
	bool weak = false, freed = false;
	Lin zeroFrom = Lin(0); bool tracksZero = false; // bytes from zeroFrom to the end of the region are known to be zero
	std::shared_ptr<Cells> cells = std::make_shared<Cells>();
};

struct Frame {
	const llvm::Function* F = nullptr;
	int ctx = 0;
	std::shared_ptr<std::vector<Val>> v;
	std::shared_ptr<std::vector<bool>> has;
};

struct Trace {
	std::shared_ptr<const Trace> prev;
	std::string what;
	int n;
};

struct State {
	std::vector<Frame> fr;
	std::map<int, RS> regs;
	std::map<int, int> nullness; // maybe-null symbolic region: 1 null, 2 not null
	std::map<std::pair<int, Lin>, Val> cache; // contents read from byte buffers
	Num n;
	std::shared_ptr<const Trace> tr;
	int excType = 0; // type of the exception being propagated, 0 unknown
	Val excVal;
	int landing = 0; // selector the next landing pad yields
	std::vector<std::pair<int, Val>> caught;
	std::map<std::pair<int, i64>, int> locks; // held: 1 shared, 2 exclusive

	RS& reg(int r) { return regs[r]; }
	Cells& wcells(int r) {
		RS& s = regs[r];
		if (s.cells.use_count() > 1) s.cells = std::make_shared<Cells>(*s.cells);
		return *s.cells;
	}
};
