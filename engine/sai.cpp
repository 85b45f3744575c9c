// sai: abstract interpreter over LLVM IR. Entry functions ("scenarios") put the code under analysis into its most general
// environment; values are intervals + octagon + byte sets, memory is region based, calls are followed context-sensitively.
#include "state.h"
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <functional>
#include <iostream>
#include <fstream>
#include <ctime>

using namespace llvm;
using std::string;
using std::vector;

static bool verbose = false;
static string repoDir = "/repo";

struct RegionInfo {
	enum Kind { Null, Alloca, Heap, Global, Symbolic, Buffer, Str } kind;
	string name;
	const GlobalVariable* gv = nullptr;
	int parent = 0;
	i64 poff = 0;
	int ctx = 0;
	bool mayNull = false;
	bool deep = false;
	std::vector<int> deepOf; // a place in any of these // anything reachable from shared memory
};

struct FnInfo {
	std::map<const Value*, int> idx;
	int count = 0;
	std::map<const BasicBlock*, int> rpo;
	std::set<const BasicBlock*> heads;
	std::map<const BasicBlock*, vector<bool>> liveIn;
	std::set<const BasicBlock*> tail; // from where few blocks remain before the return
	int sret = -1; // argument where a returned structure is stored
	i64 sretSize = 0;
	vector<int> retObjects; // allocas whose content is returned
	string dem;
	bool inRepo = false;
	string file;
};

struct Outcome {
	State s;
	bool exc = false;
	int excType = 0;
	Val ret;
};

struct Alarm {
	string kind, loc, fn, msg, stack, trace;
};

struct Budget : std::exception { const char* what() const noexcept override { return "budget"; } };

class Engine {
public:
	Module& M;
	const DataLayout& DL;
	vector<RegionInfo> regions;
	std::map<std::pair<const void*, int>, int> regionKey;
	std::map<std::tuple<int, i64>, int> symKey;
	std::map<std::pair<int, i64>, Id> lazyId;
	vector<std::pair<int, const Instruction*>> ctxs;
	std::map<std::pair<int, const Instruction*>, int> ctxKey;
	std::map<const Function*, FnInfo> fis;
	Id nextId = 1;
	vector<const GlobalVariable*> ghosts;
	struct Watch { int r; i64 from, to; bool pointers; };
	vector<Watch> watched;
	std::map<string, i64> shapes;
	std::map<const GlobalVariable*, int> typeIds;
	vector<const GlobalVariable*> typeById{nullptr};
	std::shared_ptr<const Tab> identTab;

	// results
	std::map<string, Alarm> alarms;
	std::set<string> fnsAnalysed, unresolved, externals, recursionCuts, weakened;
	std::map<string, std::pair<i64, i64>> obligations; // location+kind -> (times proven, times failed)
	i64 nJoins = 0, nInsts = 0, nCalls = 0;
	i64 budget = 0;
	time_t deadline = 0;
	std::set<string> reached;
	string scenario;

	Engine(Module& m) : M(m), DL(m.getDataLayout()) {
		regions.push_back({RegionInfo::Null, "null"});
		ctxs.push_back({0, nullptr});
		auto t = std::make_shared<Tab>();
		for (int i = 0; i < 256; i++) (*t)[i] = (int8_t)i;
		identTab = t;
		for (auto& g : M.globals()) if (g.getName().starts_with("ghost_")) ghosts.push_back(&g);
	}

	// ---------- source locations
	string shortFile(StringRef f) {
		string s = f.str();
		auto p = s.rfind(repoDir + "/");
		if (p != string::npos) return s.substr(p + repoDir.size() + 1);
		return s;
	}
	bool isRepoFile(const DIFile* f) {
		if (!f) return false;
		string full = f->getFilename().str();
		if (full.empty() || full[0] != '/') full = f->getDirectory().str() + "/" + full;
		return full.rfind(repoDir + "/", 0) == 0;
	}
	string locOf(const Instruction* I) {
		if (!I) return "?";
		auto* d = I->getDebugLoc().get();
		if (!d) return "?";
		string f = d->getFilename().str();
		auto p = f.rfind('/');
		if (isRepoFile(d->getFile())) {
			string full = f[0] == '/' ? f : d->getDirectory().str() + "/" + f;
			return full.substr(repoDir.size() + 1) + ":" + std::to_string(d->getLine());
		}
		return (p == string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(d->getLine());
	}
	bool repoLoc(const Instruction* I) {
		auto* d = I ? I->getDebugLoc().get() : nullptr;
		return d && isRepoFile(d->getFile());
	}

	FnInfo& fi(const Function* F) {
		auto it = fis.find(F);
		if (it != fis.end()) return it->second;
		FnInfo& x = fis[F];
		x.dem = demangle(F->getName().str());
		if (auto* sp = F->getSubprogram()) { x.inRepo = isRepoFile(sp->getFile()); x.file = sp->getFilename().str(); }
		for (auto& a : F->args()) x.idx[&a] = x.count++;
		for (auto& b : *F) for (auto& i : b) if (!i.getType()->isVoidTy()) x.idx[&i] = x.count++;
		if (F->isDeclaration()) return x;
		for (auto& a : F->args()) if (a.hasStructRetAttr()) {
			x.sret = x.idx[&a];
			x.sretSize = DL.getTypeAllocSize(a.getParamStructRetType());
			if (x.sretSize > 32) x.sret = -1;
		}
		for (auto& b : *F) if (isa<ReturnInst>(b.getTerminator())) for (auto& I : b) {
			auto* L = dyn_cast<LoadInst>(&I);
			auto* al = L ? dyn_cast<AllocaInst>(L->getPointerOperand()->stripInBoundsConstantOffsets()) : nullptr;
			auto f = al ? x.idx.find(al) : x.idx.end();
			if (f != x.idx.end() && std::find(x.retObjects.begin(), x.retObjects.end(), f->second) == x.retObjects.end()) x.retObjects.push_back(f->second);
		}
		if (!x.retObjects.empty() || x.sret >= 0) for (auto& b : *F) {
			std::set<const BasicBlock*> seen{&b};
			vector<const BasicBlock*> todo{&b};
			bool ends = false;
			while (!todo.empty() && seen.size() <= 12) {
				auto* c = todo.back();
				todo.pop_back();
				if (isa<ReturnInst>(c->getTerminator())) ends = true;
				for (auto* s : successors(c)) if (seen.insert(s).second) todo.push_back(s);
			}
			if (ends && seen.size() <= 12) x.tail.insert(&b);
		}
		DominatorTree DT(*const_cast<Function*>(F));
		LoopInfo LI(DT);
		vector<const BasicBlock*> order;
		std::set<const BasicBlock*> seen;
		std::function<void(const BasicBlock*)> dfs = [&](const BasicBlock* b) {
			seen.insert(b);
			for (auto* s : successors(b)) if (!seen.count(s)) dfs(s);
			order.push_back(b);
		};
		dfs(&F->getEntryBlock());
		std::reverse(order.begin(), order.end());
		for (size_t i = 0; i < order.size(); i++) x.rpo[order[i]] = i;
		for (auto* b : order) {
			if (LI.isLoopHeader(const_cast<BasicBlock*>(b))) x.heads.insert(b);
			for (auto* s : successors(b)) if (x.rpo[s] <= x.rpo[b]) x.heads.insert(s);
		}
		// liveness
		for (auto* b : order) x.liveIn[b] = vector<bool>(x.count, false);
		bool ch = true;
		while (ch) {
			ch = false;
			for (auto it2 = order.rbegin(); it2 != order.rend(); ++it2) {
				auto* b = *it2;
				vector<bool> live(x.count, false);
				for (auto* s : successors(b)) {
					auto& ls = x.liveIn[s];
					for (int i = 0; i < x.count; i++) if (ls[i]) live[i] = true;
					for (auto& phi : s->phis()) {
						auto* v = phi.getIncomingValueForBlock(b);
						auto f = x.idx.find(v);
						if (f != x.idx.end()) live[f->second] = true;
					}
				}
				for (auto ii = b->rbegin(); ii != b->rend(); ++ii) {
					auto f = x.idx.find(&*ii);
					if (f != x.idx.end()) live[f->second] = false;
					if (isa<PHINode>(*ii)) continue;
					for (auto& op : ii->operands()) {
						auto g = x.idx.find(op.get());
						if (g != x.idx.end()) live[g->second] = true;
					}
				}
				// phi results are defined at entry: not live in
				for (auto& phi : b->phis()) live[x.idx[&phi]] = false;
				if (live != x.liveIn[b]) { x.liveIn[b] = live; ch = true; }
			}
		}
		return x;
	}

	int ctxOf(int parent, const Instruction* I) {
		auto it = ctxKey.find({parent, I});
		if (it != ctxKey.end()) return it->second;
		ctxs.push_back({parent, I});
		return ctxKey[{parent, I}] = ctxs.size() - 1;
	}
	int regionFor(const void* key, int ctx, RegionInfo info) {
		auto it = regionKey.find({key, ctx});
		if (it != regionKey.end()) return it->second;
		info.ctx = ctx;
		regions.push_back(info);
		return regionKey[{key, ctx}] = regions.size() - 1;
	}

	// ---------- alarms
	string stackStr(const State& s, const Instruction* I) {
		string out = locOf(I);
		for (int i = (int)s.fr.size() - 1; i >= 0; i--) {
			out += " in " + fnShort(s.fr[i].F);
			auto* call = ctxs[s.fr[i].ctx].second;
			if (call) out += " <- " + locOf(call);
		}
		return out;
	}
	string fnShort(const Function* F) {
		string d = fi(F).dem;
		return d.size() > 120 ? d.substr(0, 120) + "..." : d;
	}
	// innermost location inside the repository
	std::pair<string, string> repoAnchor(const State& s, const Instruction* I) {
		if (repoLoc(I)) return {locOf(I), s.fr.empty() ? "" : fi(s.fr.back().F).dem};
		for (int i = (int)s.fr.size() - 1; i >= 0; i--) {
			auto* call = ctxs[s.fr[i].ctx].second;
			if (call && repoLoc(call)) return {locOf(call), i > 0 ? fi(s.fr[i - 1].F).dem : ""};
		}
		return {locOf(I), s.fr.empty() ? "" : fi(s.fr.back().F).dem};
	}
	void oblige(const State& s, const Instruction* I, const string& kind, bool ok, const string& msg) {
		auto [loc, fn] = repoAnchor(s, I);
		auto& o = obligations[kind + (kind == "check" ? " " + msg : "") + " @ " + loc];
		(ok ? o.first : o.second)++;
		if (!ok) alarm(s, I, kind, msg);
	}
	void alarm(const State& s, const Instruction* I, const string& kind, const string& msg) {
		auto [loc, fn] = repoAnchor(s, I);
		string key = kind + "|" + loc + "|" + (kind == "check" ? msg : "");
		if (alarms.count(key)) return;
		string tr;
		int cnt = 0;
		for (auto p = s.tr; p && cnt < 40; p = p->prev, cnt++) tr = p->what + (tr.empty() ? "" : " ; ") + tr;
		alarms[key] = {kind, loc, fn, msg, stackStr(s, I), tr};
		if (verbose) errs() << "ALARM " << kind << " " << loc << " " << msg << "\n   " << stackStr(s, I) << "\n   trace " << tr << "\n";
	}

	// ---------- values
	Id fresh(State& s, i64 lo, i64 hi) {
		Id i = nextId++;
		s.n.iv[i] = {lo, hi};
		return i;
	}
	Iv typeRange(Type* T) {
		unsigned w = T->isIntegerTy() ? T->getIntegerBitWidth() : 64;
		if (w == 1) return {0, 1};
		if (w >= 62) return {-(i64(1) << 61), i64(1) << 61};
		return {-(i64(1) << (w - 1)), (i64(1) << (w - 1)) - 1};
	}
	Val freshVal(State& s, Type* T) {
		if (T->isIntegerTy(8)) return freshByte(s);
		if (T->isIntegerTy()) { Iv r = typeRange(T); return Val::num(Lin::var(fresh(s, r.lo, r.hi))); }
		if (auto* st = dyn_cast<StructType>(T)) {
			vector<Val> e;
			for (auto* el : st->elements()) e.push_back(freshVal(s, el));
			return Val::agg(e);
		}
		return Val::top();
	}
	Val freshByte(State& s) {
		Id i = nextId++;
		s.n.bytes[i].set();
		return Val::byteOf(i, identTab);
	}
	std::set<i64> byteVals(const State& s, const Val& v) {
		std::set<i64> r;
		auto f = s.n.bytes.find(v.b);
		for (int i = 0; i < 256; i++) if (f == s.n.bytes.end() || f->second[i]) r.insert((*v.t)[i]);
		return r;
	}
	Lin asLin(State& s, const Val& v, Type* T) {
		switch (v.k) {
		case Val::Int: return v.l;
		case Val::Byte: {
			auto vals = byteVals(s, v);
			if (vals.empty()) { s.n.bottom = true; return Lin(0); }
			if (vals.size() == 1) return Lin(*vals.begin());
			return Lin::var(fresh(s, *vals.begin(), *vals.rbegin()));
		}
		case Val::Bool: {
			int e = evalBX(s, v.x);
			if (e >= 0) return Lin(e);
			return Lin::var(fresh(s, 0, 1));
		}
		default: {
			Iv r = typeRange(T);
			return Lin::var(fresh(s, r.lo, r.hi));
		}
		}
	}

	// ---------- booleans
	int evalBX(State& s, const BXP& x) { // 1 true, 0 false, -1 unknown
		switch (x->op) {
		case BX::CMP_LE:
			if (s.n.upper(x->a) <= 0) return 1;
			if (s.n.lower(x->a) > 0) return 0;
			return -1;
		case BX::CMP_EQ: {
			i64 u = s.n.upper(x->a), l = s.n.lower(x->a);
			if (u == 0 && l == 0) return 1;
			if (u < 0 || l > 0 || !s.n.canBeZero(x->a)) return 0;
			return -1;
		}
		case BX::NULLP: {
			auto f = s.nullness.find(x->region);
			return f == s.nullness.end() ? -1 : f->second == 1;
		}
		case BX::BYTE: {
			auto f = s.n.bytes.find(x->byte);
			bool t = false, fl = false;
			for (int i = 0; i < 256; i++) if (f == s.n.bytes.end() || f->second[i]) ((*x->tab)[i] ? t : fl) = true;
			return t && fl ? -1 : t ? 1 : 0;
		}
		case BX::AND: {
			int a = evalBX(s, x->l), b = evalBX(s, x->r);
			if (a == 0 || b == 0) return 0;
			return a == 1 && b == 1 ? 1 : -1;
		}
		case BX::OR: {
			int a = evalBX(s, x->l), b = evalBX(s, x->r);
			if (a == 1 || b == 1) return 1;
			return a == 0 && b == 0 ? 0 : -1;
		}
		case BX::NOT: {
			int a = evalBX(s, x->l);
			return a < 0 ? -1 : !a;
		}
		default: return -1;
		}
	}
	void assume(State s, const BXP& x, bool truth, vector<State>& out) {
		switch (x->op) {
		case BX::CMP_LE:
			if (truth ? s.n.assumeLe0(x->a) : s.n.assumeLe0(Lin(1).minus(x->a))) out.push_back(std::move(s));
			return;
		case BX::CMP_EQ:
			if (truth) { if (s.n.canBeZero(x->a) && s.n.assumeEq0(x->a)) out.push_back(std::move(s)); return; }
			else {
				i64 u = s.n.upper(x->a), l = s.n.lower(x->a);
				if (u == 0 && l == 0) return;
				if (u == 0) { if (!s.n.assumeLe0(x->a.plus(Lin(1)))) return; }
				else if (l == 0) { if (!s.n.assumeLe0(Lin(1).minus(x->a))) return; }
				s.n.notZero(x->a);
				if (s.n.bottom) return;
				out.push_back(std::move(s));
			}
			return;
		case BX::NULLP: {
			auto f = s.nullness.find(x->region);
			int want = truth ? 1 : 2;
			if (f != s.nullness.end() && f->second != want) return;
			s.nullness[x->region] = want;
			out.push_back(std::move(s));
			return;
		}
		case BX::BYTE: {
			auto& b = s.n.bytes[x->byte];
			for (int i = 0; i < 256; i++) if (bool((*x->tab)[i]) != truth) b.reset(i);
			if (b.any()) out.push_back(std::move(s));
			return;
		}
		case BX::NOT: assume(std::move(s), x->l, !truth, out); return;
		case BX::AND:
		case BX::OR: {
			bool conj = (x->op == BX::AND) == truth;
			if (conj) {
				vector<State> mid;
				assume(std::move(s), x->l, truth, mid);
				for (auto& m : mid) assume(std::move(m), x->r, truth, out);
			} else {
				vector<State> mid;
				State copy = s;
				assume(std::move(copy), x->l, truth, out);
				assume(std::move(s), x->l, !truth, mid);
				for (auto& m : mid) assume(std::move(m), x->r, truth, out);
			}
			return;
		}
		default: out.push_back(std::move(s));
		}
	}
	BXP mk(BX b) { return std::make_shared<const BX>(std::move(b)); }
	BXP bxOf(State& s, const Val& v) {
		if (v.k == Val::Bool) return v.x;
		if (v.k == Val::Byte) { BX b; b.op = BX::BYTE; b.byte = v.b; b.tab = v.t; return mk(b); }
		if (v.k == Val::Int) {
			BX e; e.op = BX::CMP_EQ; e.a = v.l;
			BX n; n.op = BX::NOT; n.l = mk(e);
			return mk(n);
		}
		Id i = fresh(s, 0, 1);
		BX e; e.op = BX::CMP_LE; e.a = Lin(1).minus(Lin::var(i));
		return mk(e);
	}
	BXP constBX(bool b) { BX e; e.op = BX::CMP_LE; e.a = Lin(b ? 0 : 1); return mk(e); }

#include "mem.inc"
#include "join.inc"
#include "exec.inc"
#include "models.inc"
#include "locks.inc"

	void run(const Function* F) {
		State s;
		Outcome o;
		vector<Outcome> outs = callFunction(s, F, {}, nullptr, 0);
		for (auto& x : outs) if (x.exc) reached.insert("exception leaves scenario");
		if (!outs.empty()) reached.insert("scenario returns");
	}
};

int main(int argc, char** argv) {
	string bc, outFile;
	vector<string> scen;
	i64 budget = 40000000;
	time_t deadline = std::numeric_limits<time_t>::max();
	for (int i = 1; i < argc; i++) {
		string a = argv[i];
		if (a == "-v") verbose = true;
		else if (a == "-o") outFile = argv[++i];
		else if (a == "--repo") repoDir = argv[++i];
		else if (a == "--seconds") deadline = time(nullptr) + atoll(argv[++i]);
		else if (a == "--budget") budget = atoll(argv[++i]);
		else if (bc.empty()) bc = a;
		else scen.push_back(a);
	}
	LLVMContext ctx;
	SMDiagnostic err;
	auto M = parseIRFile(bc, err, ctx);
	if (!M) { err.print("sai", errs()); return 3; }
	json::Array results;
	int rc = 0;
	for (auto& name : scen) {
		Engine E(*M);
		E.scenario = name;
		E.budget = budget;
		E.deadline = deadline;
		auto* F = M->getFunction(name);
		json::Object r;
		r["scenario"] = name;
		string status = "ok";
		clock_t t0 = clock();
		if (!F || F->isDeclaration()) status = "missing";
		else try { E.run(F); } catch (Budget&) { status = "budget"; }
		E.judgeAccesses();
		r["status"] = status;
		r["cpu_s"] = double(clock() - t0) / CLOCKS_PER_SEC;
		json::Array al;
		for (auto& [k, a] : E.alarms) al.push_back(json::Object{{"kind", a.kind}, {"loc", a.loc}, {"fn", a.fn}, {"msg", a.msg}, {"stack", a.stack}, {"trace", a.trace}});
		r["alarms"] = std::move(al);
		auto strs = [](auto& c) { json::Array x; for (auto& s : c) x.push_back(s); return x; };
		r["functions"] = strs(E.fnsAnalysed);
		r["unresolved"] = strs(E.unresolved);
		r["externals"] = strs(E.externals);
		r["recursion_cuts"] = strs(E.recursionCuts);
		r["reached"] = strs(E.reached);
		json::Object ob;
		for (auto& [k, v] : E.obligations) ob[k] = json::Array{v.first, v.second};
		r["obligations"] = std::move(ob);
		r["joins"] = E.nJoins;
		r["instructions"] = E.nInsts;
		r["calls"] = E.nCalls;
		results.push_back(std::move(r));
	}
	string txt;
	raw_string_ostream os(txt);
	os << json::Value(std::move(results));
	if (outFile.empty()) outs() << os.str() << "\n";
	else std::ofstream(outFile) << os.str();
	return rc;
}
