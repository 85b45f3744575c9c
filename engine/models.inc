// calls: intrinsics of the analysis, of LLVM and of the C and C++ runtime (part of class Engine)

vector<Outcome> one(State& s, Val ret = Val::top()) {
	Outcome o;
	o.ret = std::move(ret);
	o.s = std::move(s);
	vector<Outcome> v;
	v.push_back(std::move(o));
	return v;
}
void addExc(vector<Outcome>& v, State s, int type, Val obj = Val::top(), const Instruction* I = nullptr) {
	if (I && getenv("EXC")) errs() << "exception " << type << " " << stackStr(s, I) << "\n";
	Outcome o;
	o.exc = true;
	o.s = std::move(s);
	o.s.excType = type;
	o.s.excVal = obj;
	v.push_back(std::move(o));
}
Type* i64T() { return Type::getInt64Ty(M.getContext()); }
Type* i8T() { return Type::getInt8Ty(M.getContext()); }
Type* ptrT() { return PointerType::get(M.getContext(), 0); }

string cstr(const Val& v) { // constant C string
	if (v.k != Val::Ptr || !v.r || !v.l.isConst()) return "?";
	auto* g = regions[v.r].gv;
	if (!g || !g->hasInitializer()) return "?";
	const Constant* init = g->getInitializer();
	while (auto* st = dyn_cast<ConstantStruct>(init)) {
		if (st->getNumOperands() != 1) return "?";
		init = st->getOperand(0);
	}
	auto* d = dyn_cast<ConstantDataArray>(init);
	if (!d || !d->isString()) return "?";
	string s = d->getAsString().str();
	if ((size_t)v.l.k > s.size()) return "?";
	s = s.substr(v.l.k);
	return s.substr(0, s.find('\0'));
}
bool knownByte(State& s, int r, i64 off, i64& c) { // the value of a byte in memory, if it is surely known
	RS& R = ensure(s, r);
	if (R.weak) return false;
	for (auto it = R.cells->upper_bound(off); it != R.cells->begin();) {
		--it;
		if (it->first + (i64)it->second.size > off) {
			const Val& v = it->second.v;
			if (v.isC(c)) {
				if (it->second.size > 8) return false;
				c = (int8_t)((uint64_t)c >> (8 * (off - it->first)));
				return true;
			}
			if (it->second.size != 1 || v.k != Val::Byte) return false;
			auto b = byteVals(s, v);
			if (b.size() != 1) return false;
			c = *b.begin();
			return true;
		}
		if (it->first + 16 < off) break;
	}
	if (R.def == Def::Const) return defaultVal(s, r, off, i8T()).isC(c);
	if (R.def == Def::Zero) { c = 0; return true; }
	return false;
}
bool constBytes(State& s, const Val& p, i64 n, string& out, const string* compared = nullptr) { // n known bytes at p; bytes that surely differ from all compared are represented by one that does
	if (p.k != Val::Ptr || !p.r || !p.l.isConst()) return false;
	out.clear();
	for (i64 i = 0; i < n; i++) {
		i64 c;
		if (!knownByte(s, p.r, p.l.k + i, c)) {
			if (!compared) return false;
			RS& R = ensure(s, p.r);
			if (R.weak) return false;
			auto it = R.cells->find(p.l.k + i);
			if (it == R.cells->end() || it->second.size != 1 || it->second.v.k != Val::Byte) return false;
			auto b = byteVals(s, it->second.v);
			for (char x : *compared) if (b.count(x)) return false;
			if (b.empty()) return false;
			c = *b.begin();
		}
		out += (char)c;
	}
	return true;
}
Val loadByteAt(State& s, const Instruction* I, const Val& p, const Lin& off) {
	Val q = p;
	q.l = q.l.plus(off);
	return load(s, I, q, i8T());
}
// ---------- std::string
struct Str { int r = 0; i64 off = 0; };
bool strOf(State& s, const Val& p, Str& o) {
	if (p.k != Val::Ptr || !p.r || !p.l.isConst()) return false;
	RS& R = ensure(s, p.r);
	if (R.weak) return false;
	o.r = p.r;
	o.off = p.l.k;
	return true;
}
Lin strLen(State& s, const Instruction* I, const Val& p) {
	Val q = p;
	if (q.k != Val::Ptr || !q.r) return Lin::var(fresh(s, 0, i64(1) << 30));
	q.l = q.l.plus(Lin(8));
	Val v = load(s, I, q, i64T());
	if (v.k != Val::Int) return Lin::var(fresh(s, 0, i64(1) << 30));
	Iv r = s.n.range(v.l);
	if (r.lo < 0) { s.n.assumeLe0(v.l.scaled(-1)); s.n.assumeLe0(v.l.minus(Lin(i64(1) << 30))); }
	return v.l;
}
Val strData(State& s, const Instruction* I, const Val& p) {
	if (p.k != Val::Ptr) return Val::top();
	return load(s, I, p, ptrT());
}
// gives the string at p a content of the given length
void strSet(State& s, const Instruction* I, const Val& p, const Lin& len) {
	Str o;
	if (!strOf(s, p, o)) return;
	RegionInfo info{RegionInfo::Str, "contents of a string in " + regions[o.r].name};
	string key = std::to_string(o.r) + ":" + std::to_string(o.off);
	auto& k = strKeys[key];
	if (!k) { regions.push_back(info); k = regions.size() - 1; }
	RS x;
	x.hasSize = true;
	x.size = len.plus(Lin(1));
	x.def = Def::Bytes;
	s.regs[k] = x;
	for (auto c = s.cache.begin(); c != s.cache.end();) c = c->first.first == k ? s.cache.erase(c) : std::next(c);
	store(s, I, p, Val::ptr(k, Lin(0)), ptrT());
	Val q = p;
	q.l = q.l.plus(Lin(8));
	store(s, I, q, Val::num(len), i64T());
}
std::map<string, int> strKeys;
Lin lenFresh(State& s) { return Lin::var(fresh(s, 0, i64(1) << 30)); }
Lin boundLen(State& s, const Lin& l) { // lengths are taken to stay below 2^30
	if (s.n.upper(l) > (i64(1) << 30)) {
		if (l.isConst()) return l;
		s.n.assumeLe0(l.minus(Lin(i64(1) << 30)));
	}
	return l;
}

int unknownException = 0;
bool startsWith(const string& s, const char* p) { return s.rfind(p, 0) == 0; }

vector<Outcome> doCall(State& s, const CallBase* I) {
	const Value* cal = I->getCalledOperand();
	if (isa<InlineAsm>(cal)) return one(s, freshVal(s, I->getType()));
	vector<Val> args;
	for (auto& a : I->args()) args.push_back(getV(s, a.get()));
	const Function* F = nullptr;
	Val cv;
	if (auto* f = dyn_cast<Function>(cal->stripPointerCastsAndAliases())) F = f;
	else {
		cv = getV(s, cal);
		if (cv.k == Val::Fn) F = cv.f;
	}
	if (!F) {
		if (!args.empty() && args[0].k == Val::Ptr && args[0].r
				&& (args[0].r == unknownException || std::any_of(s.caught.begin(), s.caught.end(), [&](auto& c) { return c.second.k == Val::Ptr && c.second.r == args[0].r; }))) return one(s, freshVal(s, I->getType())); // what()
		auto [loc, fn] = repoAnchor(s, I);
		unresolved.insert(loc + " in " + fn.substr(0, 100));
		return havocCall(s, I, args, !I->doesNotThrow());
	}
	// by-value structure arguments are copied
	for (unsigned i = 0; i < I->arg_size(); i++)
		if (I->isByValArgument(i) && args[i].k == Val::Ptr) {
			Type* T = I->getParamByValType(i);
			RegionInfo info{RegionInfo::Alloca, "argument copy"};
			int r = regionFor(&I->getArgOperandUse(i), ctxOf(s.fr.back().ctx, I), info);
			RS x;
			x.hasSize = true;
			x.size = Lin((i64)DL.getTypeAllocSize(T).getFixedValue());
			x.def = Def::Uninit;
			s.regs[r] = x;
			Val d = Val::ptr(r, Lin(0));
			copyMem(s, I, d, args[i], Val::num(x.size));
			args[i] = d;
		}
	vector<Outcome> out;
	if (model(s, I, F, args, out)) return out;
	if (F->isDeclaration()) {
		externals.insert(fi(F).dem);
		return havocCall(s, I, args, !F->doesNotThrow() && !I->doesNotThrow());
	}
	int depth = 0;
	for (auto& f : s.fr) depth += f.F == F;
	if (depth >= 3 || s.fr.size() > 60) {
		recursionCuts.insert(fi(F).dem);
		return havocCall(s, I, args, !F->doesNotThrow() && !I->doesNotThrow());
	}
	int ctx = ctxOf(s.fr.back().ctx, I);
	auto res = callFunction(s, F, args, I, ctx);
	if (F->doesNotThrow() || I->doesNotThrow()) for (auto& o : res) if (o.exc) {
		// an exception leaving a noexcept function ends the program; clang routes this through a terminate pad
		o.s.n.bottom = true;
	}
	return res;
}
vector<Outcome> havocCall(State& s, const CallBase* I, const vector<Val>& args, bool mayThrow) {
	havocFrom(s, args);
	vector<Outcome> out;
	if (I->doesNotReturn()) { if (mayThrow) addExc(out, s, 0); return out; }
	if (mayThrow) addExc(out, s, 0, Val::top(), I);
	Outcome o;
	o.ret = freshVal(s, I->getType());
	o.s = std::move(s);
	out.push_back(std::move(o));
	return out;
}
int heapAt(State& s, const CallBase* I, const Lin& size, const char* nm, bool bytes = false) {
	return newHeap(s, I, s.fr.back().ctx, size, nm, bytes);
}
BXP memEqual(State& s, const CallBase* I, const Val& a, const Val& b, i64 n) { // n constant; both readable
	BXP acc = constBX(true);
	for (i64 i = 0; i < n; i++) {
		Val x = loadByteAt(s, I, a, Lin(i)), y = loadByteAt(s, I, b, Lin(i));
		acc = mkAnd(acc, cmpBX(s, CmpInst::ICMP_EQ, x, y, i8T()));
	}
	return acc;
}

bool model(State& s, const CallBase* I, const Function* F, vector<Val>& args, vector<Outcome>& out) {
	StringRef n = F->getName();
	auto lin = [&](unsigned i) { return asLin(s, args[i], I->getArgOperand(i)->getType()); };
	auto ret = [&](Val v = Val::top()) { out = one(s, std::move(v)); return true; };
	// ----- intrinsics of the analysis
	if (n.starts_with("sa_")) {
		if (n == "sa_int") {
			Lin lo = lin(0), hi = lin(1);
			i64 l = s.n.lower(lo), h = s.n.upper(hi);
			Id id = fresh(s, l, h);
			if (!lo.isConst()) s.n.assumeLe0(lo.minus(Lin::var(id)));
			if (!hi.isConst()) s.n.assumeLe0(Lin::var(id).minus(hi));
			return ret(Val::num(Lin::var(id)));
		}
		if (n == "sa_bool") return ret(Val::boolean(unkBX(s)));
		if (n == "sa_enum") {
			i64 l = s.n.lower(lin(0)), h = s.n.upper(lin(1));
			for (i64 v = l; v <= h; v++) { State q = s; auto r = one(q, Val::num(Lin(v))); out.push_back(std::move(r[0])); }
			return true;
		}
		if (n == "sa_buf") {
			int r = heapAt(s, I, lin(0), "buffer", true);
			return ret(Val::ptr(r, Lin(0)));
		}
		if (n == "sa_check") {
			BXP x = bxOf(s, args[0]);
			int e = evalBX(s, x);
			string msg = cstr(args[1]);
			oblige(s, I, "check", e == 1, msg);
			reached.insert("check: " + msg);
			if (e == 0) { s.n.bottom = true; return ret(); }
			vector<State> t;
			assume(std::move(s), x, true, t);
			for (auto& q : t) { auto r = one(q); out.push_back(std::move(r[0])); }
			return true;
		}
		if (n == "sa_possible") { // raises unless the condition is definitely false
			BXP x = bxOf(s, args[0]);
			int e = evalBX(s, x);
			return ret(Val::num(Lin(e != 0)));
		}
		if (n == "sa_definite") return ret(Val::num(Lin(evalBX(s, bxOf(s, args[0])) == 1)));
		if (n == "sa_assume") {
			vector<State> t;
			assume(std::move(s), bxOf(s, args[0]), true, t);
			for (auto& q : t) { auto r = one(q); out.push_back(std::move(r[0])); }
			return true;
		}
		if (n == "sa_modes" || n == "sa_shape") { // keeps states where the object is in different modes apart
			if (args[0].k == Val::Ptr && args[0].r && args[0].l.isConst() && args[1].l.isConst()) {
				Watch w{args[0].r, args[0].l.k, args[0].l.k + args[1].l.k, n == "sa_shape"};
				bool there = false;
				for (auto& x : watched) there |= x.r == w.r && x.from == w.from;
				if (!there) watched.push_back(w);
			}
			return ret();
		}
		if (n == "sa_shared" || n == "sa_guard" || n == "sa_unlocked") { lockIntrinsic(s, I, n, args); return ret(); }
		if (n == "sa_locked") return ret(Val::num(Lin(!s.locks.empty())));
		if (n == "sa_reach") { reached.insert(cstr(args[0])); return ret(); }
		if (n == "sa_opaque") { havocFrom(s, {args[0]}); return ret(); }
		if (n == "sa_throw_any") { addExc(out, s, 0); return true; }
		if (n == "sa_dump") { dump(s, args); return ret(); }
	}
	// ----- LLVM intrinsics
	if (F->isIntrinsic()) {
		switch (F->getIntrinsicID()) {
		case Intrinsic::memcpy:
		case Intrinsic::memmove:
		case Intrinsic::memcpy_inline: copyMem(s, I, args[0], args[1], args[2]); return ret();
		case Intrinsic::threadlocal_address: return ret(args[0]); // Of the only thread, or of any of them
		case Intrinsic::memset: setMem(s, I, args[0], args[1], args[2]); return ret();
		case Intrinsic::lifetime_start: {
			if (args[1].k == Val::Ptr && args[1].r && args[1].l.isConst() && args[1].l.k == 0) {
				RS& R = ensure(s, args[1].r);
				R.cells = std::make_shared<Cells>();
				R.def = Def::Uninit;
				R.freed = false;
			}
			return ret();
		}
		case Intrinsic::lifetime_end: {
			if (args[1].k == Val::Ptr && args[1].r && args[1].l.isConst() && args[1].l.k == 0 && regions[args[1].r].kind == RegionInfo::Alloca) {
				RS& R = ensure(s, args[1].r);
				R.cells = std::make_shared<Cells>();
				R.def = Def::Uninit;
				for (auto c = s.cache.begin(); c != s.cache.end();) c = c->first.first == args[1].r ? s.cache.erase(c) : std::next(c);
			}
			return ret();
		}
		case Intrinsic::assume: {
			vector<State> t;
			assume(std::move(s), bxOf(s, args[0]), true, t);
			for (auto& q : t) { auto r = one(q); out.push_back(std::move(r[0])); }
			return true;
		}
		case Intrinsic::expect:
		case Intrinsic::launder_invariant_group:
		case Intrinsic::strip_invariant_group: return ret(args[0]);
		case Intrinsic::eh_typeid_for: return ret(Val::num(Lin(typeId(I->getArgOperand(0)))));
		case Intrinsic::umax:
		case Intrinsic::smax:
		case Intrinsic::umin:
		case Intrinsic::smin: {
			auto id = F->getIntrinsicID();
			bool mx = id == Intrinsic::umax || id == Intrinsic::smax, uns = id == Intrinsic::umax || id == Intrinsic::umin;
			BXP c = cmpBX(s, uns ? CmpInst::ICMP_UGT : CmpInst::ICMP_SGT, args[0], args[1], I->getType());
			for (bool tv : {true, false}) {
				vector<State> t;
				assume(s, c, tv, t);
				for (auto& q : t) { auto r = one(q, args[tv == mx ? 0 : 1]); out.push_back(std::move(r[0])); }
			}
			return true;
		}
		case Intrinsic::umul_with_overflow:
		case Intrinsic::uadd_with_overflow:
		case Intrinsic::usub_with_overflow:
		case Intrinsic::smul_with_overflow:
		case Intrinsic::sadd_with_overflow:
		case Intrinsic::ssub_with_overflow: {
			Type* T = I->getArgOperand(0)->getType();
			Lin a = lin(0), b = lin(1);
			Iv t = typeRange(T);
			auto id = F->getIntrinsicID();
			Lin r;
			bool ok = true;
			if (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) {
				if (b.isConst()) r = a.scaled(b.k); else if (a.isConst()) r = b.scaled(a.k); else ok = false;
			} else r = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow ? a.plus(b) : a.minus(b);
			bool uns = id == Intrinsic::umul_with_overflow || id == Intrinsic::uadd_with_overflow || id == Intrinsic::usub_with_overflow;
			i64 lo = uns ? 0 : t.lo, hi = t.hi;
			Iv rr = ok ? s.n.range(r) : Iv{};
			if (ok && rr.lo >= lo && rr.hi <= hi) return ret(Val::agg({Val::num(r), Val::boolean(constBX(false))}));
			return ret(Val::agg({freshVal(s, T), Val::boolean(unkBX(s))}));
		}
		case Intrinsic::objectsize: return ret(Val::num(Lin(-1)));
		case Intrinsic::is_constant: return ret(Val::num(Lin(0)));
		case Intrinsic::stacksave: return ret(Val::top());
		case Intrinsic::trap: s.n.bottom = true; return ret();
		case Intrinsic::abs: {
			Lin a = lin(0);
			Iv r = s.n.range(a);
			if (r.lo >= 0) return ret(Val::num(a));
			if (r.hi <= 0) return ret(Val::num(a.scaled(-1)));
			return ret(freshVal(s, I->getType()));
		}
		default: return ret(freshVal(s, I->getType()));
		}
	}
	// ----- assertions of the standard library
	if (n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") {
		oblige(s, I, "assert", false, "precondition of a standard library operation may not hold: " + cstr(args[3]));
		s.n.bottom = true;
		return ret();
	}
	if (n == "__clang_call_terminate" || n == "_ZSt9terminatev" || n == "abort" || n == "__cxa_pure_virtual") {
		if (n != "abort") oblige(s, I, "terminate", false, "an exception may reach a point where it ends the program");
		s.n.bottom = true;
		return ret();
	}
	// ----- exceptions
	if (n == "__cxa_allocate_exception") return ret(Val::ptr(heapAt(s, I, lin(0), "exception"), Lin(0)));
	if (n == "__cxa_free_exception") return ret();
	if (n == "__cxa_throw") { addExc(out, s, typeId(I->getArgOperand(1)), args[0], I); return true; }
	if (n == "__cxa_begin_catch") {
		s.caught.push_back({s.excType, args[0]});
		s.excType = 0;
		s.excVal = Val::top();
		if (args[0].k != Val::Ptr) { // an exception that came from something unknown
			if (!unknownException) {
				RegionInfo i{RegionInfo::Symbolic, "caught exception"};
				i.deep = true;
				regions.push_back(i);
				unknownException = regions.size() - 1;
			}
			ensure(s, unknownException);
			return ret(Val::ptr(unknownException, Lin(0)));
		}
		return ret(args[0]);
	}
	if (n == "_ZNKSt13runtime_error4whatEv" || n == "_ZNKSt11logic_error4whatEv" || n == "_ZNKSt9exception4whatEv") return ret(freshVal(s, I->getType()));
	if (n == "__cxa_get_exception_ptr") return ret(args[0]);
	if (n == "__cxa_end_catch") { if (!s.caught.empty()) s.caught.pop_back(); return ret(); }
	if (n == "__cxa_rethrow") {
		int t = s.caught.empty() ? 0 : s.caught.back().first;
		Val v = s.caught.empty() ? Val::top() : s.caught.back().second;
		addExc(out, s, t, v);
		return true;
	}
	if (n == "__cxa_guard_acquire") {
		if (!lockIds.empty()) s.locks[{-1, 0}]++;
		return ret(Val::num(Lin(1)));
	}
	if (n == "__cxa_guard_release" || n == "__cxa_guard_abort") {
		auto f = s.locks.find({-1, 0});
		if (f != s.locks.end() && --f->second <= 0) s.locks.erase(f);
	}
	if (n == "__cxa_guard_release" || n == "__cxa_guard_abort" || n == "__cxa_atexit") return ret(Val::num(Lin(0)));
	if (n.starts_with("_ZSt") && n.contains("__throw_")) {
		const char* t = n.contains("out_of_range") ? "_ZTISt12out_of_range" : n.contains("length_error") ? "_ZTISt12length_error" : n.contains("logic_error") ? "_ZTISt11logic_error" : n.contains("invalid_argument") ? "_ZTISt16invalid_argument" : n.contains("bad_function_call") ? "_ZTISt17bad_function_call" : n.contains("bad_optional") ? "_ZTISt19bad_optional_access" : n.contains("system_error") ? "_ZTISt12system_error" : n.contains("bad_alloc") ? "_ZTISt9bad_alloc" : n.contains("future_error") ? "_ZTISt12future_error" : "";
		int ty = *t ? stdType(t) : 0;
		addExc(out, s, ty, Val::top(), I);
		return true;
	}
	// ----- heap
	if (n == "_Znwm" || n == "_Znam" || n == "malloc") return ret(Val::ptr(heapAt(s, I, lin(0), "heap object"), Lin(0)));
	if (n == "_ZnwmSt11align_val_t") return ret(Val::ptr(heapAt(s, I, lin(0), "heap object"), Lin(0)));
	if (n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv") || n == "free") {
		if (args[0].k == Val::Ptr && args[0].r && regions[args[0].r].kind == RegionInfo::Heap) {
			RS& R = ensure(s, args[0].r);
			if (R.freed && !R.weak) oblige(s, I, "double-free", false, "object released twice: " + regions[args[0].r].name);
			R.freed = !R.weak;
			R.cells = std::make_shared<Cells>();
		}
		return ret();
	}
	if (n.starts_with("pthread_") && modelLock(s, I, n, args)) return ret(Val::num(Lin(0)));
	// ----- C library
	if (n == "memcpy" || n == "memmove") { copyMem(s, I, args[0], args[1], args[2]); return ret(args[0]); }
	if (n == "memset") { setMem(s, I, args[0], args[1], args[2]); return ret(args[0]); }
	if (n == "memcmp" || n == "bcmp" || n == "_ZNSt11char_traitsIcE7compareEPKcS2_m") return compareMem(s, I, args[0], args[1], lin(2), out);
	if (n == "strlen" || n == "_ZNSt11char_traitsIcE6lengthEPKc" || n == "__builtin_strlen") return lengthOf(s, I, args[0], out);
	if (n == "memchr" || n == "_ZNSt11char_traitsIcE4findEPKcmRS1_") {
		Lin len = n == "memchr" ? lin(2) : lin(1);
		if (!checkAccess(s, I, args[0], len, "read")) return ret(freshVal(s, I->getType()));
		string known, compared;
		Val c = n == "memchr" ? args[1] : load(s, I, args[2], i8T());
		i64 cc;
		if (c.isC(cc)) compared = string(1, char(cc));
		if (args[0].k == Val::Ptr && len.isConst() && len.k >= 0 && len.k <= 256 && (len.k == 0 || constBytes(s, args[0], len.k, known, c.isC(cc) ? &compared : nullptr))) {
			if (c.isC(cc)) {
				auto at = known.find(char(cc));
				Val p = args[0];
				if (at == string::npos) p = Val::ptr(0, Lin(0));
				else p.l = p.l.plus(Lin((i64)at));
				out = one(s, p);
				return true;
			}
			if (c.k == Val::Byte) {
				auto t = std::make_shared<Tab>();
				for (int k = 0; k < 256; k++) (*t)[k] = known.find(char((*c.t)[k])) != string::npos;
				BX bx; bx.op = BX::BYTE; bx.byte = c.b; bx.tab = t;
				BXP in = mk(bx);
				vector<State> yes, no;
				assume(s, in, true, yes);
				assume(s, in, false, no);
				for (auto& q : yes) {
					Id i = fresh(q, 0, len.k - 1);
					Val p = args[0];
					p.l = p.l.plus(Lin::var(i));
					auto r = one(q, p);
					out.push_back(std::move(r[0]));
				}
				for (auto& q : no) { auto r = one(q, Val::ptr(0, Lin(0))); out.push_back(std::move(r[0])); }
				return true;
			}
		}
		State q = s;
		if (args[0].k == Val::Ptr && args[0].r) {
			Id i = fresh(s, 0, INT32_MAX);
			s.n.assumeLe0(Lin::var(i).plus(Lin(1)).minus(len));
			if (!s.n.bottom) {
				Val p = args[0];
				p.l = p.l.plus(Lin::var(i));
				Val c = n == "memchr" ? args[1] : load(s, I, args[2], i8T());
				i64 cc;
				if (c.isC(cc) && !p.l.isConst()) { Val bv = freshByte(s); s.n.bytes[bv.b].reset(); s.n.bytes[bv.b].set(cc & 255); s.cache[{p.r, p.l}] = bv; }
				out = one(s, p);
			}
		}
		auto r = one(q, Val::ptr(0, Lin(0)));
		out.push_back(std::move(r[0]));
		return true;
	}
	string d = fi(F).dem;
	if (modelStd(s, I, F, n, d, args, out)) return true;
	return false;
}
int stdType(const char* mangled) {
	auto* g = M.getNamedGlobal(mangled);
	if (!g) g = new GlobalVariable(M, ptrT(), true, GlobalValue::ExternalLinkage, nullptr, mangled);
	return typeId(g);
}
bool compareMem(State& s, const CallBase* I, const Val& a, const Val& b, const Lin& len, vector<Outcome>& out) {
	checkAccess(s, I, a, len, "read");
	if (s.n.bottom) { out = one(s); return true; }
	checkAccess(s, I, b, len, "read");
	if (s.n.bottom) { out = one(s); return true; }
	i64 u = s.n.upper(len), l = s.n.lower(len);
	if (u <= 0) { out = one(s, Val::num(Lin(0))); return true; }
	string as, bs;
	if (u == l && u > 64 && u <= 256 && constBytes(s, a, u, as) && constBytes(s, b, u, bs)) { out = one(s, Val::num(Lin(as == bs ? 0 : as < bs ? -1 : 1))); return true; }
	if (u == l && u <= 64 && a.k == Val::Ptr && b.k == Val::Ptr) {
		BXP eq = memEqual(s, I, a, b, u);
		int e = evalBX(s, eq);
		if (e == 1) { out = one(s, Val::num(Lin(0))); return true; }
		vector<State> t;
		if (e != 0) assume(s, eq, true, t);
		for (auto& q : t) { auto r = one(q, Val::num(Lin(0))); out.push_back(std::move(r[0])); }
		State f = s; // which byte differs is not tracked; only the sign matters, an odd number is never zero
		Lin sign = Lin::var(fresh(f, 0, 1)).scaled(2).minus(Lin(1));
		auto r = one(f, Val::num(sign));
		out.push_back(std::move(r[0]));
		return true;
	}
	out = one(s, Val::num(Lin::var(fresh(s, INT32_MIN, INT32_MAX))));
	return true;
}
bool lengthOf(State& s, const CallBase* I, const Val& p, vector<Outcome>& out) {
	if (p.k != Val::Ptr || !p.r) {
		if (p.k == Val::Ptr) { oblige(s, I, "null-read", false, "length of a null string"); s.n.bottom = true; out = one(s); return true; }
		out = one(s, Val::num(lenFresh(s)));
		return true;
	}
	RS& R = ensure(s, p.r);
	if (regions[p.r].gv && p.l.isConst() && (regions[p.r].gv->isConstant() || (R.def == Def::Const && R.cells->empty()))) {
		string t = cstr(p);
		if (t != "?") { out = one(s, Val::num(Lin((i64)t.size()))); return true; }
	}
	if (R.weak || !R.hasSize) { out = one(s, Val::num(lenFresh(s))); return true; }
	// known cells up to a definite terminator
	if (p.l.isConst()) {
		i64 c;
		for (i64 i = 0; i < 256 && knownByte(s, p.r, p.l.k + i, c) && (!R.size.isConst() || p.l.k + i < R.size.k); i++)
			if (c == 0) { out = one(s, Val::num(Lin(i))); return true; }
	}
	// std::string contents carry a terminator; other buffers need proof that one exists
	Lin room = R.size.minus(p.l).minus(Lin(1));
	bool term = regions[p.r].kind == RegionInfo::Str;
	if (R.tracksZero) {
		// bytes from zeroFrom on are zero
		if (s.n.provesLe0(R.zeroFrom.plus(Lin(1)).minus(R.size))) term = true;
	}
	if (!term) oblige(s, I, "bounds-read", false, "a terminating zero is not guaranteed inside " + regions[p.r].name);
	else oblige(s, I, "bounds-read", true, "");
	Id i = fresh(s, 0, i64(1) << 30);
	s.n.assumeLe0(Lin::var(i).minus(room));
	out = one(s, Val::num(Lin::var(i)));
	return true;
}
void dump(State& s, vector<Val>& args) {
	for (auto& x : s.n.eq) errs() << "  equality " << x.str() << "\n";
	for (auto& x : s.n.extra) errs() << "  extra " << x.str() << " <= 0\n";
	for (auto& x : s.n.eq) errs() << "  eq " << x.str() << "\n";
	for (auto& v : args) {
		if (v.k == Val::Ptr && v.r && s.regs.count(v.r) && regions[v.r].kind == RegionInfo::Alloca) for (auto& [o, c] : *s.regs[v.r].cells) if (c.v.k == Val::Ptr && c.v.r) errs() << "   cell " << o << " -> " << regions[c.v.r].name << " + " << c.v.l.str() << "\n"; else if (c.size == 8) errs() << "   cell " << o << " kind " << c.v.k << " " << c.v.l.str() << "\n";
		errs() << "  val kind " << (int)v.k << " " << v.l.str();
		if (v.k == Val::Int || v.k == Val::Ptr) { Iv r = s.n.range(v.l); errs() << " in [" << r.lo << "," << r.hi << "]"; }
		if (v.k == Val::Ptr) errs() << " region " << regions[v.r].name << " weak " << (v.r ? ensure(s, v.r).weak : 0);
		errs() << "\n";
	}
}
#include "models_std.inc"
