// memory model (part of class Engine)

int globalRegion(const GlobalVariable* g) {
	RegionInfo i{RegionInfo::Global, g->getName().str()};
	i.gv = g;
	return regionFor(g, 0, i);
}
RS& ensure(State& s, int r) {
	auto it = s.regs.find(r);
	if (it != s.regs.end()) return it->second;
	RS x;
	auto& info = regions[r];
	if (info.kind == RegionInfo::Global) {
		x.hasSize = info.gv->getValueType()->isSized();
		if (x.hasSize) x.size = Lin(DL.getTypeAllocSize(info.gv->getValueType()).getFixedValue());
		x.def = info.gv->hasInitializer() ? Def::Const : Def::Any;
	} else if (info.deep) { x.def = Def::Any; x.weak = true; }
	else if (info.kind == RegionInfo::Symbolic) x.def = Def::Lazy;
	else { x.def = Def::Any; }
	return s.regs[r] = x;
}

Val evalConst(const Constant* c) {
	if (auto* ci = dyn_cast<ConstantInt>(c)) {
		if (ci->getBitWidth() > 64) return Val::top();
		return Val::num(Lin(ci->getBitWidth() == 1 ? (i64)ci->getZExtValue() : clampI(ci->getSExtValue())));
	}
	if (isa<ConstantPointerNull>(c)) return Val::ptr(0, Lin(0));
	if (auto* g = dyn_cast<GlobalVariable>(c)) return Val::ptr(globalRegion(g), Lin(0));
	if (auto* f = dyn_cast<Function>(c)) return Val::fn(f);
	if (auto* a = dyn_cast<GlobalAlias>(c)) return evalConst(a->getAliasee());
	if (auto* ce = dyn_cast<ConstantExpr>(c)) {
		if (ce->getType()->isPointerTy() || ce->getOpcode() == Instruction::GetElementPtr) {
			APInt off(64, 0);
			auto* b = ce->stripAndAccumulateConstantOffsets(DL, off, true);
			if (b != ce && isa<Constant>(b)) {
				Val v = evalConst(cast<Constant>(b));
				if (v.k == Val::Ptr) { v.l = v.l.plus(Lin(off.getSExtValue())); return v; }
				if (v.k == Val::Fn && off == 0) return v;
			}
		}
		if (ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::BitCast) return evalConst(ce->getOperand(0));
		return Val::top();
	}
	if (c->getType()->isStructTy() || c->getType()->isArrayTy()) {
		unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
		if (n <= 64) {
			vector<Val> e;
			for (unsigned i = 0; i < n; i++) { auto* el = c->getAggregateElement(i); e.push_back(el ? evalConst(el) : Val::top()); }
			return Val::agg(e);
		}
	}
	return Val::top();
}

bool checkAccess(State& s, const Instruction* I, const Val& p, const Lin& len, const char* what) {
	if (p.k != Val::Ptr) return true;
	if (p.r == 0) {
		if (len.isConst() && len.k == 0) return true;
		if (s.n.upper(len) <= 0) return true;
		oblige(s, I, string("null-") + what, false, "access through a null pointer");
		s.n.bottom = true;
		return false;
	}
	if (!shared.empty() || !guards.empty()) noteAccess(s, I, p, len, what[0] == 'w');
	RS& R = ensure(s, p.r);
	if (R.freed) {
		oblige(s, I, "use-after-free", false, "access to released object " + regions[p.r].name);
	}
	bool ok = true;
	if (R.hasSize && !R.weak) {
		Lin over = p.l.plus(len).minus(R.size), under = p.l.scaled(-1);
		bool triv = over.isConst() && under.isConst() && over.k <= 0 && under.k <= 0;
		if (!triv) {
			if (s.n.provesLe0(len)) return true;
			bool a = s.n.provesLe0(over), b = s.n.provesLe0(under);
			ok = a && b;
			oblige(s, I, string("bounds-") + what, ok,
				(a ? "" : "may reach past the end (" + over.str() + " bytes, at most " + bstr(s.n.upper(over)) + ") of ") +
				string(b ? "" : "may lie before the start of ") + regions[p.r].name);
			if (!ok) {
				if (s.n.lower(over) > 0 || s.n.lower(under) > 0) { s.n.bottom = true; return false; }
				if (!a) s.n.assumeLe0(over);
				if (!b) s.n.assumeLe0(under);
			}
		}
	}
	if (p.sLo != NOSUB) {
		Lin over = p.l.plus(len).minus(Lin(p.sHi)), under = Lin(p.sLo).minus(p.l);
		bool triv = over.isConst() && under.isConst() && over.k <= 0 && under.k <= 0;
		if (!triv && !s.n.provesLe0(len)) {
			bool a = s.n.provesLe0(over), b = s.n.provesLe0(under);
			oblige(s, I, string("bounds-") + what, a && b, string(a ? "" : "may reach past the end (" + over.str() + ", at most " + bstr(s.n.upper(over)) + ") of ")
				+ (b ? "" : "may lie before the start of ") + "an array inside " + regions[p.r].name);
			if (!(a && b)) {
				if (s.n.lower(over) > 0 || s.n.lower(under) > 0) { s.n.bottom = true; return false; }
				if (!a) s.n.assumeLe0(over);
				if (!b) s.n.assumeLe0(under);
			}
		}
	}
	return !s.n.bottom;
}
string bstr(i64 v) { return v >= INF ? "unbounded" : std::to_string(v); }

Val defaultVal(State& s, int r, i64 off, Type* T) {
	RS& R = ensure(s, r);
	auto& info = regions[r];
	switch (R.def) {
	case Def::Const: {
		auto* init = info.gv->getInitializer();
		if (auto* c = ConstantFoldLoadFromConst(const_cast<Constant*>(init), T, APInt(64, off), DL)) {
			if (!isa<UndefValue>(c)) return evalConst(c);
		}
		return freshVal(s, T);
	}
	case Def::Zero:
		if (T->isPointerTy()) return Val::ptr(0, Lin(0));
		if (T->isIntegerTy()) return Val::num(Lin(0));
		return Val::top();
	case Def::Lazy: {
		if (T->isPointerTy()) {
			auto key = std::make_tuple(r, off);
			auto f = symKey.find(key);
			int nr;
			if (f == symKey.end()) {
				RegionInfo i{RegionInfo::Symbolic, info.name + "." + std::to_string(off)};
				i.parent = r; i.poff = off; i.mayNull = true;
				regions.push_back(i);
				nr = symKey[key] = regions.size() - 1;
			} else nr = f->second;
			ensure(s, nr);
			return Val::ptr(nr, Lin(0));
		}
		if (T->isIntegerTy() && !T->isIntegerTy(8)) {
			auto& id = lazyId[{r, off}];
			if (!id) id = nextId++;
			if (!s.n.iv.count(id)) { Iv t = typeRange(T); s.n.iv[id] = t; }
			return Val::num(Lin::var(id));
		}
		return freshVal(s, T);
	}
	default: return freshVal(s, T);
	}
}

Val load(State& s, const Instruction* I, const Val& p, Type* T) {
	Val v = loadAt(s, I, p, T);
	if (v.k == Val::Top && T->isPointerTy() && p.k == Val::Ptr && !shared.empty()) return deepPointer(s, p);
	return v;
}
Val loadAt(State& s, const Instruction* I, const Val& p, Type* T) {
	if (auto* st = dyn_cast<StructType>(T)) {
		auto* sl = DL.getStructLayout(st);
		vector<Val> e;
		for (unsigned i = 0; i < st->getNumElements(); i++) {
			Val q = p;
			if (q.k == Val::Ptr) q.l = q.l.plus(Lin(sl->getElementOffset(i)));
			e.push_back(load(s, I, q, st->getElementType(i)));
		}
		return Val::agg(e);
	}
	if (auto* at = dyn_cast<ArrayType>(T); at && at->getNumElements() <= 64) {
		vector<Val> e;
		i64 es = DL.getTypeAllocSize(at->getElementType());
		for (unsigned i = 0; i < at->getNumElements(); i++) {
			Val q = p;
			if (q.k == Val::Ptr) q.l = q.l.plus(Lin(es * i));
			e.push_back(load(s, I, q, at->getElementType()));
		}
		return Val::agg(e);
	}
	if (p.k != Val::Ptr) return freshVal(s, T);
	unsigned size = DL.getTypeStoreSize(T).getFixedValue();
	if (!checkAccess(s, I, p, Lin(size), "read")) return freshVal(s, T);
	RS& R = ensure(s, p.r);
	if (R.weak) return freshVal(s, T);
	if (!p.l.isConst()) {
		if (R.def == Def::Const && R.cells->empty() && T->isIntegerTy()) {
			auto& info = regions[p.r];
			Iv rg = s.n.range(p.l);
			i64 total = DL.getTypeAllocSize(info.gv->getValueType());
			rg.lo = std::max<i64>(rg.lo, 0);
			rg.hi = std::min<i64>(rg.hi, total - size);
			if (rg.hi - rg.lo <= 4096) {
				i64 lo = INT64_MAX, hi = INT64_MIN;
				bool ok = true;
				std::bitset<256> bs;
				for (i64 o = rg.lo; o <= rg.hi && ok; o += size) {
					auto* c = ConstantFoldLoadFromConst(const_cast<Constant*>(info.gv->getInitializer()), T, APInt(64, o), DL);
					auto* ci = c ? dyn_cast<ConstantInt>(c) : nullptr;
					if (!ci) { ok = false; break; }
					i64 x = ci->getSExtValue();
					lo = std::min(lo, x); hi = std::max(hi, x);
					bs.set(x & 255);
				}
				if (ok && lo <= hi) {
					if (size == 1) { Val v = freshByte(s); s.n.bytes[v.b] = bs; return v; }
					return Val::num(Lin::var(fresh(s, lo, hi)));
				}
			}
		}
		auto key = std::make_pair(p.r, p.l);
		if (size == 1 && (R.def == Def::Bytes || R.def == Def::Any || R.def == Def::Uninit)) {
			auto f = s.cache.find(key);
			if (f != s.cache.end()) return f->second;
			Val v = freshVal(s, T);
			s.cache[key] = v;
			return v;
		}
		return freshVal(s, T);
	}
	i64 off = p.l.k;
	auto f = R.cells->find(off);
	if (f != R.cells->end() && f->second.size == size) {
		if (f->second.v.k == Val::Top && T->isIntegerTy()) {
			Val v = freshVal(s, T);
			s.wcells(p.r)[off].v = v;
			return v;
		}
		Val v = f->second.v;
		if (T->isPointerTy() && v.k == Val::Int) {
			if (v.l.isConst() && v.l.k == 0) return Val::ptr(0, Lin(0));
			return Val::top();
		}
		return v;
	}
	// overlapping cells?
	bool overlap = false;
	for (auto it = R.cells->begin(); it != R.cells->end() && it->first < off + (i64)size; ++it)
		if (it->first + (i64)it->second.size > off) overlap = true;
	if (!overlap) {
		Val v = defaultVal(s, p.r, off, T);
		Cells& c = s.wcells(p.r);
		c[off] = {v, size};
		return v;
	}
	if ((T->isIntegerTy() || T->isPointerTy()) && size <= 8) { // compose constants
		unsigned __int128 acc = 0;
		bool ok = true;
		for (unsigned b = 0; b < size && ok; b++) {
			bool got = false;
			for (auto it = R.cells->begin(); it != R.cells->end() && it->first <= off + (i64)b; ++it)
				if (it->first + (i64)it->second.size > off + (i64)b) {
					i64 c;
					if (!it->second.v.isC(c)) { ok = false; break; }
					acc |= (unsigned __int128)((uint64_t(c) >> (8 * (off + b - it->first))) & 255) << (8 * b);
					got = true;
				}
			if (!got) {
				if (R.def == Def::Zero || R.def == Def::Const) {
					Val d = defaultVal(s, p.r, off + b, Type::getInt8Ty(M.getContext()));
					i64 c;
					if (d.isC(c)) acc |= (unsigned __int128)(uint8_t)c << (8 * b);
					else ok = false;
				} else ok = false;
			}
		}
		if (ok) {
			i64 v = (i64)(uint64_t)acc;
			if (size < 8) { int sh = 64 - size * 8; v = (i64)((uint64_t)v << sh) >> sh; }
			if (T->isPointerTy()) { if (v == 0) return Val::ptr(0, Lin(0)); }
			else if (v > -INF && v < INF) return Val::num(Lin(v));
		}
	}
	if (T->isIntegerTy(8)) { // a byte of a number
		for (auto it = R.cells->begin(); it != R.cells->end() && it->first <= off; ++it)
			if (it->first + (i64)it->second.size > off && it->second.size > 1 && it->second.size <= 8 && it->second.v.k == Val::Int) {
				Val v = freshVal(s, T);
				if (v.k == Val::Byte) { v.l = it->second.v.l; v.sLo = off - it->first; v.sHi = it->second.size; }
				return v;
			}
	}
	if (T->isIntegerTy() && size > 1 && size <= 8) { // bytes of a number put together
		bool ok = true;
		Val first;
		for (unsigned i = 0; i < size && ok; i++) {
			auto c = R.cells->find(off + i);
			ok = c != R.cells->end() && c->second.size == 1 && c->second.v.slice() && c->second.v.sLo == i && c->second.v.sHi == size;
			if (ok && i == 0) first = c->second.v;
			if (ok) ok = c->second.v.l == first.l;
		}
		if (ok) return Val::num(first.l);
	}
	if (T->isIntegerTy() && size >= 8 && size <= 16) { // several values packed into one register
		vector<Val> parts;
		i64 at = off;
		for (auto it = R.cells->lower_bound(off); it != R.cells->end() && it->first == at && at < off + (i64)size; ++it) {
			parts.push_back(it->second.v);
			parts.push_back(Val::num(Lin(it->second.size)));
			at += it->second.size;
		}
		if (at == off + (i64)size && parts.size() > 2) return Val::agg(parts);
	}
	if (T->isIntegerTy() && size < 8) { // part of a pointer: the highest bytes of addresses are zero
		for (auto it = R.cells->begin(); it != R.cells->end() && it->first <= off; ++it)
			if (it->second.size == 8 && it->first + 8 >= off + (i64)size && (it->second.v.k == Val::Ptr || it->second.v.k == Val::Fn))
{
				if (off >= it->first + 6) return Val::num(Lin(0));
				Val v = freshVal(s, T);
				auto* g = it->second.v.k == Val::Ptr ? regions[it->second.v.r].gv : nullptr;
				if (g && size == 1 && off == it->first && v.k == Val::Byte && it->second.v.l.isConst() && it->second.v.l.k % 8 == 0 && g->getAlign().valueOrOne().value() >= 8) {
					std::bitset<256> bs; // aligned
					for (int i = 0; i < 256; i += 8) bs.set(i);
					s.n.bytes[v.b] = bs;
				}
				return v;
			}
	}
	Val v = freshVal(s, T);
	if (T->isIntegerTy()) { // the same unknown value when read again
		auto cache = s.cache;
		wipe(s, p.r, off, off + size);
		s.cache = cache;
		s.wcells(p.r)[off] = {v, size};
	}
	return v;
}

void wipe(State& s, int r, i64 lo, i64 hi) { // forget [lo, hi)
	RS& R = ensure(s, r);
	for (auto it = s.cache.begin(); it != s.cache.end();) it = it->first.first == r ? s.cache.erase(it) : std::next(it);
	bool any = false;
	for (auto& [o, c] : *R.cells) if (o < hi && o + (i64)c.size > lo) any = true;
	if (any) {
		Cells& c = s.wcells(r);
		vector<std::pair<i64, Val>> left;
		for (auto it = c.begin(); it != c.end();) {
			if (it->first < hi && it->first + (i64)it->second.size > lo) {
				i64 k;
				bool known = it->second.size <= 8 && it->second.v.isC(k);
				for (unsigned i = 0; i < it->second.size; i++) if (it->first + i < lo || it->first + i >= hi)
					left.push_back({it->first + i, known ? Val::num(Lin((int8_t)((uint64_t)k >> (8 * i)))) : Val::top()});
				it = c.erase(it);
			} else ++it;
		}
		for (auto& [o, v] : left) c[o] = {v, 1};
	}
}
void store(State& s, const Instruction* I, const Val& p, const Val& v, Type* T) {
	if (auto* st = dyn_cast<StructType>(T)) {
		auto* sl = DL.getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) {
			Val q = p;
			if (q.k == Val::Ptr) q.l = q.l.plus(Lin(sl->getElementOffset(i)));
			store(s, I, q, v.k == Val::Agg ? (*v.a)[i] : Val::top(), st->getElementType(i));
		}
		return;
	}
	if (auto* at = dyn_cast<ArrayType>(T); at && at->getNumElements() <= 64) {
		i64 es = DL.getTypeAllocSize(at->getElementType());
		for (unsigned i = 0; i < at->getNumElements(); i++) {
			Val q = p;
			if (q.k == Val::Ptr) q.l = q.l.plus(Lin(es * i));
			store(s, I, q, v.k == Val::Agg ? (*v.a)[i] : Val::top(), at->getElementType());
		}
		return;
	}
	if (p.k != Val::Ptr) return;
	unsigned size = DL.getTypeStoreSize(T).getFixedValue();
	if (!checkAccess(s, I, p, Lin(size), "write")) return;
	RS& R = ensure(s, p.r);
	if (R.weak) return;
	if (!p.l.isConst()) {
		Iv rg = s.n.range(p.l);
		wipe(s, p.r, rg.lo, satAdd(rg.hi, size));
		RS& R2 = s.regs[p.r];
		if (R2.def == Def::Const || R2.def == Def::Zero) R2.def = Def::Any;
		return;
	}
	i64 off = p.l.k;
	wipe(s, p.r, off, off + size);
	if (v.k == Val::Agg && T->isIntegerTy()) { // packed
		for (size_t i = 0; i + 1 < v.a->size(); i += 2) {
			unsigned sz = (*v.a)[i + 1].l.k;
			s.wcells(p.r)[off] = {(*v.a)[i], sz};
			off += sz;
		}
		return;
	}
	s.wcells(p.r)[off] = {v, size};
}
void flattenConst(const Constant* c, i64 off, std::function<void(i64, const Constant*)> cb) {
	Type* T = c->getType();
	if (auto* st = dyn_cast<StructType>(T)) {
		auto* sl = DL.getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) if (auto* e = c->getAggregateElement(i)) flattenConst(e, off + (i64)sl->getElementOffset(i), cb);
	} else if (auto* at = dyn_cast<ArrayType>(T)) {
		i64 es = DL.getTypeAllocSize(at->getElementType());
		for (unsigned i = 0; i < at->getNumElements() && i < 2048; i++) if (auto* e = c->getAggregateElement(i)) flattenConst(e, off + es * i, cb);
	} else cb(off, c);
}
void copyMem(State& s, const Instruction* I, const Val& d, const Val& src, const Val& nV) {
	Lin n = asLin(s, nV, Type::getInt64Ty(M.getContext()));
	if (s.n.lower(n) < 0) { // a negative length is a huge copy
		oblige(s, I, "bounds-length", false, "copy length may be negative (" + n.str() + ")");
		if (!s.n.assumeLe0(n.scaled(-1))) return;
	}
	if (!checkAccess(s, I, src, n, "read")) return;
	if (!checkAccess(s, I, d, n, "write")) return;
	if (d.k != Val::Ptr || d.r == 0) return;
	RS& D = ensure(s, d.r);
	if (D.weak) return;
	i64 len = s.n.upper(n);
	Iv dr = s.n.range(d.l);
	if (len <= 0) return;
	bool exact = n.isConst() && d.l.isConst() && src.k == Val::Ptr && src.r && src.l.isConst() && len <= 4096;
	vector<std::pair<i64, Cell>> copied;
	bool srcZero = false;
	if (exact) {
		RS& S = ensure(s, src.r);
		if (!S.weak) {
			i64 so = src.l.k;
			for (auto& [o, c] : *S.cells) if (o >= so && o + (i64)c.size <= so + len) copied.push_back({o - so, c});
			if (S.def == Def::Const && len <= 512) {
				std::set<i64> have;
				for (auto& [o, c] : copied) for (unsigned i = 0; i < c.size; i++) have.insert(o + i);
				flattenConst(regions[src.r].gv->getInitializer(), 0, [&](i64 o, const Constant* c) {
					unsigned sz = DL.getTypeStoreSize(c->getType()).getFixedValue();
					if (o >= so && o + sz <= so + len && !have.count(o - so) && !isa<UndefValue>(c)) copied.push_back({o - so, {evalConst(c), sz}});
				});
			}
			if (S.def == Def::Zero) srcZero = true;
		}
	}
	Def sd = src.k == Val::Ptr && src.r && exact ? s.regs[src.r].def : Def::Any;
	wipe(s, d.r, dr.lo, std::min(satAdd(dr.hi, len), s.n.upper(d.l.plus(n))));
	RS& D2 = s.regs[d.r];
	if (D2.def == Def::Const || D2.def == Def::Zero) {
		if (exact && sd == Def::Zero && D2.def == Def::Zero) {}
		else D2.def = Def::Any;
	}
	if (exact) {
		Cells& c = s.wcells(d.r);
		for (auto& [o, cell] : copied) c[d.l.k + o] = cell;
		if (srcZero && D2.hasSize && D2.size.isConst() && D2.size.k == len && d.l.k == 0) s.regs[d.r].def = Def::Zero;
	}
}
void setMem(State& s, const Instruction* I, const Val& d, const Val& val, const Val& nV) {
	Lin n = asLin(s, nV, Type::getInt64Ty(M.getContext()));
	if (s.n.lower(n) < 0) {
		oblige(s, I, "bounds-length", false, "fill length may be negative (" + n.str() + ")");
		if (!s.n.assumeLe0(n.scaled(-1))) return;
	}
	if (!checkAccess(s, I, d, n, "write")) return;
	if (d.k != Val::Ptr || d.r == 0) return;
	RS& D = ensure(s, d.r);
	if (D.weak) return;
	Iv dr = s.n.range(d.l);
	i64 len = s.n.upper(n), c = 0;
	bool zero = val.isC(c) && c == 0;
	wipe(s, d.r, dr.lo, std::min(satAdd(dr.hi, len), s.n.upper(d.l.plus(n))));
	RS& D2 = s.regs[d.r];
	if (zero && n.isConst() && d.l.isConst() && d.l.k == 0 && D2.hasSize && D2.size.isConst() && D2.size.k == len) { D2.def = Def::Zero; return; }
	if (D2.def == Def::Const || D2.def == Def::Zero) { if (!(zero && D2.def == Def::Zero)) D2.def = Def::Any; }
	if (n.isConst() && d.l.isConst() && val.isC(c) && len <= 256) {
		Cells& cc = s.wcells(d.r);
		for (i64 i = 0; i < len; i++) cc[d.l.k + i] = {Val::num(Lin((int8_t)c)), 1};
	}
}
void collectPtrs(const Val& v, std::set<int>& out) {
	if (v.k == Val::Ptr && v.r) out.insert(v.r);
	if (v.k == Val::Agg) for (auto& e : *v.a) collectPtrs(e, out);
}
void havocFrom(State& s, const vector<Val>& roots) {
	std::set<int> todo, seen;
	for (auto& v : roots) collectPtrs(v, todo);
	while (!todo.empty()) {
		int r = *todo.begin();
		todo.erase(todo.begin());
		if (!seen.insert(r).second) continue;
		RS& R = ensure(s, r);
		if (regions[r].kind == RegionInfo::Global && regions[r].gv->isConstant()) continue;
		for (auto& [o, c] : *R.cells) {
			std::set<int> more;
			collectPtrs(c.v, more);
			for (int m : more) if (!seen.count(m)) todo.insert(m);
		}
		R.cells = std::make_shared<Cells>();
		R.def = R.def == Def::Bytes ? Def::Bytes : Def::Any;
		for (auto it = s.cache.begin(); it != s.cache.end();) it = it->first.first == r ? s.cache.erase(it) : std::next(it);
	}
}
bool reachableRegion(const State& s, int target) {
	auto refs = [&](const Val& v) { std::set<int> o; const_cast<Engine*>(this)->collectPtrs(v, o); return o.count(target) > 0; };
	for (auto& f : s.fr) for (size_t i = 0; i < f.v->size(); i++) if ((*f.has)[i] && refs((*f.v)[i])) return true;
	for (auto& [r, R] : s.regs) if (r != target) for (auto& [o, c] : *R.cells) if (refs(c.v)) return true;
	return false;
}
int newHeap(State& s, const Instruction* I, int ctx, const Lin& size, const char* nm, bool bytes = false) {
	RegionInfo info{RegionInfo::Heap, string(nm) + "@" + locOf(I)};
	int r = regionFor(I, ctx, info);
	auto it = s.regs.find(r);
	bool weak = false;
	if (it != s.regs.end() && !it->second.freed && reachableRegion(s, r)) weak = true;
	RS x;
	x.hasSize = !weak;
	x.size = size;
	x.def = bytes ? Def::Bytes : Def::Uninit;
	x.weak = weak;
	if (weak) weakened.insert(regions[r].name);
	s.regs[r] = x;
	for (auto c = s.cache.begin(); c != s.cache.end();) c = c->first.first == r ? s.cache.erase(c) : std::next(c);
	return r;
}
