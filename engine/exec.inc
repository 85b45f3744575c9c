// instruction semantics and control flow (part of class Engine)

struct Edge { const BasicBlock* to; State s; };
struct WtoElem { const BasicBlock* b = nullptr; bool comp = false; vector<WtoElem> body; };
std::map<const Function*, vector<WtoElem>> wtos;

// Bourdoncle's weak topological order
struct WtoBuilder {
	std::map<const BasicBlock*, int> dfn;
	vector<const BasicBlock*> stack;
	int num = 0;
	int visit(const BasicBlock* v, vector<WtoElem>& part) {
		stack.push_back(v);
		int head = dfn[v] = ++num;
		bool loop = false;
		for (auto* w : successors(v)) {
			int min = dfn[w] == 0 ? visit(w, part) : dfn[w];
			if (min <= head) { head = min; loop = true; }
		}
		if (head == dfn[v]) {
			dfn[v] = INT32_MAX;
			auto* e = stack.back();
			stack.pop_back();
			if (loop) {
				while (e != v) { dfn[e] = 0; e = stack.back(); stack.pop_back(); }
				WtoElem c;
				c.b = v; c.comp = true;
				for (auto* w : successors(v)) if (dfn[w] == 0) visit(w, c.body);
				std::reverse(c.body.begin(), c.body.end());
				part.push_back(std::move(c));
			} else {
				WtoElem x;
				x.b = v;
				part.push_back(x);
			}
		}
		return head;
	}
};
vector<WtoElem>& wto(const Function* F) {
	auto it = wtos.find(F);
	if (it != wtos.end()) return it->second;
	WtoBuilder b;
	vector<WtoElem> p;
	b.visit(&F->getEntryBlock(), p);
	std::reverse(p.begin(), p.end());
	return wtos[F] = std::move(p);
}

// ---------- frame access
Val getV(State& s, const Value* v) {
	if (auto* c = dyn_cast<Constant>(v)) {
		if (isa<UndefValue>(c)) return freshVal(s, c->getType());
		return evalConst(c);
	}
	auto& f = s.fr.back();
	auto& info = fi(f.F);
	auto it = info.idx.find(v);
	if (it == info.idx.end() || !(*f.has)[it->second]) return freshVal(s, v->getType());
	return (*f.v)[it->second];
}
void setV(State& s, const Value* v, const Val& x) {
	auto& f = s.fr.back();
	auto& info = fi(f.F);
	int i = info.idx.at(v);
	if (f.v.use_count() > 1) f.v = std::make_shared<vector<Val>>(*f.v);
	if (f.has.use_count() > 1) f.has = std::make_shared<vector<bool>>(*f.has);
	(*f.v)[i] = x;
	(*f.has)[i] = true;
}

// ---------- partition keys
using Key = vector<i64>;
Key ghostKey(State& s) {
	Key k;
	for (auto* g : ghosts) {
		int r = globalRegion(g);
		RS& R = ensure(s, r);
		i64 c = INT64_MIN + 1;
		auto f = R.cells->find(0);
		if (f == R.cells->end()) {
			if (R.def == Def::Const && !R.weak) {
				Type* T = g->getValueType();
				if (T->isIntegerTy()) { Val v = defaultVal(s, r, 0, T); if (!v.isC(c)) c = INT64_MIN + 1; }
			}
		} else {
			const Val& v = f->second.v;
			if (!v.isC(c)) {
				c = INT64_MIN + 1;
				if (v.k == Val::Bool) { int e = evalBX(s, v.x); if (e >= 0) c = e; }
				else if (v.k == Val::Int) { Iv r2 = s.n.range(v.l); if (r2.lo == r2.hi) c = r2.lo; }
				else if (v.k == Val::Byte) { auto b = byteVals(s, v); if (b.size() == 1) c = *b.begin(); }
			}
		}
		k.push_back(c);
	}
	if (!lockIds.empty()) {
		auto f = lockIds.emplace(s.locks, (int)lockIds.size()).first;
		k.push_back(f->second);
	} else k.push_back(0);
	if (s.fr.size() <= 2) for (auto& w : watched) { // modes of objects are told apart only between calls made by the scenario
		if (!s.regs.count(w.r)) { k.push_back(-1); continue; }
		string sig;
		RS& R = ensure(s, w.r);
		for (auto& [o, c] : *R.cells) {
			if (o >= w.from && o < w.to && c.v.k == Val::Ptr && w.pointers) sig += std::to_string(o - w.from) + (c.v.mn ? "?" : "p") + std::to_string(c.v.r) + " ";
			if (o < w.from || o >= w.to || (c.v.k != Val::Int && c.v.k != Val::Bool && c.v.k != Val::Byte)) continue;
			Iv v;
			if (c.v.k == Val::Int) v = s.n.range(c.v.l);
			else if (c.v.k == Val::Bool) { int e = evalBX(s, c.v.x); v = {e == 1, e != 0}; }
			else { auto b = byteVals(s, c.v); if (!b.empty()) v = {*b.begin(), *b.rbegin()}; }
			sig += std::to_string(o - w.from) + (v.lo == v.hi && v.lo >= -1 && v.lo <= 0 ? std::to_string(v.lo) : "?") + " ";
		}
		if (getenv("SHAPES") && !shapes.count(sig)) errs() << "shape " << shapes.size() << ": " << sig << "\n";
		k.push_back(shapes.emplace(sig, shapes.size()).first->second);
	}
	return k;
}
void keyOfVal(State& s, const Val& v, Key& k, int depth = 0) {
	i64 c;
	switch (v.k) {
	case Val::Int: if (v.isC(c)) { k.push_back(1); k.push_back(c); } else k.push_back(2); break;
	case Val::Bool: { int e = evalBX(s, v.x); k.push_back(10 + e); break; }
	case Val::Ptr: k.push_back(20); k.push_back(v.r); k.push_back(v.mn); break;
	case Val::Fn: k.push_back(30); k.push_back((i64)(intptr_t)v.f); break;
	case Val::Byte: { auto b = byteVals(s, v); if (b.size() == 1) { k.push_back(1); k.push_back(*b.begin()); } else k.push_back(2); break; }
	case Val::Agg: k.push_back(40); if (depth < 2) for (auto& e : *v.a) keyOfVal(s, e, k, depth + 1); break;
	default: k.push_back(3);
	}
}

// ---------- dead value removal
void pruneDead(State& s, const BasicBlock* b) {
	auto& f = s.fr.back();
	auto& info = fi(f.F);
	auto li = info.liveIn.find(b);
	if (li == info.liveIn.end()) return;
	vector<bool> keep = li->second;
	if (info.sret >= 0) keep[info.sret] = true;
	for (auto& phi : b->phis()) keep[info.idx.at(&phi)] = true;
	bool any = false;
	for (size_t i = 0; i < keep.size(); i++) if ((*f.has)[i] && !keep[i]) { any = true; break; }
	if (!any) return;
	if (f.v.use_count() > 1) f.v = std::make_shared<vector<Val>>(*f.v);
	if (f.has.use_count() > 1) f.has = std::make_shared<vector<bool>>(*f.has);
	for (size_t i = 0; i < keep.size(); i++) if ((*f.has)[i] && !keep[i]) { (*f.has)[i] = false; (*f.v)[i] = Val(); }
}
struct IdSet {
	vector<uint64_t> w;
	bool insert(int i) {
		if (i < 0) return false;
		size_t k = size_t(i) / 64;
		if (k >= w.size()) w.resize(k + 64);
		uint64_t m = uint64_t(1) << (i % 64);
		if (w[k] & m) return false;
		w[k] |= m;
		return true;
	}
	bool count(int i) const { size_t k = size_t(i) / 64; return i >= 0 && k < w.size() && (w[k] >> (i % 64) & 1); }
};
void idsOf(const Val& v, IdSet& ids, IdSet& bytes, vector<int>& regs) {
	switch (v.k) {
	case Val::Int: for (auto& t : v.l.t) ids.insert(t.id); break;
	case Val::Ptr: for (auto& t : v.l.t) ids.insert(t.id); if (v.r) regs.push_back(v.r); break;
	case Val::Byte: bytes.insert(v.b); if (v.slice()) for (auto& t : v.l.t) ids.insert(t.id); break;
	case Val::Bool: idsOfBX(v.x, ids, bytes); break;
	case Val::Agg: for (auto& e : *v.a) idsOf(e, ids, bytes, regs); break;
	default: break;
	}
}
void idsOfBX(const BXP& x, IdSet& ids, IdSet& bytes) {
	if (!x) return;
	for (auto& t : x->a.t) ids.insert(t.id);
	if (x->byte) bytes.insert(x->byte);
	idsOfBX(x->l, ids, bytes);
	idsOfBX(x->r, ids, bytes);
}
void collectGarbage(State& s) {
	IdSet ids, bytes, live, referenced;
	ids.w.resize(nextId / 64 + 1);
	bytes.w.resize(nextId / 64 + 1);
	vector<int> todo;
	for (auto& f : s.fr) for (size_t i = 0; i < f.v->size(); i++) if ((*f.has)[i]) idsOf((*f.v)[i], ids, bytes, todo);
	idsOf(s.excVal, ids, bytes, todo);
	for (auto& c : s.caught) idsOf(c.second, ids, bytes, todo);
	for (int r : todo) referenced.insert(r);
	for (auto& [r, R] : s.regs) {
		auto k = regions[r].kind;
		if (k == RegionInfo::Global || k == RegionInfo::Symbolic || k == RegionInfo::Alloca) todo.push_back(r);
	}
	// freed stack objects and unreachable heap objects are dropped unless something still points to them
	while (!todo.empty()) {
		int r = todo.back();
		todo.pop_back();
		if (!live.insert(r)) continue;
		auto f = s.regs.find(r);
		if (f == s.regs.end() || f->second.freed) continue;
		size_t before = todo.size();
		for (auto& [o, c] : *f->second.cells) idsOf(c.v, ids, bytes, todo);
		for (auto& t : f->second.size.t) ids.insert(t.id);
		for (size_t i = before; i < todo.size(); i++) referenced.insert(todo[i]);
	}
	for (auto it = s.regs.begin(); it != s.regs.end();) {
		bool drop = !live.count(it->first) || (it->second.freed && !referenced.count(it->first));
		it = drop ? s.regs.erase(it) : std::next(it);
	}
	for (auto it = s.cache.begin(); it != s.cache.end();) {
		bool ok = s.regs.count(it->first.first);
		for (auto& t : it->first.second.t) if (!ids.count(t.id)) ok = false;
		it = ok ? std::next(it) : s.cache.erase(it);
	}
	{ vector<int> d; for (auto& [k, v] : s.cache) idsOf(v, ids, bytes, d); }
	// constraints that connect live ids keep the ids between them
	IdSet keep = ids;
	for (auto& x : s.n.extra) {
		int liveTerms = 0;
		for (auto& t : x.t) liveTerms += ids.count(t.id);
		if (liveTerms >= 1) for (auto& t : x.t) keep.insert(t.id);
	}
	// dead ids that equal something live are replaced by it
	for (auto* list : {&s.n.eq, &s.n.extra}) for (auto& l : *list) for (int again = 0; again < 4; again++) {
		bool any = false;
		for (auto& t : l.t) {
			if (keep.count(t.id) && ids.count(t.id)) continue;
			int n = node(t.id, false);
			for (auto it = s.n.e.lower_bound({n, INT32_MIN}); it != s.n.e.end() && it->first.first == n; ++it) {
				int v = it->first.second;
				if (!ids.count(v / 2)) continue;
				auto back = s.n.e.find({v, n});
				if (back == s.n.e.end() || back->second != -it->second) continue;
				// value(v) - id = c
				Lin to = Lin::var(v / 2).scaled(v & 1 ? -1 : 1).minus(Lin(it->second));
				Lin x = l.plus(Lin::var(t.id), -t.c).plus(to, t.c);
				if (x.t.size() < 2) continue;
				l = x;
				any = true;
				break;
			}
			if (any) break;
		}
		if (!any) break;
	}
	// eliminate dead ids from the equalities
	for (size_t i = 0; i < s.n.eq.size();) {
		Id dead = 0;
		i64 dc = 0;
		for (auto& t : s.n.eq[i].t) if (!keep.count(t.id) && std::abs(t.c) == 1) { dead = t.id; dc = t.c; }
		if (!dead) { i++; continue; }
		Lin e = s.n.eq[i];
		s.n.eq.erase(s.n.eq.begin() + i);
		for (auto& o : s.n.eq) for (auto& t : o.t) if (t.id == dead) { o = o.plus(e, -t.c * dc); break; }
		for (auto& o : s.n.extra) for (auto& t : o.t) if (t.id == dead) { Lin x = o.plus(e, -t.c * dc); if (x.t.size() <= MAXT) o = x; break; }
		for (size_t j = 0; j < s.n.eq.size();) {
			s.n.eq[j] = Num::reduced(s.n.eq[j]);
			if (Num::storable(s.n.eq[j])) { j++; continue; }
			Lin x = s.n.eq[j];
			s.n.eq.erase(s.n.eq.begin() + j);
			if (x.t.size() < 3) { s.n.assumeLe0(x); s.n.assumeLe0(x.scaled(-1)); }
		}
		i = 0;
	}
	// eliminate dead ids from the octagon
	std::set<Id> inEdges;
	for (auto& x : s.n.e) { inEdges.insert(x.first.first / 2); inEdges.insert(x.first.second / 2); }
	for (Id d : inEdges) {
		if (keep.count(d)) continue;
		vector<std::pair<int, i64>> out[2], in[2];
		for (int sgn = 0; sgn < 2; sgn++) {
			int n = node(d, sgn);
			for (auto it = s.n.e.lower_bound({n, INT32_MIN}); it != s.n.e.end() && it->first.first == n; ++it) out[sgn].push_back({it->first.second, it->second});
			for (auto& [v, c] : out[sgn]) { (void)v; (void)c; }
		}
		// (u -> n) exists iff (n^1 -> u^1) exists
		for (int sgn = 0; sgn < 2; sgn++) for (auto& [v, c] : out[1 - sgn]) in[sgn].push_back({v ^ 1, c});
		for (int sgn = 0; sgn < 2; sgn++)
			for (auto& [u, c1] : in[sgn]) for (auto& [v, c2] : out[sgn]) {
				if (u / 2 == d || v / 2 == d || u == v) continue;
				i64 c = satAdd(c1, c2);
				if (u == (v ^ 1)) { s.n.setUb(v, c >= 0 ? c / 2 : -((-c + 1) / 2)); continue; }
				auto f = s.n.e.find({u, v});
				if (f == s.n.e.end() || f->second > c) { s.n.e.set(u, v, c); s.n.e.set(v ^ 1, u ^ 1, c); }
			}
		for (int sgn = 0; sgn < 2; sgn++) {
			int n = node(d, sgn);
			for (auto& [v, c] : out[sgn]) { s.n.e.erase(n, v); s.n.e.erase(v ^ 1, n ^ 1); }
		}
	}
	for (auto it = s.n.iv.begin(); it != s.n.iv.end();) it = keep.count(it->first) ? std::next(it) : s.n.iv.erase(it);
	for (auto it = s.n.vs.begin(); it != s.n.vs.end();) it = s.n.iv.count(it->first) ? std::next(it) : s.n.vs.erase(it);
	for (auto it = s.n.bytes.begin(); it != s.n.bytes.end();) it = bytes.count(it->first) ? std::next(it) : s.n.bytes.erase(it);
	for (auto it = s.n.eq.begin(); it != s.n.eq.end();) {
		bool ok = true;
		for (auto& t : it->t) ok &= keep.count(t.id) > 0;
		it = ok ? std::next(it) : s.n.eq.erase(it);
	}
	for (auto it = s.n.extra.begin(); it != s.n.extra.end();) {
		bool ok = true;
		for (auto& t : it->t) ok &= keep.count(t.id) > 0;
		it = ok ? std::next(it) : s.n.extra.erase(it);
	}
}

// ---------- replacing a value by another that equals it
bool mentions(const Lin& l, Id x) { for (auto& t : l.t) if (t.id == x) return true; return false; }
Lin replaced(const Lin& l, Id x, const Lin& e) {
	for (auto& t : l.t) if (t.id == x) return l.plus(Lin::var(x), -t.c).plus(e, t.c);
	return l;
}
BXP replaced(const BXP& b, Id x, const Lin& e) {
	if (!b) return b;
	BXP l = replaced(b->l, x, e), r = replaced(b->r, x, e);
	if (l == b->l && r == b->r && !mentions(b->a, x)) return b;
	auto n = std::make_shared<BX>(*b);
	n->a = replaced(b->a, x, e);
	n->l = l;
	n->r = r;
	return n;
}
bool replaceIn(Val& v, Id x, const Lin& e) {
	switch (v.k) {
	case Val::Int:
	case Val::Ptr:
		if (!mentions(v.l, x)) return false;
		v.l = replaced(v.l, x, e);
		return true;
	case Val::Bool: {
		BXP n = replaced(v.x, x, e);
		if (n == v.x) return false;
		v.x = n;
		return true;
	}
	case Val::Agg: {
		bool any = false;
		vector<Val> n = *v.a;
		for (auto& y : n) any |= replaceIn(y, x, e);
		if (any) v.a = std::make_shared<const vector<Val>>(std::move(n));
		return any;
	}
	default: return false;
	}
}
void substitute(State& s, Id x, const Lin& e) {
	for (auto& f : s.fr) for (size_t i = 0; i < f.v->size(); i++) {
		if (!(*f.has)[i]) continue;
		Val v = (*f.v)[i];
		if (!replaceIn(v, x, e)) continue;
		if (f.v.use_count() > 1) f.v = std::make_shared<vector<Val>>(*f.v);
		(*f.v)[i] = v;
	}
	replaceIn(s.excVal, x, e);
	for (auto& c : s.caught) replaceIn(c.second, x, e);
	for (auto& [r, R] : s.regs) {
		if (R.hasSize) R.size = replaced(R.size, x, e);
		R.zeroFrom = replaced(R.zeroFrom, x, e);
		vector<std::pair<i64, Val>> changed;
		for (auto& [o, c] : *R.cells) { Val v = c.v; if (replaceIn(v, x, e)) changed.push_back({o, v}); }
		if (changed.empty()) continue;
		if (R.cells.use_count() > 1) R.cells = std::make_shared<Cells>(*R.cells);
		for (auto& [o, v] : changed) (*R.cells)[o].v = v;
	}
	decltype(s.cache) cache;
	for (auto& [k, v] : s.cache) { Val y = v; replaceIn(y, x, e); cache[{k.first, replaced(k.second, x, e)}] = y; }
	s.cache = std::move(cache);
	for (auto& l : s.n.extra) l = replaced(l, x, e);
	for (auto it = s.n.eq.begin(); it != s.n.eq.end();) {
		*it = replaced(*it, x, e);
		it = Num::storable(*it) ? std::next(it) : s.n.eq.erase(it);
	}
}

// ---------- control flow
vector<Outcome> callFunction(State& s, const Function* F, vector<Val> args, const Instruction* call, int ctx) {
	nCalls++;
	auto& info = fi(F);
	fnsAnalysed.insert(info.dem);
	if (verbose && getenv("SAI_CALLS")) errs() << string(s.fr.size(), ' ') << info.dem << "\n";
	Frame fr;
	fr.F = F;
	fr.ctx = ctx;
	fr.v = std::make_shared<vector<Val>>(info.count);
	fr.has = std::make_shared<vector<bool>>(info.count, false);
	size_t i = 0;
	for (auto& a : F->args()) if (i < args.size()) { (*fr.v)[info.idx[&a]] = args[i++]; (*fr.has)[info.idx[&a]] = true; }
	s.fr.push_back(fr);
	std::map<const BasicBlock*, vector<State>> in;
	in[&F->getEntryBlock()].push_back(s);
	vector<Edge> esc;
	vector<Outcome> outs;
	runSeq(wto(F), in, esc, outs);
	// merge outcomes
	std::map<Key, vector<Outcome>> by;
	for (auto& o : outs) {
		Key k = ghostKey(o.s);
		k.push_back(o.exc);
		if (o.exc) k.push_back(o.s.excType);
		else { keyOfVal(o.s, o.ret, k); keyOfSret(o.s, k); }
		by[k].push_back(std::move(o));
	}
	std::map<Key, int> perGhost;
	size_t ng = outs.empty() ? 0 : ghostKey(s).size();
	for (auto& [k, v] : by) perGhost[Key(k.begin(), k.begin() + ng)]++;
	if (by.size() > 10) { // where too many, partition by ghosts only
		std::map<Key, vector<Outcome>> by2;
		for (auto& [k, v] : by) {
			bool many = perGhost[Key(k.begin(), k.begin() + ng)] > 10;
			for (auto& o : v) {
				Key k2 = k;
				if (many) {
					k2 = ghostKey(o.s);
					k2.push_back(o.exc);
					if (o.exc) k2.push_back(o.s.excType);
					else if (o.ret.k == Val::Fn || o.ret.k == Val::Ptr) keyOfVal(o.s, o.ret, k2);
				}
				by2[k2].push_back(std::move(o));
			}
		}
		by = std::move(by2);
	}
	vector<Outcome> res;
	for (auto& [k, v] : by) {
		vector<Outcome> accs;
		for (auto& o : v) {
			leaveFrame(o);
			size_t at = 0;
			int best = INT32_MAX;
			for (size_t i = 0; i < accs.size(); i++) {
				int c = ptrConflict(accs[i].s, o.s);
				if (c < best) { best = c; at = i; }
			}
			if (accs.empty() || (best && accs.size() < VARIANTS)) { accs.push_back(std::move(o)); continue; }
			if (best && verbose) errs() << "variants exhausted returning to " << (o.s.fr.empty() || !o.s.fr.back().F ? string("?") : fi(o.s.fr.back().F).dem) << " " << conflictWhat << "\n";
			Outcome& acc = accs[at];
			// keep the returned value inside the state while joining
			pushTmp(acc.s, acc.ret);
			pushTmp(o.s, o.ret);
			acc.s = joinStates(std::move(acc.s), std::move(o.s), false);
			acc.ret = popTmp(acc.s);
		}
		for (auto& acc : accs) {
			if (acc.s.n.iv.size() > 40 || acc.s.regs.size() > 60) { pushTmp(acc.s, acc.ret); collectGarbage(acc.s); acc.ret = popTmp(acc.s); }
			res.push_back(std::move(acc));
		}
	}
	return res;
}
void pushTmp(State& s, const Val& v) {
	Frame f;
	f.F = nullptr;
	f.v = std::make_shared<vector<Val>>(1, v);
	f.has = std::make_shared<vector<bool>>(1, true);
	s.fr.push_back(f);
}
Val popTmp(State& s) {
	Val v = (*s.fr.back().has)[0] ? (*s.fr.back().v)[0] : Val::top();
	s.fr.pop_back();
	return v;
}
void leaveFrame(Outcome& o) {
	int ctx = o.s.fr.back().ctx;
	const Function* F = o.s.fr.back().F;
	o.s.fr.pop_back();
	for (auto& b : *F) for (auto& i : b) if (isa<AllocaInst>(i)) {
		auto k = regionKey.find({&i, ctx});
		if (k == regionKey.end()) continue;
		auto r = o.s.regs.find(k->second);
		if (r == o.s.regs.end()) continue;
		bool ref = reachableRegion(o.s, k->second);
		if (!ref) { std::set<int> c; collectPtrs(o.ret, c); ref = c.count(k->second); }
		if (!ref) o.s.regs.erase(r);
		else {
			r->second.freed = true;
			r->second.cells = std::make_shared<Cells>();
			r->second.def = Def::Any;
		}
		for (auto c = o.s.cache.begin(); c != o.s.cache.end();) c = c->first.first == k->second ? o.s.cache.erase(c) : std::next(c);
	}
}

// States whose objects point to different places are kept apart, up to a small number of variants
static constexpr int VARIANTS = 4;
string conflictWhat;
int ptrConflict(const State& a, const State& b) {
	int n = 0;
	for (auto& [r, A] : a.regs) {
		auto f = b.regs.find(r);
		if (f == b.regs.end() || A.cells == f->second.cells || A.weak || f->second.weak) continue;
		for (auto& [o, c] : *A.cells) {
			if (c.v.k != Val::Ptr) continue;
			auto g = f->second.cells->find(o);
			if (g == f->second.cells->end() || g->second.v.k != Val::Ptr) continue;
			if (g->second.v.r != c.v.r) { n++; if (verbose) conflictWhat = regions[r].name + " at " + std::to_string(o) + ": " + regions[c.v.r].name + " or " + regions[g->second.v.r].name; }
		}
	}
	return n;
}
void keyOfSret(State& s, Key& k) {
	auto& f = s.fr.back();
	auto& info = fi(f.F);
	if (info.sret < 0 || !(*f.has)[info.sret]) return;
	const Val& v = (*f.v)[info.sret];
	if (v.k != Val::Ptr || !v.r || !s.regs.count(v.r) || !v.l.isConst()) return;
	for (auto& [o, c] : *s.regs.at(v.r).cells) if (o >= v.l.k && o < v.l.k + info.sretSize) { k.push_back(o); keyOfVal(s, c.v, k); }
}
template <typename Map>
std::pair<Key, bool> variantOf(Map& m, const State& s, Key k) { // where to put the state, and whether something is there
	k.push_back(0);
	int best = INT32_MAX, at = 0;
	for (int i = 0; i < VARIANTS; i++) {
		k.back() = i;
		auto it = m.find(k);
		if (it == m.end()) return {k, false};
		int c = ptrConflict(it->second, s);
		if (!c) return {k, true};
		if (c < best) { best = c; at = i; }
	}
	if (verbose) errs() << "variants exhausted in " << (s.fr.empty() || !s.fr.back().F ? string("?") : fi(s.fr.back().F).dem) << " " << conflictWhat << "\n";
	k.back() = at;
	return {k, true};
}
void addState(std::map<Key, State>& m, State s, const Key& k0) {
	auto [k, there] = variantOf(m, s, k0);
	if (!there) m.emplace(k, std::move(s));
	else m[k] = joinStates(std::move(m[k]), std::move(s), false);
}
std::map<Key, State> mergeIn(vector<State>& v, const BasicBlock* b, bool phis) {
	std::map<Key, State> m;
	vector<std::pair<Key, State>> keyed;
	std::set<Key> distinct;
	size_t ng = ghosts.size() + (!v.empty() && v[0].fr.size() <= 2 ? watched.size() : 0);
	for (auto& s : v) {
		Key k = ghostKey(s);
		k.push_back(s.landing);
		k.push_back(s.excType);
		if (phis) for (auto& p : b->phis()) {
			auto& f = s.fr.back();
			auto& info = fi(f.F);
			int i = info.idx.at(&p);
			if ((*f.has)[i]) keyOfVal(s, (*f.v)[i], k);
		}
		if (!phis) for (auto& p : b->phis()) { // at loop heads, only whether a flag or a character is zero
			if (!p.getType()->isIntegerTy(8) && !p.getType()->isIntegerTy(1)) continue;
			auto& f = s.fr.back();
			int i = fi(f.F).idx.at(&p);
			Key one;
			if ((*f.has)[i]) keyOfVal(s, (*f.v)[i], one);
			bool c = one.size() == 2 && one[0] == 1;
			k.push_back(one.empty() ? 0 : c && one[1] == 0 ? 1 : c && p.getType()->isIntegerTy(1) ? 2 : one[0] >= 10 && one[0] < 20 ? one[0] : 3);
		}
		if (phis && !s.fr.empty() && fi(s.fr.back().F).tail.count(b)) { // a returned object is kept in memory
			auto& f = s.fr.back();
			for (int i : fi(f.F).retObjects) {
				if (!(*f.has)[i]) continue;
				const Val& v = (*f.v)[i];
				if (v.k != Val::Ptr || !v.r || !s.regs.count(v.r)) continue;
				RS& R = s.regs.at(v.r);
				for (auto& [o, c] : *R.cells) { k.push_back(o); keyOfVal(s, c.v, k); }
			}
			keyOfSret(s, k);
		}
		distinct.insert(k);
		keyed.push_back({k, std::move(s)});
	}
	std::map<Key, int> perGhost;
	for (auto& k : distinct) perGhost[Key(k.begin(), k.begin() + ng)]++;
	for (auto& [k, s] : keyed) {
		if (phis && perGhost[Key(k.begin(), k.begin() + ng)] > 24) { k = ghostKey(s); k.push_back(s.landing); k.push_back(s.excType); }
		addState(m, std::move(s), k);
	}
	return m;
}
void runSeq(vector<WtoElem>& seq, std::map<const BasicBlock*, vector<State>>& in, vector<Edge>& esc, vector<Outcome>& outs) {
	std::set<const BasicBlock*> mine;
	for (auto& e : seq) mine.insert(e.b);
	for (auto& e : seq) {
		auto it = in.find(e.b);
		if (it == in.end() || it->second.empty()) continue;
		vector<State> states = std::move(it->second);
		in.erase(it);
		vector<Edge> edges;
		if (!e.comp) {
			auto m = mergeIn(states, e.b, true);
			for (auto& [k, s] : m) runBlock(std::move(s), e.b, edges, outs);
		} else {
			auto m = mergeIn(states, e.b, false);
			runLoop(e, std::move(m), edges, outs);
		}
		for (auto& x : edges) {
			if (mine.count(x.to)) in[x.to].push_back(std::move(x.s));
			else esc.push_back(std::move(x));
		}
	}
}
// One iteration of a loop from a header state
void loopIteration(WtoElem& e, State s, vector<State>& back, vector<Edge>& leave, vector<Outcome>& outs) {
	vector<Edge> edges;
	std::map<const BasicBlock*, vector<State>> in;
	std::set<const BasicBlock*> mine;
	for (auto& x : e.body) mine.insert(x.b);
	auto deliver = [&](Edge& x) {
		if (x.to == e.b) back.push_back(std::move(x.s));
		else if (mine.count(x.to)) in[x.to].push_back(std::move(x.s));
		else leave.push_back(std::move(x));
	};
	runBlock(std::move(s), e.b, edges, outs);
	for (auto& x : edges) deliver(x);
	vector<Edge> esc;
	runSeq(e.body, in, esc, outs);
	for (auto& x : esc) deliver(x);
}
// While the exit conditions are decided by what is known, iterations are executed one after another without joining
bool unroll(WtoElem& e, State& s, vector<Edge>& exits, vector<Outcome>& outs) {
	for (int n = 0; n < 3000; n++) {
		vector<State> back;
		vector<Edge> leave;
		vector<Outcome> o;
		loopIteration(e, s, back, leave, o);
		bool returns = false;
		for (auto& x : o) if (!x.exc) returns = true;
		if (back.empty()) {
			for (auto& x : leave) exits.push_back(std::move(x));
			for (auto& x : o) outs.push_back(std::move(x));
			return true;
		}
		if (!leave.empty() || returns) return false;
		auto m = mergeIn(back, e.b, false);
		if (m.size() != 1) return false;
		State next = std::move(m.begin()->second);
		if (n > 20 && leq(next, s)) return false;
		for (auto& x : o) outs.push_back(std::move(x));
		s = std::move(next);
	}
	return false;
}
void runLoop(WtoElem& e, std::map<Key, State> H, vector<Edge>& exits, vector<Outcome>& outs) {
	{
		vector<State> rest;
		for (auto& [k, s] : H) if (!unroll(e, s, exits, outs)) rest.push_back(std::move(s));
		if (rest.empty()) return;
		H = mergeIn(rest, e.b, false);
	}
	std::map<Key, int> rounds;
	std::map<Key, std::pair<vector<Edge>, vector<Outcome>>> results;
	std::set<Key> dirty;
	for (auto& x : H) dirty.insert(x.first);
	while (!dirty.empty()) {
		Key k = *dirty.begin();
		dirty.erase(dirty.begin());
		auto& res = results[k];
		res.first.clear();
		res.second.clear();
		vector<State> back;
		loopIteration(e, H[k], back, res.first, res.second);
		auto m = mergeIn(back, e.b, false);
		for (auto& [k1, s2] : m) {
			Key base = k1;
			base.pop_back();
			auto [k2, there] = variantOf(H, s2, base);
			auto h = H.find(k2);
			if (!there) { H.emplace(k2, std::move(s2)); dirty.insert(k2); continue; }
			if (leq(s2, h->second)) continue;
			int n = rounds[k2]++;
			if (verbose && n > 6) errs() << "loop " << fi(s2.fr.back().F).dem << " round " << n << " because of join.inc:" << whyNot << " " << whyWhat << "\n";
			if (n > 40) { recursionCuts.insert("no convergence in " + fi(s2.fr.back().F).dem); throw Budget(); }
			widenLevel = n > 16 ? 2 : n > 8 ? 1 : 0;
			h->second = joinStates(std::move(h->second), std::move(s2), n >= 1);
			dirty.insert(k2);
		}
	}
	for (auto& [k, r] : results) {
		for (auto& x : r.first) exits.push_back(std::move(x));
		for (auto& o : r.second) outs.push_back(std::move(o));
	}
}
void follow(State s, const BasicBlock* from, const BasicBlock* to, vector<Edge>& edges) {
	vector<std::pair<const PHINode*, Val>> ph;
	for (auto& p : to->phis()) ph.push_back({&p, getV(s, p.getIncomingValueForBlock(from))});
	for (auto& [p, v] : ph) setV(s, p, v);
	pruneDead(s, to);
	if (s.n.iv.size() > 60) collectGarbage(s);
	edges.push_back({to, std::move(s)});
}
void note(State& s, const Instruction* I, const string& w) {
	if (!repoLoc(I)) return;
	auto t = std::make_shared<Trace>();
	t->prev = s.tr;
	t->what = locOf(I) + " " + w;
	t->n = s.tr ? s.tr->n + 1 : 0;
	s.tr = t;
}
void runBlock(State s0, const BasicBlock* b, vector<Edge>& edges, vector<Outcome>& outs) {
	vector<std::pair<BasicBlock::const_iterator, State>> work;
	work.push_back({b->getFirstNonPHI()->getIterator(), std::move(s0)});
	while (!work.empty()) {
		auto [it, s] = std::move(work.back());
		work.pop_back();
		while (true) {
			const Instruction& I = *it;
			if (++nInsts > budget || (!(nInsts & 255) && time(nullptr) > deadline)) throw Budget();
			if (s.n.bottom) break;
			if (auto* br = dyn_cast<BranchInst>(&I)) {
				if (br->isUnconditional()) { follow(std::move(s), b, br->getSuccessor(0), edges); break; }
				Val c = getV(s, br->getCondition());
				BXP x = bxOf(s, c);
				int e = evalBX(s, x);
				vector<State> t, f;
				if (e != 0) assume(s, x, true, t);
				if (e != 1) assume(std::move(s), x, false, f);
				bool both = !t.empty() && !f.empty();
				for (auto& q : t) if (!q.n.bottom) { if (both) note(q, &I, "taken"); follow(std::move(q), b, br->getSuccessor(0), edges); }
				for (auto& q : f) if (!q.n.bottom) { if (both) note(q, &I, "not taken"); follow(std::move(q), b, br->getSuccessor(1), edges); }
				break;
			}
			if (auto* sw = dyn_cast<SwitchInst>(&I)) {
				Val c = getV(s, sw->getCondition());
				State rest = s;
				bool dead = false;
				for (auto& cs : sw->cases()) {
					BXP eq = cmpBX(s, CmpInst::ICMP_EQ, c, Val::num(Lin(cs.getCaseValue()->getSExtValue())), sw->getCondition()->getType());
					vector<State> t;
					if (evalBX(rest, eq) != 0) assume(rest, eq, true, t);
					for (auto& q : t) { note(q, &I, "case " + std::to_string(cs.getCaseValue()->getSExtValue())); follow(std::move(q), b, cs.getCaseSuccessor(), edges); }
					if (evalBX(rest, eq) == 1) { dead = true; break; }
					vector<State> f;
					assume(std::move(rest), eq, false, f);
					if (f.empty()) { dead = true; break; }
					rest = std::move(f[0]);
				}
				if (!dead && !rest.n.bottom) follow(std::move(rest), b, sw->getDefaultDest(), edges);
				break;
			}
			if (auto* r = dyn_cast<ReturnInst>(&I)) {
				Outcome o;
				if (r->getReturnValue()) o.ret = getV(s, r->getReturnValue());
				o.s = std::move(s);
				outs.push_back(std::move(o));
				break;
			}
			if (isa<UnreachableInst>(I)) break;
			if (auto* r = dyn_cast<ResumeInst>(&I)) {
				(void)r;
				Outcome o;
				o.exc = true;
				o.s = std::move(s);
				outs.push_back(std::move(o));
				break;
			}
			if (auto* cb = dyn_cast<CallBase>(&I)) {
				vector<Outcome> rs = doCall(s, cb);
				if (auto* inv = dyn_cast<InvokeInst>(cb)) {
					for (auto& o : rs) {
						if (o.s.n.bottom) continue;
						if (o.exc) unwindTo(std::move(o.s), b, inv->getUnwindDest(), edges, outs);
						else {
							if (!cb->getType()->isVoidTy()) setV(o.s, cb, o.ret);
							follow(std::move(o.s), b, inv->getNormalDest(), edges);
						}
					}
					break;
				}
				vector<State> cont;
				for (auto& o : rs) {
					if (o.s.n.bottom) continue;
					if (o.exc) { outs.push_back(std::move(o)); continue; }
					if (!cb->getType()->isVoidTy()) setV(o.s, cb, o.ret);
					cont.push_back(std::move(o.s));
				}
				if (cont.empty()) break;
				auto nx = std::next(it);
				for (size_t i = 1; i < cont.size(); i++) work.push_back({nx, std::move(cont[i])});
				s = std::move(cont[0]);
				it = nx;
				continue;
			}
			if (auto* sel = dyn_cast<SelectInst>(&I)) {
				BXP x = bxOf(s, getV(s, sel->getCondition()));
				int e = evalBX(s, x);
				if (e >= 0) { setV(s, &I, getV(s, e ? sel->getTrueValue() : sel->getFalseValue())); ++it; continue; }
				vector<State> t, f;
				assume(s, x, true, t);
				assume(std::move(s), x, false, f);
				auto nx = std::next(it);
				for (auto& q : t) { Val v = getV(q, sel->getTrueValue()); setV(q, &I, v); work.push_back({nx, std::move(q)}); }
				for (auto& q : f) { Val v = getV(q, sel->getFalseValue()); setV(q, &I, v); work.push_back({nx, std::move(q)}); }
				break;
			}
			step(s, I);
			++it;
		}
	}
}

// ---------- exceptions
int typeId(const Value* v) {
	v = v->stripPointerCasts();
	auto* g = dyn_cast<GlobalVariable>(v);
	if (!g) return 0;
	auto it = typeIds.find(g);
	if (it != typeIds.end()) return it->second;
	typeById.push_back(g);
	return typeIds[g] = typeById.size() - 1;
}
string typeName(int t) {
	if (!t) return "unknown";
	return demangle(typeById[t]->getName().str());
}
int typeByName(const char* mangled) { // "_ZTISt12length_error"
	auto* g = M.getNamedGlobal(mangled);
	if (!g) return 0;
	return typeId(g);
}
// 1 yes, 0 no, -1 unknown
int derivesFrom(int t, int base) {
	if (t == base) return 1;
	if (!t || !base) return -1;
	static const std::map<string, string> std_ = {
		{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
		{"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
		{"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
		{"_ZTISt12future_error", "_ZTISt11logic_error"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
		{"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}};
	auto* g = typeById[t];
	string baseName = typeById[base]->getName().str();
	if (!g->hasInitializer()) {
		string n = g->getName().str();
		while (true) {
			if (n == baseName) return 1;
			auto f = std_.find(n);
			if (f == std_.end()) return n == "_ZTISt9exception" ? 0 : -1;
			n = f->second;
		}
	}
	auto* c = g->getInitializer();
	if (c->getNumOperands() == 2) return 0; // no base
	int best = 0;
	for (unsigned i = 2; i < c->getNumOperands(); i++) {
		auto* o = dyn_cast<GlobalVariable>(c->getOperand(i)->stripPointerCasts());
		if (!o) continue;
		int r = derivesFrom(typeId(o), base);
		if (r == 1) return 1;
		if (r < 0) best = -1;
	}
	return best;
}
void unwindTo(State s, const BasicBlock* from, const BasicBlock* pad, vector<Edge>& edges, vector<Outcome>& outs) {
	auto* lp = pad->getLandingPadInst();
	bool certain = false;
	auto go = [&](State q, int sel) {
		vector<std::pair<const PHINode*, Val>> ph;
		for (auto& p : pad->phis()) ph.push_back({&p, getV(q, p.getIncomingValueForBlock(from))});
		for (auto& [p, v] : ph) setV(q, p, v);
		pruneDead(q, pad);
		// the landing pad's result is put in place when its block runs
		q.landing = sel;
		edges.push_back({pad, std::move(q)});
	};
	for (unsigned i = 0; i < lp->getNumClauses() && !certain; i++) {
		if (!lp->isCatch(i)) {
			auto* at = dyn_cast<ArrayType>(lp->getClause(i)->getType());
			if (at && at->getNumElements() == 0) { go(s, -1); certain = true; }
			continue;
		}
		auto* c = lp->getClause(i);
		if (isa<ConstantPointerNull>(c)) { go(s, 1000000); certain = true; break; }
		int m = derivesFrom(s.excType, typeId(c));
		if (m == 1) { go(s, typeId(c)); certain = true; }
		else if (m < 0) go(s, typeId(c));
	}
	if (certain) return;
	if (lp->isCleanup()) go(s, 0);
	else {
		Outcome o;
		o.exc = true;
		o.s = std::move(s);
		outs.push_back(std::move(o));
	}
}

// ---------- comparisons
BXP mkNot(BXP a) { BX b; b.op = BX::NOT; b.l = a; return mk(b); }
BXP mkAnd(BXP l, BXP r) { BX b; b.op = BX::AND; b.l = l; b.r = r; return mk(b); }
BXP mkOr(BXP l, BXP r) { BX b; b.op = BX::OR; b.l = l; b.r = r; return mk(b); }
BXP mkLe(const Lin& a) { BX b; b.op = BX::CMP_LE; b.a = a; return mk(b); } // a <= 0
BXP mkEq(const Lin& a) { BX b; b.op = BX::CMP_EQ; b.a = a; return mk(b); }
BXP unkBX(State& s) { return mkLe(Lin(1).minus(Lin::var(fresh(s, 0, 1)))); }
BXP linCmp(State& s, CmpInst::Predicate p, const Lin& a, const Lin& b) {
	Lin d = a.minus(b);
	if (d.t.size() == 1 && std::abs(d.t[0].c) == 1 && std::abs(d.k) < 100000) { // candidate bounds for widening
		i64 c = -d.k * d.t[0].c;
		thresholds.insert(c); thresholds.insert(c - 1); thresholds.insert(c + 1); if (c > 3) { thresholds.insert(-c); thresholds.insert(1 - c); }
	}
	switch (p) {
	case CmpInst::ICMP_EQ: return mkEq(d);
	case CmpInst::ICMP_NE: return mkNot(mkEq(d));
	case CmpInst::ICMP_SLE: return mkLe(d);
	case CmpInst::ICMP_SLT: return mkLe(d.plus(Lin(1)));
	case CmpInst::ICMP_SGE: return mkLe(d.scaled(-1));
	case CmpInst::ICMP_SGT: return mkLe(Lin(1).minus(d));
	default: break;
	}
	// unsigned: a and b hold the signed reading
	bool an = s.n.lower(a) >= 0, bn = s.n.lower(b) >= 0;
	auto lt = [&](const Lin& x, const Lin& y, bool xn, bool yn, bool strict) -> BXP {
		BXP sc = mkLe(x.minus(y).plus(Lin(strict ? 1 : 0)));
		if (xn && yn) return sc;
		BXP xp = mkLe(x.scaled(-1)), yp = mkLe(y.scaled(-1));
		if (yn) return mkAnd(xp, sc);
		if (xn) return mkOr(mkNot(yp), sc);
		return mkOr(mkAnd(xp, mkNot(yp)), mkAnd(mkOr(mkAnd(xp, yp), mkAnd(mkNot(xp), mkNot(yp))), sc));
	};
	switch (p) {
	case CmpInst::ICMP_ULT: return lt(a, b, an, bn, true);
	case CmpInst::ICMP_ULE: return lt(a, b, an, bn, false);
	case CmpInst::ICMP_UGT: return lt(b, a, bn, an, true);
	case CmpInst::ICMP_UGE: return lt(b, a, bn, an, false);
	default: return unkBX(s);
	}
}
bool constCmp(CmpInst::Predicate p, i64 a, i64 b, unsigned w) {
	uint64_t m = w >= 64 ? ~0ull : (1ull << w) - 1, ua = a & m, ub = b & m;
	if (w < 64) { int sh = 64 - w; a = (i64)(ua << sh) >> sh; b = (i64)(ub << sh) >> sh; }
	switch (p) {
	case CmpInst::ICMP_EQ: return ua == ub;
	case CmpInst::ICMP_NE: return ua != ub;
	case CmpInst::ICMP_SLE: return a <= b;
	case CmpInst::ICMP_SLT: return a < b;
	case CmpInst::ICMP_SGE: return a >= b;
	case CmpInst::ICMP_SGT: return a > b;
	case CmpInst::ICMP_ULE: return ua <= ub;
	case CmpInst::ICMP_ULT: return ua < ub;
	case CmpInst::ICMP_UGE: return ua >= ub;
	case CmpInst::ICMP_UGT: return ua > ub;
	default: return false;
	}
}
BXP cmpBX(State& s, CmpInst::Predicate p, Val a, Val b, Type* T) {
	unsigned w = T->isIntegerTy() ? T->getIntegerBitWidth() : 64;
	bool eq = p == CmpInst::ICMP_EQ, ne = p == CmpInst::ICMP_NE;
	auto nullish = [](const Val& v) { i64 c; return (v.k == Val::Ptr && v.r == 0) || (v.isC(c) && c == 0); };
	if (a.k == Val::Ptr || b.k == Val::Ptr || a.k == Val::Fn || b.k == Val::Fn) {
		if (a.k == Val::Ptr && b.k == Val::Ptr && a.r == b.r && a.r) {
			if (eq || ne || (!a.mn && !b.mn)) {
				CmpInst::Predicate q = p; // within one object, addresses order as offsets
				if (p == CmpInst::ICMP_ULT) q = CmpInst::ICMP_SLT;
				if (p == CmpInst::ICMP_ULE) q = CmpInst::ICMP_SLE;
				if (p == CmpInst::ICMP_UGT) q = CmpInst::ICMP_SGT;
				if (p == CmpInst::ICMP_UGE) q = CmpInst::ICMP_SGE;
				return linCmp(s, q, a.l, b.l);
			}
			return unkBX(s);
		}
		if ((eq || ne)) {
			if (nullish(a) && nullish(b)) return constBX(eq);
			if (nullish(b)) std::swap(a, b);
			if (nullish(a)) {
				if (b.k == Val::Fn) return constBX(ne);
				if (b.k == Val::Ptr) {
					if (b.mn) return unkBX(s);
					if (regions[b.r].kind == RegionInfo::Symbolic && regions[b.r].mayNull) {
						BX n; n.op = BX::NULLP; n.region = b.r;
						return eq ? mk(n) : mkNot(mk(n));
					}
					return constBX(ne);
				}
				return unkBX(s);
			}
			if (a.k == Val::Fn && b.k == Val::Fn) return constBX(eq == (a.f == b.f));
			if (a.k == Val::Ptr && b.k == Val::Ptr && !a.mn && !b.mn) {
				auto known = [&](int r) { auto k = regions[r].kind; return k != RegionInfo::Symbolic; };
				if (known(a.r) && known(b.r)) return constBX(ne);
			}
		}
		return unkBX(s);
	}
	i64 c, d;
	if (a.isC(c) && b.isC(d)) return constBX(constCmp(p, c, d, w));
	if (a.k == Val::Byte && b.k == Val::Byte) {
		if (a.b == b.b) {
			auto t = std::make_shared<Tab>();
			for (int i = 0; i < 256; i++) (*t)[i] = constCmp(p, (*a.t)[i], (*b.t)[i], w);
			BX x; x.op = BX::BYTE; x.byte = a.b; x.tab = t;
			return mk(x);
		}
		auto va = byteVals(s, a), vb = byteVals(s, b);
		if (vb.size() == 1) b = Val::num(Lin(*vb.begin()));
		else if (va.size() == 1) { a = b; b = Val::num(Lin(*va.begin())); p = CmpInst::getSwappedPredicate(p); }
		else {
			bool t = false, f = false;
			for (i64 x : va) for (i64 y : vb) (constCmp(p, x, y, w) ? t : f) = true;
			if (t != f) return constBX(t);
			return unkBX(s);
		}
	}
	if (b.k == Val::Byte && a.isC(c)) { std::swap(a, b); p = CmpInst::getSwappedPredicate(p); }
	if (a.k == Val::Byte && b.isC(c)) {
		auto t = std::make_shared<Tab>();
		for (int i = 0; i < 256; i++) (*t)[i] = constCmp(p, (*a.t)[i], c, w);
		BX x; x.op = BX::BYTE; x.byte = a.b; x.tab = t;
		return mk(x);
	}
	if (b.k == Val::Bool && a.isC(c)) std::swap(a, b), p = CmpInst::getSwappedPredicate(p);
	if (a.k == Val::Bool && b.isC(c)) {
		bool t = constCmp(p, w == 1 ? -1 : 1, w == 1 && c ? -1 : c, w), f = constCmp(p, 0, w == 1 && c ? -1 : c, w);
		if (t == f) return constBX(t);
		return t ? a.x : mkNot(a.x);
	}
	if (a.k == Val::Bool && b.k == Val::Bool && (eq || ne)) {
		int x = evalBX(s, a.x), y = evalBX(s, b.x);
		if (y >= 0) return (y == 1) == eq ? a.x : mkNot(a.x);
		if (x >= 0) return (x == 1) == eq ? b.x : mkNot(b.x);
		if (bxEq(a.x, b.x)) return constBX(eq);
		BXP both = mkOr(mkAnd(a.x, b.x), mkAnd(mkNot(a.x), mkNot(b.x)));
		return eq ? both : mkNot(both);
	}
	if (a.k == Val::Top || b.k == Val::Top) {
		if (a.k == Val::Top && b.k == Val::Top) return unkBX(s);
	}
	return linCmp(s, p, asLin(s, a, T), asLin(s, b, T));
}

// ---------- arithmetic
i64 wrapTo(__int128 v, unsigned w) {
	if (w >= 64) return (i64)v;
	uint64_t m = (1ull << w) - 1, u = (uint64_t)v & m;
	if (w == 1) return u;
	int sh = 64 - w;
	return (i64)(u << sh) >> sh;
}
bool foldOp(unsigned op, i64 a, i64 b, unsigned w, i64& r) {
	uint64_t m = w >= 64 ? ~0ull : (1ull << w) - 1, ua = (uint64_t)a & m, ub = (uint64_t)b & m;
	switch (op) {
	case Instruction::Add: r = wrapTo((__int128)a + b, w); return true;
	case Instruction::Sub: r = wrapTo((__int128)a - b, w); return true;
	case Instruction::Mul: r = wrapTo((__int128)a * b, w); return true;
	case Instruction::And: r = wrapTo(ua & ub, w); return true;
	case Instruction::Or: r = wrapTo(ua | ub, w); return true;
	case Instruction::Xor: r = wrapTo(ua ^ ub, w); return true;
	case Instruction::Shl: if (ub >= w) return false; r = wrapTo(ua << ub, w); return true;
	case Instruction::LShr: if (ub >= w) return false; r = wrapTo(ua >> ub, w); return true;
	case Instruction::AShr: if (ub >= w) return false; r = wrapTo(a >> ub, w); return true;
	case Instruction::SDiv: if (!b) return false; r = wrapTo(a / b, w); return true;
	case Instruction::SRem: if (!b) return false; r = wrapTo(a % b, w); return true;
	case Instruction::UDiv: if (!ub) return false; r = wrapTo(ua / ub, w); return true;
	case Instruction::URem: if (!ub) return false; r = wrapTo(ua % ub, w); return true;
	}
	return false;
}
Val clampType(State& s, const Lin& l, Type* T) {
	Iv r = s.n.range(l), t = typeRange(T);
	if (r.lo >= t.lo && r.hi <= t.hi) return Val::num(l);
	if (T->getIntegerBitWidth() >= 62 ) return Val::num(l); // 64-bit sizes are taken not to wrap
	return Val::num(Lin::var(fresh(s, t.lo, t.hi)));
}
Val binop(State& s, const BinaryOperator& I) {
	unsigned op = I.getOpcode();
	Type* T = I.getType();
	if (!T->isIntegerTy()) return Val::top();
	unsigned w = T->getIntegerBitWidth();
	if (w > 64) return Val::top();
	Val a = getV(s, I.getOperand(0)), b = getV(s, I.getOperand(1));
	i64 c, d, r;
	if (a.isC(c) && b.isC(d)) {
		if (foldOp(op, c, d, w, r) && r > -INF && r < INF) return Val::num(Lin(r));
		return freshVal(s, T);
	}
	if (a.k == Val::Agg || b.k == Val::Agg) {
		if (op == Instruction::LShr && a.k == Val::Agg && b.isC(d) && a.a->size() == 4 && (*a.a)[1].l.k * 8 == d && (*a.a)[3].l.k * 8 == w - d && (*a.a)[2].k == Val::Int)
			return castInt(s, (*a.a)[2], Type::getIntNTy(M.getContext(), w - d), T, false);
		return freshVal(s, T);
	}
	// pointers travelling as integers
	if (a.k == Val::Ptr && b.k == Val::Ptr && op == Instruction::Sub && a.r == b.r) return Val::num(a.l.minus(b.l));
	if (a.k == Val::Ptr && a.r && (op == Instruction::Add || op == Instruction::Sub) && b.k != Val::Ptr && b.k != Val::Fn) {
		a.l = a.l.plus(asLin(s, b, T), op == Instruction::Add ? 1 : -1);
		return a;
	}
	if (b.k == Val::Ptr && b.r && op == Instruction::Add && a.k != Val::Ptr && a.k != Val::Fn) { b.l = b.l.plus(asLin(s, a, T)); return b; }
	if (a.k == Val::Ptr && a.r == 0) a = Val::num(a.l);
	if (b.k == Val::Ptr && b.r == 0) b = Val::num(b.l);
	if (w == 1) {
		BXP x = bxOf(s, a), y = bxOf(s, b);
		if (op == Instruction::And) return Val::boolean(mkAnd(x, y));
		if (op == Instruction::Or) return Val::boolean(mkOr(x, y));
		if (op == Instruction::Xor) {
			int e = evalBX(s, y);
			if (e == 1) return Val::boolean(mkNot(x));
			if (e == 0) return Val::boolean(x);
			return Val::boolean(mkOr(mkAnd(x, mkNot(y)), mkAnd(mkNot(x), y)));
		}
		return freshVal(s, T);
	}
	if (a.k == Val::Byte && b.isC(d)) {
		auto t = std::make_shared<Tab>();
		bool ok = true;
		for (int i = 0; i < 256 && ok; i++) { ok = foldOp(op, (*a.t)[i], d, w, r); (*t)[i] = r; }
		if (ok) return Val::byteOf(a.b, t);
	}
	if (b.k == Val::Byte && a.isC(c)) {
		auto t = std::make_shared<Tab>();
		bool ok = true;
		for (int i = 0; i < 256 && ok; i++) { ok = foldOp(op, c, (*b.t)[i], w, r); (*t)[i] = r; }
		if (ok) return Val::byteOf(b.b, t);
	}
	if (a.k == Val::Byte && b.k == Val::Byte && a.b == b.b) {
		auto t = std::make_shared<Tab>();
		bool ok = true;
		for (int i = 0; i < 256 && ok; i++) { ok = foldOp(op, (*a.t)[i], (*b.t)[i], w, r); (*t)[i] = r; }
		if (ok) return Val::byteOf(a.b, t);
	}
	if (a.k == Val::Fn || b.k == Val::Fn) return Val::top();
	Lin x = asLin(s, a, T), y = asLin(s, b, T);
	Iv xr = s.n.range(x), yr = s.n.range(y), tr = typeRange(T);
	auto freshIn = [&](i64 lo, i64 hi) { return Val::num(Lin::var(fresh(s, std::max(lo, tr.lo), std::min(hi, tr.hi)))); };
	switch (op) {
	case Instruction::Add: {
		Lin l = x.plus(y);
		if (l.t.size() > MAXT) break;
		return clampType(s, l, T);
	}
	case Instruction::Sub: {
		Lin l = x.minus(y);
		if (l.t.size() > MAXT) break;
		return clampType(s, l, T);
	}
	case Instruction::Mul:
		if (y.isConst()) return clampType(s, x.scaled(y.k), T);
		if (x.isConst()) return clampType(s, y.scaled(x.k), T);
		if (xr.lo >= 0 && yr.lo >= 0) {
			__int128 hi = (__int128)xr.hi * yr.hi;
			if (xr.hi < INF && yr.hi < INF && hi <= tr.hi) return freshIn(xr.lo * yr.lo, (i64)hi);
		}
		break;
	case Instruction::Shl:
		if (y.isConst() && y.k >= 0 && y.k < 40) return clampType(s, x.scaled(i64(1) << y.k), T);
		break;
	case Instruction::LShr:
	case Instruction::UDiv:
	case Instruction::AShr:
	case Instruction::SDiv: {
		if (!y.isConst()) { if (xr.lo >= 0 && yr.lo >= 0) return freshIn(0, xr.hi); break; }
		i64 q = op == Instruction::LShr || op == Instruction::AShr ? (y.k >= 0 && y.k < 60 ? i64(1) << y.k : 0) : y.k;
		if (q <= 0) break;
		if (q == 1) return Val::num(x);
		bool uns = op == Instruction::LShr || op == Instruction::UDiv;
		if (xr.lo < 0 && uns) { if (w < 62) return freshIn(0, (i64)(((1ull << w) - 1) / q)); return freshIn(0, tr.hi); }
		bool exact = (op == Instruction::SDiv || op == Instruction::UDiv || op == Instruction::AShr || op == Instruction::LShr) && cast<PossiblyExactOperator>(&I)->isExact();
		if (exact) {
			bool div = x.k % q == 0;
			for (auto& t : x.t) div &= t.c % q == 0;
			if (div) { Lin z(x.k / q); for (auto& t : x.t) z.t.push_back({t.id, t.c / q}); return Val::num(z); }
		}
		auto fl = [&](i64 v) { return op == Instruction::AShr ? (v >= 0 ? v / q : -((-v + q - 1) / q)) : v / q; };
		Id id = fresh(s, xr.lo <= -INF ? tr.lo : fl(xr.lo), xr.hi >= INF ? tr.hi : fl(xr.hi));
		Lin z = Lin::var(id);
		if (xr.lo >= 0 && x.t.size() < MAXT) {
			s.n.assumeLe0(z.scaled(q).minus(x));
			s.n.assumeLe0(x.minus(z.scaled(q)).minus(Lin(q - 1)));
			s.n.assumeLe0(z.minus(x));
		}
		return Val::num(z);
	}
	case Instruction::SRem:
	case Instruction::URem:
		if (y.isConst() && y.k > 0) {
			if (xr.lo >= 0) { if (xr.hi < y.k) return Val::num(x); return freshIn(0, std::min(xr.hi, y.k - 1)); }
			if (op == Instruction::SRem) return freshIn(-(y.k - 1), y.k - 1);
			return freshIn(0, y.k - 1);
		}
		break;
	case Instruction::And: {
		if (x.isConst()) { std::swap(x, y); std::swap(xr, yr); }
		if (y.isConst() && y.k >= 0) {
			if (xr.lo >= 0 && ((y.k + 1) & y.k) == 0 && xr.hi <= y.k) return Val::num(x);
			return freshIn(0, xr.lo >= 0 ? std::min(xr.hi, y.k) : y.k);
		}
		if (xr.lo >= 0) return freshIn(0, xr.hi);
		if (yr.lo >= 0) return freshIn(0, yr.hi);
		break;
	}
	case Instruction::Or:
		if (xr.lo >= 0 && yr.lo >= 0 && xr.hi < (i64(1) << 40) && yr.hi < (i64(1) << 40)) {
			i64 m = 1;
			while (m <= std::max(xr.hi, yr.hi)) m <<= 1;
			return freshIn(std::max(xr.lo, yr.lo), m - 1);
		}
		break;
	case Instruction::Xor:
		if (xr.lo >= 0 && yr.lo >= 0 && xr.hi < (i64(1) << 40) && yr.hi < (i64(1) << 40)) {
			i64 m = 1;
			while (m <= std::max(xr.hi, yr.hi)) m <<= 1;
			return freshIn(0, m - 1);
		}
		if (y.isConst() && y.k == -1) return Val::num(Lin(-1).minus(x));
		break;
	}
	return freshVal(s, T);
}
Val castInt(State& s, const Val& v, Type* from, Type* to, bool sext) {
	unsigned wf = from->getIntegerBitWidth(), wt = to->getIntegerBitWidth();
	if (wt > 64 || wf > 64) return Val::top();
	if (v.k == Val::Byte) {
		auto t = std::make_shared<Tab>();
		for (int i = 0; i < 256; i++) {
			i64 x = (*v.t)[i];
			if (wt > wf && !sext) x = (i64)((uint64_t)x & (wf >= 64 ? ~0ull : (1ull << wf) - 1));
			(*t)[i] = wrapTo(x, wt);
			if (wt == 1) (*t)[i] = x & 1;
		}
		Val r = Val::byteOf(v.b, t);
		if (wt == 1) { BX x; x.op = BX::BYTE; x.byte = v.b; x.tab = t; return Val::boolean(mk(x)); }
		return r;
	}
	if (v.k == Val::Bool) {
		if (wt > wf && sext && wf == 1) {
			int e = evalBX(s, v.x);
			if (e >= 0) return Val::num(Lin(-e));
			Id i = fresh(s, -1, 0);
			return Val::num(Lin::var(i));
		}
		return v;
	}
	if (v.k == Val::Ptr || v.k == Val::Fn) return wt == 64 ? v : freshVal(s, to);
	i64 c;
	if (v.isC(c)) {
		if (wt > wf) return Val::num(Lin(sext ? (wf == 1 ? -c : c) : clampI((__int128)((uint64_t)c & (wf >= 64 ? ~0ull : (1ull << wf) - 1)))));
		return Val::num(Lin(wrapTo(c, wt)));
	}
	if (v.k == Val::Agg) {
		if (v.a->size() >= 2 && (*v.a)[1].l.isConst() && (*v.a)[1].l.k * 8 == wt) {
			const Val& p = (*v.a)[0];
			if (p.k == Val::Int || p.k == Val::Byte || (wt == 64 && p.k == Val::Ptr)) return p;
		}
		return freshVal(s, to);
	}
	if (v.k == Val::Top) return freshVal(s, to);
	Iv r = s.n.range(v.l), t = typeRange(to);
	if (wt == 1) {
		if (r.lo >= 0 && r.hi <= 1) return Val::boolean(mkLe(Lin(1).minus(v.l)));
		return Val::boolean(unkBX(s));
	}
	if (wt > wf) {
		if (sext || r.lo >= 0) return v;
		if (r.hi < 0) return Val::num(v.l.plus(Lin(wf < 62 ? (i64(1) << wf) : 0)));
		i64 hi = wf < 62 ? (i64(1) << wf) - 1 : t.hi;
		return Val::num(Lin::var(fresh(s, 0, hi)));
	}
	if (r.lo >= t.lo && r.hi <= t.hi) return v;
	if (wt == 8) return freshByte(s);
	return Val::num(Lin::var(fresh(s, t.lo, t.hi)));
}
Val gep(State& s, const GEPOperator& G) {
	Val p = getV(s, G.getPointerOperand());
	if (p.k != Val::Ptr) return Val::top();
	Type* cur = G.getSourceElementType();
	bool first = true;
	for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
		const Value* ix = it.getOperand();
		if (auto* st = it.getStructTypeOrNull()) {
			unsigned f = cast<ConstantInt>(ix)->getZExtValue();
			p.l = p.l.plus(Lin(DL.getStructLayout(st)->getElementOffset(f)));
			if (st->getElementType(f)->isAggregateType()) { p.sLo = p.sHi = NOSUB; }
			cur = st->getElementType(f);
			first = false;
			continue;
		}
		Type* el = it.getIndexedType();
		i64 es = DL.getTypeAllocSize(el).getFixedValue();
		if (!first && cur->isArrayTy() && p.l.isConst()) {
			auto* at = cast<ArrayType>(cur);
			if (at->getNumElements() > 1 && (es == 1 || !el->isAggregateType()) && regions[p.r].kind != RegionInfo::Global) { p.sLo = p.l.k; p.sHi = p.l.k + es * (i64)at->getNumElements(); }
		}
		Val iv = getV(s, ix);
		Lin l = asLin(s, iv, ix->getType());
		if (iv.k == Val::Byte && !l.isConst()) {} // the link to the byte is lost
		Lin d = l.scaled(es);
		p.l = p.l.plus(d);
		if (p.l.t.size() > MAXT) {
			Iv r = s.n.range(p.l);
			p.l = Lin::var(fresh(s, r.lo, r.hi));
		}
		cur = el;
		first = false;
	}
	return p;
}

void step(State& s, const Instruction& I) {
	switch (I.getOpcode()) {
	case Instruction::Alloca: {
		auto& A = cast<AllocaInst>(I);
		RegionInfo info{RegionInfo::Alloca, A.hasName() ? A.getName().str() : "local"};
		info.name = "local '" + info.name + "' of " + fnShort(I.getFunction());
		int ctx = s.fr.back().ctx;
		int r = regionFor(&I, ctx, info);
		RS x;
		x.hasSize = A.isStaticAlloca() || isa<ConstantInt>(A.getArraySize());
		if (x.hasSize) x.size = Lin((i64)DL.getTypeAllocSize(A.getAllocatedType()).getFixedValue() * (i64)cast<ConstantInt>(A.getArraySize())->getZExtValue());
		x.def = Def::Uninit;
		s.regs[r] = x;
		setV(s, &I, Val::ptr(r, Lin(0)));
		return;
	}
	case Instruction::Load: {
		auto& L = cast<LoadInst>(I);
		Val v = load(s, &I, getV(s, L.getPointerOperand()), I.getType());
		if (I.getType()->isIntegerTy(1) && v.k == Val::Int) v = Val::boolean(mkLe(Lin(1).minus(v.l)));
		if (I.getType()->isIntegerTy(8) && v.k == Val::Top) v = freshByte(s);
		setV(s, &I, v);
		return;
	}
	case Instruction::Store: {
		auto& S = cast<StoreInst>(I);
		store(s, &I, getV(s, S.getPointerOperand()), getV(s, S.getValueOperand()), S.getValueOperand()->getType());
		return;
	}
	case Instruction::GetElementPtr: setV(s, &I, gep(s, cast<GEPOperator>(I))); return;
	case Instruction::ICmp: {
		auto& C = cast<ICmpInst>(I);
		if (C.getType()->isVectorTy()) { setV(s, &I, Val::top()); return; }
		BXP x = cmpBX(s, C.getPredicate(), getV(s, C.getOperand(0)), getV(s, C.getOperand(1)), C.getOperand(0)->getType());
		setV(s, &I, Val::boolean(x));
		return;
	}
	case Instruction::FCmp: setV(s, &I, Val::boolean(unkBX(s))); return;
	case Instruction::Trunc:
	case Instruction::ZExt:
	case Instruction::SExt: {
		if (!I.getType()->isIntegerTy()) { setV(s, &I, Val::top()); return; }
		setV(s, &I, castInt(s, getV(s, I.getOperand(0)), I.getOperand(0)->getType(), I.getType(), I.getOpcode() == Instruction::SExt));
		return;
	}
	case Instruction::PtrToInt: setV(s, &I, I.getType()->isIntegerTy(64) ? getV(s, I.getOperand(0)) : freshVal(s, I.getType())); return;
	case Instruction::IntToPtr: {
		Val v = getV(s, I.getOperand(0));
		i64 c;
		if (v.isC(c) && c == 0) v = Val::ptr(0, Lin(0));
		else if (v.k != Val::Ptr && v.k != Val::Fn) v = Val::top();
		setV(s, &I, v);
		return;
	}
	case Instruction::BitCast:
	case Instruction::Freeze:
	case Instruction::AddrSpaceCast: {
		Val v = getV(s, I.getOperand(0));
		if (I.getType() != I.getOperand(0)->getType()) v = freshVal(s, I.getType());
		setV(s, &I, v);
		return;
	}
	case Instruction::ExtractValue: {
		auto& E = cast<ExtractValueInst>(I);
		Val v = getV(s, E.getAggregateOperand());
		for (unsigned i : E.indices()) v = v.k == Val::Agg && i < v.a->size() ? (*v.a)[i] : Val::top();
		if (v.k == Val::Top) v = freshVal(s, I.getType());
		setV(s, &I, v);
		return;
	}
	case Instruction::InsertValue: {
		auto& E = cast<InsertValueInst>(I);
		Val v = getV(s, E.getAggregateOperand()), n = getV(s, E.getInsertedValueOperand());
		std::function<Val(const Val&, Type*, size_t)> ins = [&](const Val& a, Type* T, size_t d) -> Val {
			if (d == E.getIndices().size()) return n;
			unsigned cnt = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
			vector<Val> e(cnt);
			if (a.k == Val::Agg) for (unsigned i = 0; i < cnt && i < a.a->size(); i++) e[i] = (*a.a)[i];
			unsigned ix = E.getIndices()[d];
			e[ix] = ins(e[ix], T->isStructTy() ? T->getStructElementType(ix) : T->getArrayElementType(), d + 1);
			return Val::agg(e);
		};
		setV(s, &I, ins(v, I.getType(), 0));
		return;
	}
	case Instruction::LandingPad: {
		Val exc = s.excVal;
		if (exc.k == Val::Top) exc = Val::ptr(excRegion(), Lin(0));
		i64 sel = s.landing == 1000000 ? 1 : s.landing;
		s.landing = 0;
		setV(s, &I, Val::agg({exc, Val::num(Lin(sel))}));
		return;
	}
	case Instruction::AtomicRMW: {
		auto& A = cast<AtomicRMWInst>(I);
		Val p = getV(s, A.getPointerOperand());
		Val old = load(s, &I, p, I.getType());
		if (A.getOperation() == AtomicRMWInst::Xchg) store(s, &I, p, getV(s, A.getValOperand()), I.getType());
		else store(s, &I, p, freshVal(s, I.getType()), I.getType());
		setV(s, &I, old);
		return;
	}
	case Instruction::AtomicCmpXchg: {
		Val p = getV(s, I.getOperand(0));
		store(s, &I, p, freshVal(s, I.getOperand(1)->getType()), I.getOperand(1)->getType());
		setV(s, &I, freshVal(s, I.getType()));
		return;
	}
	case Instruction::Fence: return;
	default:
		if (auto* B = dyn_cast<BinaryOperator>(&I)) { setV(s, &I, binop(s, *B)); return; }
		if (!I.getType()->isVoidTy()) {
			if (I.getOpcode() == Instruction::FPToSI || I.getOpcode() == Instruction::FPToUI) { setV(s, &I, freshVal(s, I.getType())); return; }
			setV(s, &I, freshVal(s, I.getType()));
		}
	}
}
int excRegion() {
	static const char tag = 0;
	RegionInfo i{RegionInfo::Symbolic, "exception object"};
	return regionFor(&tag, 0, i);
}
