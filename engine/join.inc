// joins, widening and inclusion (part of class Engine)

struct JoinCtx {
	State &A, &B;
	State C;
	std::map<std::pair<Lin, Lin>, Id> memo;
	struct P { Id c; Lin a, b; };
	vector<P> pairs;
	std::set<Id> identity;
	std::map<std::pair<Id, Id>, Id> byteMemo;
	std::set<Id> byteIdent;
	JoinCtx(State& a, State& b) : A(a), B(b) {}
};
void markIdent(JoinCtx& J, const Lin& l) {
	for (auto& t : l.t) if (J.identity.insert(t.id).second) J.pairs.push_back({t.id, Lin::var(t.id), Lin::var(t.id)});
}
void markBX(JoinCtx& J, const BXP& x) {
	if (!x) return;
	markIdent(J, x->a);
	if (x->byte) markByte(J, x->byte);
	markBX(J, x->l);
	markBX(J, x->r);
}
void markByte(JoinCtx& J, Id b) {
	if (!J.byteIdent.insert(b).second) return;
	auto fa = J.A.n.bytes.find(b), fb = J.B.n.bytes.find(b);
	std::bitset<256> u;
	if (fa == J.A.n.bytes.end() || fb == J.B.n.bytes.end()) u.set();
	else u = fa->second | fb->second;
	J.C.n.bytes[b] = u;
}
void markVal(JoinCtx& J, const Val& v) {
	if (v.k == Val::Int || v.k == Val::Ptr) markIdent(J, v.l);
	else if (v.k == Val::Byte) { markByte(J, v.b); if (v.slice()) markIdent(J, v.l); }
	else if (v.k == Val::Bool) markBX(J, v.x);
	else if (v.k == Val::Agg) for (auto& e : *v.a) markVal(J, e);
}
Lin joinLin(JoinCtx& J, const Lin& a, const Lin& b) {
	if (a == b) { markIdent(J, a); return a; }
	Lin na = a, nb = b;
	na.k = 0;
	nb.k -= a.k;
	auto key = std::make_pair(na, nb);
	auto f = J.memo.find(key);
	Id c;
	if (f != J.memo.end()) c = f->second;
	else {
		c = nextId++;
		J.memo[key] = c;
		J.pairs.push_back({c, na, nb});
	}
	return Lin::var(c).plus(Lin(a.k));
}
Val joinVal(JoinCtx& J, const Val& a, const Val& b) {
	if (valEq(a, b)) {
		Val v = a;
		if (a.slice() && !(b.slice() && a.l == b.l && a.sLo == b.sLo && a.sHi == b.sHi)) v.sLo = v.sHi = NOSUB;
		markVal(J, v);
		return v;
	}
	auto numeric = [](const Val& v) { return v.k == Val::Int || v.k == Val::Byte || v.k == Val::Bool; };
	if (a.k == Val::Ptr && b.k == Val::Ptr) {
		if (a.r == b.r) {
			Val v = Val::ptr(a.r, joinLin(J, a.l, b.l));
			v.mn = a.mn || b.mn;
			if (a.sLo != NOSUB && b.sLo != NOSUB) { v.sLo = std::min(a.sLo, b.sLo); v.sHi = std::max(a.sHi, b.sHi); }
			return v;
		}
		if (a.r == 0 || b.r == 0) { // null or a place in r
			Val v = a.r ? a : b;
			v.mn = true;
			i64 lo = (a.r ? J.A : J.B).n.lower(v.l);
			Lin other = v.l.isConst() ? v.l : Lin(lo > -INF && lo < INF ? lo : 0);
			bool known = true; // the offset of null is of no interest, so it can be the same
			for (auto& t : v.l.t) known &= (a.r ? J.B : J.A).n.iv.count(t.id) > 0;
			if (known) other = v.l;
			v.l = a.r ? joinLin(J, v.l, other) : joinLin(J, other, v.l);
			return v;
		}
		if (regions[a.r].deep && regions[b.r].deep) {
			Val v = Val::ptr(deepUnion(a.r, b.r), joinLin(J, a.l, b.l));
			v.mn = a.mn || b.mn;
			return v;
		}
		return Val::top();
	}
	if (a.k == Val::Agg && b.k == Val::Agg && a.a->size() == b.a->size()) {
		vector<Val> e;
		for (size_t i = 0; i < a.a->size(); i++) e.push_back(joinVal(J, (*a.a)[i], (*b.a)[i]));
		return Val::agg(e);
	}
	if (a.k == Val::Byte && b.k == Val::Byte && (a.t == b.t || *a.t == *b.t)) {
		auto key = std::make_pair(a.b, b.b);
		auto f = J.byteMemo.find(key);
		if (f != J.byteMemo.end()) return Val::byteOf(f->second, a.t);
		Id c = nextId++;
		auto fa = J.A.n.bytes.find(a.b), fb = J.B.n.bytes.find(b.b);
		std::bitset<256> u;
		if (fa == J.A.n.bytes.end() || fb == J.B.n.bytes.end()) u.set();
		else u = fa->second | fb->second;
		J.C.n.bytes[c] = u;
		J.byteMemo[key] = c;
		return Val::byteOf(c, a.t);
	}
	if (a.k == Val::Bool && b.k == Val::Bool) {
		// keep a comparison whose operands can be joined
		if (a.x->op == b.x->op && (a.x->op == BX::CMP_LE || a.x->op == BX::CMP_EQ)) {
			BX n = *a.x;
			n.a = joinLin(J, a.x->a, b.x->a);
			return Val::boolean(mk(n));
		}
	}
	if (numeric(a) && numeric(b)) {
		Type* T = Type::getInt64Ty(M.getContext());
		Lin la = asLin(J.A, a, T), lb = asLin(J.B, b, T);
		return Val::num(joinLin(J, la, lb));
	}
	return Val::top();
}
int widenLevel = 0; // later rounds skip the finer thresholds
i64 threshLo(i64 v) {
	static const i64 t[] = {0, -1, -2, -3, -8, -16, -20, -32, -64, -128, -256, -1024, -65536, INT32_MIN};
	i64 best = -(i64(1) << 61);
	for (i64 x : t) if (v >= x) { best = x; break; }
	if (widenLevel > 1) return v >= 0 ? 0 : v >= INT32_MIN ? INT32_MIN : -(i64(1) << 61);
	if (widenLevel > 0) return best;
	auto f = thresholds.upper_bound(v);
	if (f != thresholds.begin() && *std::prev(f) > best) best = *std::prev(f);
	return best;
}
i64 threshHi(i64 v) {
	static const i64 t[] = {-1, 0, 1, 2, 3, 8, 16, 20, 32, 64, 127, 255, 256, 1024, 65535, i64(1) << 30, INT32_MAX, UINT32_MAX};
	i64 best = i64(1) << 61;
	for (i64 x : t) if (v <= x) { best = x; break; }
	if (widenLevel > 1) return v <= 0 ? 0 : v <= INT32_MAX ? INT32_MAX : v <= UINT32_MAX ? UINT32_MAX : i64(1) << 61;
	if (widenLevel > 0) return best;
	auto f = thresholds.lower_bound(v);
	if (f != thresholds.end() && *f < best) best = *f;
	return best;
}
std::set<i64> thresholds;
struct DistCache {
	const Num& n;
	std::map<int, std::map<int, i64>> m;
	std::set<int> hasEdges;
	std::set<Id> inLong; // in a constraint of three or more values
	DistCache(const Num& n) : n(n) {
		for (auto& x : n.e) hasEdges.insert(x.first.first);
		for (auto* c : {&n.extra, &n.eq}) for (auto& l : *c) for (auto& t : l.t) inLong.insert(t.id);
	}
	i64 dist(int u, int v) {
		i64 b = satAdd(n.ub(v), n.ub(u ^ 1));
		if (!hasEdges.count(u)) return b;
		auto it = m.find(u);
		if (it == m.end()) { it = m.emplace(u, std::map<int, i64>{}).first; n.sssp(u, it->second); }
		auto f = it->second.find(v);
		if (f != it->second.end()) b = std::min(b, f->second);
		return b;
	}
	// upper bound of sa*a + sb*b
	i64 up(const Lin& a, int sa, const Lin& b, int sb) {
		Lin l = a.scaled(sa).plus(b.scaled(sb));
		if (l.t.size() == 2 && std::abs(l.t[0].c) == 1 && std::abs(l.t[1].c) == 1 && !inLong.count(l.t[0].id) && !inLong.count(l.t[1].id))
			return satAdd(dist(node(l.t[0].id, l.t[0].c > 0), node(l.t[1].id, l.t[1].c < 0)), l.k);
		return n.upper(l, 0, 1);
	}
};
RS joinRS(JoinCtx& J, int r, bool inA, bool inB) {
	RS &a = ensure(J.A, r), &b = ensure(J.B, r);
	RS c;
	c.weak = a.weak || b.weak;
	c.freed = a.freed && b.freed;
	if (a.freed != b.freed) c.weak = true;
	c.hasSize = a.hasSize && b.hasSize && !c.weak;
	if (c.hasSize) c.size = joinLin(J, a.size, b.size);
	c.def = a.def == b.def ? a.def : Def::Any;
	if (c.weak) return c;
	if (a.cells == b.cells && a.def == b.def) {
		c.cells = a.cells;
		for (auto& [o, x] : *c.cells) markVal(J, x.v);
		return c;
	}
	std::set<i64> keys;
	for (auto& x : *a.cells) keys.insert(x.first);
	for (auto& x : *b.cells) keys.insert(x.first);
	auto out = std::make_shared<Cells>();
	auto overlaps = [](const Cells& m, i64 o, unsigned sz) {
		auto it = m.lower_bound(o + sz);
		while (it != m.begin()) {
			--it;
			if (it->first + (i64)it->second.size > o) return true;
			if (it->first + 64 < o) break;
		}
		return false;
	};
	bool defaultMatters = c.def == Def::Const || c.def == Def::Zero || c.def == Def::Lazy;
	for (i64 o : keys) {
		auto fa = a.cells->find(o), fb = b.cells->find(o);
		if (fa != a.cells->end() && fb != b.cells->end() && fa->second.size == fb->second.size) {
			(*out)[o] = {joinVal(J, fa->second.v, fb->second.v), fa->second.size};
			continue;
		}
		auto one = [&](const Cell& cell, const Cells& other, State& os, bool first) {
			if (!overlaps(other, o, cell.size)) {
				Def od = ensure(os, r).def;
				if (od == Def::Const || od == Def::Zero || od == Def::Lazy) {
					Type* T = cell.v.k == Val::Ptr || cell.v.k == Val::Fn ? (Type*)PointerType::get(M.getContext(), 0) : (Type*)Type::getIntNTy(M.getContext(), cell.size * 8);
					Val d = cell.size <= 8 ? defaultVal(os, r, o, T) : Val::top();
					(*out)[o] = {first ? joinVal(J, cell.v, d) : joinVal(J, d, cell.v), cell.size};
					return;
				}
			}
			if (defaultMatters) (*out)[o] = {Val::top(), cell.size};
		};
		if (fa != a.cells->end() && fb == b.cells->end()) one(fa->second, *b.cells, J.B, true);
		else if (fb != b.cells->end() && fa == a.cells->end()) one(fb->second, *a.cells, J.A, false);
		else (*out)[o] = {Val::top(), std::max(fa->second.size, fb->second.size)};
	}
	c.cells = out;
	return c;
}
// affine equalities of three or more values that hold on both sides
struct Fr {
	i64 n = 0, d = 1;
	bool big() const { return std::abs(n) > 1000000000 || d > 1000000000; }
};
Fr mkFr(__int128 n, __int128 d) {
	__int128 g = n < 0 ? -n : n, h = d < 0 ? -d : d;
	while (h) { auto t = g % h; g = h; h = t; }
	if (!g) g = 1;
	if (d < 0) g = -g;
	return {clampI(n / g), clampI(d / g)};
}
using FrVec = std::map<int, Fr>;
bool addScaled(FrVec& v, const FrVec& o, Fr f) { // v -= f * o
	for (auto& [k, x] : o) {
		Fr& t = v[k];
		t = mkFr((__int128)t.n * x.d * f.d - (__int128)x.n * f.n * t.d, (__int128)t.d * x.d * f.d);
		if (t.big()) return false;
		if (!t.n) v.erase(k);
	}
	return true;
}
void karr(JoinCtx& J) {
	auto reducer = [](Num& n) { // pivot -> expression
		std::map<Id, Lin> sub;
		auto apply = [&](Lin l) {
			for (int i = 0; i < 8; i++) {
				bool any = false;
				for (auto& t : Terms(l.t)) {
					auto f = sub.find(t.id);
					if (f == sub.end()) continue;
					l = l.minus(Lin::var(t.id).scaled(t.c)).plus(f->second, t.c);
					any = true;
				}
				if (!any) break;
			}
			return l;
		};
		auto add = [&](const Lin& e0) {
			Lin e = Num::reduced(apply(e0));
			for (auto it = e.t.rbegin(); it != e.t.rend(); ++it) if (std::abs(it->c) == 1) {
				sub[it->id] = Lin::var(it->id).minus(e.scaled(it->c));
				return;
			}
		};
		for (auto& e : n.eq) add(e);
		for (auto& [uv, c] : n.e) {
			auto [u, v] = uv;
			if (u > v || u / 2 == v / 2) continue;
			auto f = n.e.find({v, u});
			if (f == n.e.end() || f->second != -c) continue;
			add(Lin::var(v / 2).scaled(v & 1 ? -1 : 1).minus(Lin::var(u / 2).scaled(u & 1 ? -1 : 1)).minus(Lin(c)));
		}
		return std::make_pair(sub, 0);
	};
	auto sa = reducer(J.A.n).first, sb = reducer(J.B.n).first;
	auto apply = [](const std::map<Id, Lin>& sub, Lin l) {
		for (int i = 0; i < 8; i++) {
			bool any = false;
			for (auto& t : Terms(l.t)) {
				auto f = sub.find(t.id);
				if (f == sub.end()) continue;
				l = l.minus(Lin::var(t.id).scaled(t.c)).plus(f->second, t.c);
				any = true;
			}
			if (!any) break;
		}
		return l;
	};
	vector<size_t> sel;
	std::set<Id> idsA, idsB;
	for (auto& p : J.pairs) if (!(p.a == p.b)) {
		for (auto& t : apply(sa, p.a).t) idsA.insert(t.id);
		for (auto& t : apply(sb, p.b).t) idsB.insert(t.id);
	}
	size_t changed = 0;
	for (size_t i = 0; i < J.pairs.size(); i++) {
		auto& p = J.pairs[i];
		if (!(p.a == p.b)) { changed++; continue; }
		bool rel = sa.count(p.c) || sb.count(p.c);
		for (auto& t : apply(sa, p.a).t) rel |= idsA.count(t.id) > 0;
		for (auto& t : apply(sb, p.b).t) rel |= idsB.count(t.id) > 0;
		for (auto& e : J.A.n.eq) for (auto& t : e.t) rel |= t.id == p.c;
		if (rel) sel.push_back(i);
	}
	for (size_t i = 0; i < J.pairs.size(); i++) if (!(J.pairs[i].a == J.pairs[i].b)) sel.push_back(i);
	if (getenv("KARR")) { errs() << "karr " << fi(J.A.fr.back().F?J.A.fr.back().F:J.A.fr[0].F).dem.substr(0,50) << " pairs " << J.pairs.size() << "\n"; for (auto& e : J.A.n.eq) errs() << "  A eq " << e.str() << "\n"; for (auto& e : J.B.n.eq) errs() << "  B eq " << e.str() << "\n"; for (size_t i : sel) errs() << "   v" << J.pairs[i].c << " = " << J.pairs[i].a.str() << " , " << J.pairs[i].b.str() << "\n"; }
	if (changed < 1 || sel.size() < 3 || sel.size() > 200) {
		std::set<Id> same;
		for (auto& p : J.pairs) if (p.a == p.b && p.a.isVar() && p.a.t[0].id == p.c && !p.a.k) same.insert(p.c);
		for (auto& e : J.A.n.eq) {
			bool ok = J.C.n.eq.size() < 24;
			for (auto& t : e.t) ok &= same.count(t.id) > 0;
			if (ok && J.B.n.upper(e) <= 0 && J.B.n.lower(e) >= 0) J.C.n.eq.push_back(e);
		}
		return;
	}
	struct Row { FrVec v, combo; int piv; };
	vector<Row> rows;
	auto insert = [&](FrVec v, int idx) -> FrVec {
		FrVec combo;
		combo[idx] = {1, 1};
		for (auto& r : rows) {
			auto f = v.find(r.piv);
			if (f == v.end()) continue;
			Fr p = r.v[r.piv];
			Fr k = mkFr((__int128)f->second.n * p.d, (__int128)f->second.d * p.n);
			if (k.big() || !addScaled(v, r.v, k) || !addScaled(combo, r.combo, k)) return {};
		}
		if (v.empty()) return combo;
		int piv = v.begin()->first;
		for (auto& x : v) if (x.first > 1 && std::abs(x.second.n) == x.second.d) piv = x.first;
		rows.push_back({v, combo, piv});
		return {};
	};
	// columns: 0 constant of A, 1 constant of B, then ids
	auto vec = [&](const Lin& a, const Lin& b) {
		FrVec v;
		if (a.k) v[0] = {a.k, 1};
		if (b.k) v[1] = {b.k, 1};
		for (auto& t : a.t) v[2 + 2 * t.id] = {t.c, 1};
		for (auto& t : b.t) v[3 + 2 * t.id] = {t.c, 1};
		return v;
	};
	vector<Lin> found;
	auto twoTerm = [&](const Lin& e) {
		for (int sg : {1, -1}) {
			Lin x = e.scaled(sg);
			int u = node(x.t[0].id, x.t[0].c > 0), v = node(x.t[1].id, x.t[1].c < 0);
			for (auto [p, q] : {std::make_pair(u, v), std::make_pair(v ^ 1, u ^ 1)}) {
				auto f = J.C.n.e.find({p, q});
				if (f == J.C.n.e.end() || f->second > -x.k) J.C.n.e.set(p, q, -x.k);
			}
		}
	};
	insert(FrVec{{0, {1, 1}}, {1, {1, 1}}}, -1);
	for (size_t i : sel) {
		auto& p = J.pairs[i];
		Lin a = apply(sa, p.a), b = apply(sb, p.b);
		if (std::abs(a.k) > 1000000 || std::abs(b.k) > 1000000) continue;
		FrVec c = insert(vec(a, b), i);

		if (c.empty()) continue;
		i64 l = 1;
		for (auto& x : c) l = l / std::__gcd(l, x.second.d) * x.second.d;
		Lin e;
		bool ok = true;
		for (auto& [k, x] : c) {
			i64 m = x.n * (l / x.d);
			if (k == -1) e.k += m;
			else {
				ok &= std::abs(m) <= 16; e = e.plus(Lin::var(J.pairs[k].c), m); }
		}
		e = Num::reduced(e);
		if (ok && e.t.size() == 1) continue;
		if (ok && e.t.size() == 2 && Num::storable(e)) {
			if (J.C.n.eq.size() < 24) J.C.n.eq.push_back(e);
			continue;
		}
		if (ok && e.t.size() == 2) twoTerm(e);
		if (ok && e.t.size() >= 3 && e.t.size() <= MAXT && J.C.n.eq.size() < 24) J.C.n.eq.push_back(e);
		if (ok && e.t.size() >= 3 && e.t.size() <= 8) found.push_back(e);
	}
	// shorter combinations
	for (size_t i = 0; i < found.size() && found.size() < 60; i++) for (size_t j = 0; j < i && found.size() < 60; j++) {
		const Lin a = found[i], b = found[j];
		for (auto& t : a.t) for (auto& u : b.t) {
			if (t.id != u.id || t.c % u.c) continue;
			Lin e = Num::reduced(a.plus(b, -(t.c / u.c)));
			if (e.t.size() == 2 && std::abs(e.t[0].c) == 1 && std::abs(e.t[1].c) == 1) { twoTerm(e); continue; }
			if (e.t.size() < 3 || e.t.size() >= std::max(a.t.size(), b.t.size()) || e.t.size() > MAXT) continue;
			if (e.t[0].c < 0) e = e.scaled(-1);
			bool dup = false;
			for (auto& f : found) dup |= f == e || f.scaled(-1) == e;
			if (dup || !Num::storable(e)) continue;
			found.push_back(e);
			if (J.C.n.eq.size() < 24) J.C.n.eq.push_back(e);
		}
	}
}
State joinStates(State A, State B, bool widen) {
	nJoins++;
	JoinCtx J(A, B);
	State& C = J.C;
	// frames
	for (size_t f = 0; f < A.fr.size(); f++) {
		Frame c;
		c.F = A.fr[f].F;
		c.ctx = A.fr[f].ctx;
		if (A.fr[f].v == B.fr[f].v && A.fr[f].has == B.fr[f].has) {
			c.v = A.fr[f].v;
			c.has = A.fr[f].has;
			for (size_t i = 0; i < c.v->size(); i++) if ((*c.has)[i]) markVal(J, (*c.v)[i]);
		} else {
			c.v = std::make_shared<vector<Val>>(A.fr[f].v->size());
			c.has = std::make_shared<vector<bool>>(A.fr[f].v->size(), false);
			for (size_t i = 0; i < c.v->size(); i++)
				if ((*A.fr[f].has)[i] && (*B.fr[f].has)[i]) {
					(*c.v)[i] = joinVal(J, (*A.fr[f].v)[i], (*B.fr[f].v)[i]);
					(*c.has)[i] = true;
				}
		}
		C.fr.push_back(c);
	}
	std::set<int> rs;
	for (auto& x : A.regs) rs.insert(x.first);
	for (auto& x : B.regs) rs.insert(x.first);
	for (int r : rs) {
		bool ia = A.regs.count(r), ib = B.regs.count(r);
		auto k = regions[r].kind;
		if ((!ia || !ib) && k != RegionInfo::Global && k != RegionInfo::Symbolic) { // allocated on one side only
			RS one = ia ? A.regs[r] : B.regs[r];
			one.weak = true; one.hasSize = false; one.def = Def::Any; one.cells = std::make_shared<Cells>();
			C.regs[r] = one;
			continue;
		}
		C.regs[r] = joinRS(J, r, ia, ib);
	}
	for (auto& [r, v] : A.nullness) { auto f = B.nullness.find(r); if (f != B.nullness.end() && f->second == v) C.nullness[r] = v; }
	for (auto& [r, v] : A.locks) { auto f = B.locks.find(r); if (f != B.locks.end()) C.locks[r] = std::min(v, f->second); }
	for (auto& [k, v] : A.cache) {
		auto f = B.cache.find(k);
		if (f == B.cache.end() || !valEq(v, f->second)) continue;
		bool ok = true;
		for (auto& t : k.second.t) if (!J.identity.count(t.id)) ok = false;
		if (!ok) continue;
		C.cache[k] = v;
		markVal(J, v);
	}
	C.tr = A.tr;
	C.excType = A.excType == B.excType ? A.excType : 0;
	C.excVal = joinVal(J, A.excVal, B.excVal);
	for (size_t i = 0; i < std::min(A.caught.size(), B.caught.size()); i++)
		C.caught.push_back({A.caught[i].first == B.caught[i].first ? A.caught[i].first : 0, joinVal(J, A.caught[i].second, B.caught[i].second)});
	// numeric part
	std::map<Id, size_t> pi;
	for (size_t i = 0; i < J.pairs.size(); i++) {
		auto& p = J.pairs[i];
		pi[p.c] = i;
		Iv a = A.n.range(p.a), b = B.n.range(p.b);
		Iv c{std::min(a.lo, b.lo), std::max(a.hi, b.hi)};
		if (widen) {
			if (c.lo < a.lo) c.lo = threshLo(c.lo);
			if (c.hi > a.hi) c.hi = threshHi(c.hi);
		}
		C.n.iv[p.c] = c;
		if (c.hi - c.lo >= 2 && c.hi < INF && c.lo > -INF) {
			Num::Set x, y, u;
			if (A.n.setOf(p.a, x) && B.n.setOf(p.b, y)) {
				std::set_union(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(u));
				if (u.size() <= Num::MAXSET && u.size() > 1 && u.back() - u.front() >= (i64)u.size()) {
					C.n.iv[p.c] = {u.front(), u.back()};
					C.n.vs[p.c] = u;
				}
			}
		}
	}
	DistCache da(A.n), db(B.n);
	auto involved = [&](const JoinCtx::P& p) {
		if (!(p.a == p.b)) return true;
		Id i = p.a.t[0].id;
		return da.hasEdges.count(node(i, 0)) || da.hasEdges.count(node(i, 1)) || db.hasEdges.count(node(i, 0)) || db.hasEdges.count(node(i, 1)) || !A.n.extra.empty() || !B.n.extra.empty();
	};
	vector<char> inv(J.pairs.size());
	for (size_t i = 0; i < J.pairs.size(); i++) inv[i] = involved(J.pairs[i]);
	for (size_t i = 0; i < J.pairs.size(); i++)
		for (size_t j = i + 1; j < J.pairs.size(); j++) {
			auto &p = J.pairs[i], &q = J.pairs[j];
			if (!inv[i] && !inv[j]) continue;
			bool bothId = p.a == p.b && q.a == q.b;
			if (bothId && (!inv[i] || !inv[j])) continue;
			for (int sp : {1, -1}) for (int sq : {1, -1}) {
				i64 viaIv = satAdd(C.n.ub(node(p.c, sp < 0)), C.n.ub(node(q.c, sq < 0)));
				i64 ua = da.up(p.a, sp, q.a, sq);
				if (ua >= INF || ua >= viaIv) continue;
				i64 ub = db.up(p.b, sp, q.b, sq);
				if (ub >= INF || ub >= viaIv) continue;
				i64 u = std::max(ua, ub);
				if (widen && ub > ua) continue;
				if (widen && widenLevel > 0) { // only what was there before; consequences could grow forever
					if (!p.a.isVar() || !q.a.isVar() || p.a.k || q.a.k) continue;
					auto f = A.n.e.find({node(p.a.t[0].id, sp > 0), node(q.a.t[0].id, sq < 0)});
					if (f == A.n.e.end()) continue;
				}
				int un = node(p.c, sp > 0), vn = node(q.c, sq < 0);
				auto add = [&](int x, int y) { auto f = C.n.e.find({x, y}); if (f == C.n.e.end() || f->second > u) C.n.e.set(x, y, u); };
				add(un, vn);
				add(vn ^ 1, un ^ 1);
			}
		}
	karr(J);
	if (getenv("KARR")) { errs() << "  widen " << widen << " level " << widenLevel << "\n"; for (auto& p : J.pairs) if (!(p.a == p.b)) errs() << "   v" << p.c << " in [" << C.n.get(p.c).lo << "," << C.n.get(p.c).hi << "] from [" << A.n.lower(p.a) << "," << A.n.upper(p.a) << "] [" << B.n.lower(p.b) << "," << B.n.upper(p.b) << "]\n"; for (auto& [uv, c] : C.n.e) { bool d = false; for (auto& p : J.pairs) if (!(p.a == p.b)) d |= p.c == uv.first / 2; if (d) errs() << "   edge " << (uv.second & 1 ? "-" : "+") << "v" << uv.second / 2 << (uv.first & 1 ? " +" : " -") << "v" << uv.first / 2 << " <= " << c << "\n"; } }
	// a place in an object plus a length stay within the size of the object: x + y <= size + c
	vector<Lin> sizes;
	for (auto& [r, R] : C.regs) if (R.hasSize && !R.size.isConst() && R.size.t.size() == 1 && R.size.t[0].c == 1) {
		bool dup = false;
		for (auto& z : sizes) dup |= z.t == R.size.t;
		if (!dup) sizes.push_back(Lin::var(R.size.t[0].id));
	}
	for (auto& z : sizes) {
		auto zi = pi.find(z.t[0].id);
		if (zi == pi.end()) continue;
		auto& zp = J.pairs[zi->second];
		vector<size_t> cand;
		for (size_t i = 0; i < J.pairs.size(); i++) {
			auto& p = J.pairs[i];
			if (i == zi->second || A.n.range(p.a).lo < -64 || B.n.range(p.b).lo < -64) continue;
			if (C.n.get(p.c).hi <= 1 && C.n.get(p.c).lo >= 0) continue;
			if (da.up(p.a, 1, zp.a, -1) <= 1 && db.up(p.b, 1, zp.b, -1) <= 1) cand.push_back(i);
		}
		if (cand.size() > 40) continue;
		for (size_t x = 0; x < cand.size(); x++) for (size_t y = x; y < cand.size(); y++) {
			auto &p = J.pairs[cand[x]], &q = J.pairs[cand[y]];
			if (p.a == p.b && q.a == q.b) continue; // carried below
			if (x == y) continue;
			i64 ua = A.n.upper(p.a.plus(q.a).minus(zp.a));
			if (ua > 1) continue;
			i64 ub = B.n.upper(p.b.plus(q.b).minus(zp.b));
			if (ub > 1) continue;
			i64 c = std::max(ua, ub);
			if (widen && ub > ua) { if (ub <= 0) c = 0; else if (ub <= 1) c = 1; }
			if (C.n.upper(Lin::var(p.c).plus(Lin::var(q.c)).minus(z)) <= c) continue;
			if (C.n.extra.size() < 24) C.n.extra.push_back(Lin::var(p.c).plus(Lin::var(q.c)).minus(z).minus(Lin(c)));
		}
	}
	// longer constraints that both sides imply
	auto carry = [&](State& X, State& Y, bool xIsA) {
		auto keep = [&](const Lin& c) {
			bool dup = false;
			for (auto& y : C.n.extra) dup |= y == c;
			if (!dup && C.n.extra.size() < 24) C.n.extra.push_back(c);
		};
		// the constraint in terms of the result (c) and of the other side (o)
		auto translate = [&](const Lin& l, Lin& c, Lin& o) {
			c = o = Lin(l.k);
			for (auto& t : l.t) {
				bool got = false;
				for (auto& p : J.pairs) {
					const Lin& px = xIsA ? p.a : p.b;
					if (px.isVar() && px.t[0].id == t.id) {
						c = c.plus(Lin::var(p.c).minus(Lin(px.k)).scaled(t.c));
						o = o.plus((xIsA ? p.b : p.a).minus(Lin(px.k)).scaled(t.c));
						got = true;
						break;
					}
				}
				if (!got) return false;
			}
			return true;
		};
		for (auto& l : X.n.extra) {
			Lin c, o;
			bool ok = translate(l, c, o);
			if (ok && c.t.size() >= 3 && Y.n.upper(o) <= 0) keep(c);
			if (ok && !widen && c.t.size() >= 2 && c.t.size() < MAXT) // a different constant on each side took part
				for (auto& p : J.pairs) {
					const Lin &px = xIsA ? p.a : p.b, &py = xIsA ? p.b : p.a;
					if (!px.isConst() || !py.isConst() || px.k == py.k || C.n.get(p.c).hi > 64 || C.n.get(p.c).lo < -64) continue;
					Lin c2 = c.plus(Lin::var(p.c)).minus(Lin(px.k)), o2 = o.plus(py).minus(Lin(px.k));
					if (c2.t.size() >= 3 && c2.t.size() <= MAXT && Y.n.upper(o2) <= 0 && C.n.upper(c2) > 0) keep(c2);
				}
			if (!widen && l.t.size() >= 4) // a sum that became one value took part
				for (auto& p : J.pairs) {
					const Lin &px = xIsA ? p.a : p.b, &py = xIsA ? p.b : p.a;
					if (px.t.size() != 2) continue;
					for (int sign : {1, -1}) {
						Lin rest = l.minus(px.scaled(sign)), c3, o3;
						if (rest.t.size() + 2 != l.t.size() || !translate(rest, c3, o3)) continue;
						c3 = c3.plus(Lin::var(p.c).scaled(sign));
						o3 = o3.plus(py.scaled(sign));
						if (c3.t.size() >= 3 && c3.t.size() <= MAXT && Y.n.upper(o3) <= 0 && C.n.upper(c3) > 0) keep(c3);
					}
				}
		}
	};
	carry(A, B, true);
	if (!widen) carry(B, A, false);
	// a value that is a sum on one side may be bounded by that sum on the other side (minima and maxima)
	auto bounded = [&](State& X, State& Y, bool xIsA) {
		for (auto& p : J.pairs) {
			const Lin &px = xIsA ? p.a : p.b, &py = xIsA ? p.b : p.a;
			if (px.t.size() < 2 || px.t.size() > 2 || py == px || C.n.extra.size() >= 20) continue;
			Lin c(px.k), o(px.k);
			bool ok = true;
			for (auto& t : px.t) {
				bool got = false;
				for (auto& q : J.pairs) {
					const Lin& qx = xIsA ? q.a : q.b;
					if (!qx.isVar() || qx.t[0].id != t.id) continue;
					c = c.plus(Lin::var(q.c).minus(Lin(qx.k)).scaled(t.c));
					o = o.plus((xIsA ? q.b : q.a).minus(Lin(qx.k)).scaled(t.c));
					got = true;
					break;
				}
				if (!got) { ok = false; break; }
			}
			if (!ok) continue;
			for (int sign : {1, -1}) {
				Lin d = Lin::var(p.c).minus(c).scaled(sign), e = py.minus(o).scaled(sign);
				if (d.t.size() >= 3 && d.t.size() <= MAXT && Y.n.upper(e) <= 0 && C.n.upper(d) > 0) C.n.extra.push_back(d);
			}
		}
	};
	if (!widen) { bounded(A, B, true); bounded(B, A, false); }
	// values that are surely equal become one
	bool shaped = false;
	for (auto& w : watched) shaped |= w.pointers;
	if (shaped) for (auto& p : J.pairs) {
		if (p.a == p.b) continue;
		if (Iv v = C.n.get(p.c); v.lo == v.hi) {
			substitute(C, p.c, Lin(v.lo));
			continue;
		}
		int n = node(p.c, false);
		for (auto it = C.n.e.lower_bound({n, INT32_MIN}); it != C.n.e.end() && it->first.first == n; ++it) {
			int v = it->first.second;
			if (v / 2 >= p.c) continue;
			auto back = C.n.e.find({v, n});
			if (back == C.n.e.end() || back->second != -it->second) continue;
			substitute(C, p.c, Lin::var(v / 2).scaled(v & 1 ? -1 : 1).minus(Lin(it->second)));
			break;
		}
	}
	return std::move(J.C);
}

// ---- inclusion B <= A
string whyWhat;
int whyNot = 0; // where inclusion failed last, for diagnosis
bool no(int line) { whyNot = line; return false; }
struct LeqCtx {
	State &A, &B;
	std::map<Id, Lin> sigma;
	std::map<Id, Id> bsigma;
	vector<std::pair<Lin, Lin>> later;
	LeqCtx(State& a, State& b) : A(a), B(b) {}
};
bool leqLin(LeqCtx& L, const Lin& a, const Lin& b) {
	if (a.isConst()) return b.isConst() ? a.k == b.k : L.B.n.upper(b) <= a.k && L.B.n.lower(b) >= a.k;
	if (a.isVar()) {
		Lin want = b.minus(Lin(a.k));
		auto f = L.sigma.find(a.t[0].id);
		if (f == L.sigma.end()) { L.sigma[a.t[0].id] = want; return true; }
		return f->second == want || (L.B.n.upper(f->second.minus(want)) <= 0 && L.B.n.lower(f->second.minus(want)) >= 0);
	}
	L.later.push_back({a, b});
	return true;
}
bool leqByte(LeqCtx& L, Id a, Id b) {
	auto f = L.bsigma.find(a);
	if (f != L.bsigma.end()) return f->second == b;
	L.bsigma[a] = b;
	auto fa = L.A.n.bytes.find(a), fb = L.B.n.bytes.find(b);
	if (fa == L.A.n.bytes.end() || fa->second.all()) return true;
	if (fb == L.B.n.bytes.end()) return no(__LINE__);
	return (fb->second & ~fa->second).none();
}
bool leqBX(LeqCtx& L, const BXP& a, const BXP& b) {
	if (a == b && !a) return true;
	if (!a || !b || a->op != b->op || a->region != b->region || a->op == BX::UNK) return no(__LINE__);
	if (a->tab != b->tab && !(a->tab && b->tab && *a->tab == *b->tab)) return no(__LINE__);
	if ((a->op == BX::CMP_LE || a->op == BX::CMP_EQ) && !leqLin(L, a->a, b->a)) return no(__LINE__);
	if (a->byte && !leqByte(L, a->byte, b->byte)) return no(__LINE__);
	return ((!a->l && !b->l) || leqBX(L, a->l, b->l)) && ((!a->r && !b->r) || leqBX(L, a->r, b->r));
}
bool leqVal(LeqCtx& L, const Val& a, const Val& b) {
	if (a.k == Val::Top) return true;
	if (a.k == Val::Int && (b.k == Val::Bool || b.k == Val::Byte)) {
		Lin lb = asLin(L.B, b, Type::getInt64Ty(M.getContext()));
		return leqLin(L, a.l, lb);
	}
	if (a.k != b.k) {
		return no(__LINE__);
	}
	switch (a.k) {
	case Val::Int: return leqLin(L, a.l, b.l);
	case Val::Ptr:
		if (a.r && b.r == 0) return a.mn;
		if (a.r != b.r || (b.mn && !a.mn)) return no(__LINE__);
		if (a.sLo != NOSUB && (b.sLo == NOSUB || b.sLo < a.sLo || b.sHi > a.sHi)) return no(__LINE__);
		if (a.sLo == NOSUB && b.sLo != NOSUB) {}
		return leqLin(L, a.l, b.l);
	case Val::Fn: return a.f == b.f;
	case Val::Agg:
		if (a.a == b.a && a.a->empty()) return true;
		if (a.a->size() != b.a->size()) return no(__LINE__);
		for (size_t i = 0; i < a.a->size(); i++) if (!leqVal(L, (*a.a)[i], (*b.a)[i])) return no(__LINE__);
		return true;
	case Val::Byte:
		if (a.slice() && !(b.slice() && a.sLo == b.sLo && a.sHi == b.sHi && leqLin(L, a.l, b.l))) return no(__LINE__);
		return (a.t == b.t || *a.t == *b.t) && leqByte(L, a.b, b.b);
	case Val::Bool: return leqBX(L, a.x, b.x);
	default: return true;
	}
}
bool leq(State& B, State& A) {
	LeqCtx L(A, B);
	for (size_t f = 0; f < A.fr.size(); f++)
		for (size_t i = 0; i < A.fr[f].v->size(); i++)
			if ((*A.fr[f].has)[i]) {
				if (!(*B.fr[f].has)[i]) return no(__LINE__);
				if (!leqVal(L, (*A.fr[f].v)[i], (*B.fr[f].v)[i])) { whyWhat = "value " + std::to_string(i) + " of " + (A.fr[f].F ? fi(A.fr[f].F).dem : "?") + ": kinds " + std::to_string((*A.fr[f].v)[i].k) + " " + std::to_string((*B.fr[f].v)[i].k) + " regions " + std::to_string((*A.fr[f].v)[i].r) + " " + std::to_string((*B.fr[f].v)[i].r) + " " + (*A.fr[f].v)[i].l.str() + " : " + (*B.fr[f].v)[i].l.str(); return false; }
			}
	for (auto& [r, a0] : A.regs) {
		auto k = regions[r].kind;
		if (!B.regs.count(r) && k != RegionInfo::Global && k != RegionInfo::Symbolic) { if (a0.weak) continue; return no(__LINE__); }
		RS& b = ensure(B, r);
		const RS& a = a0;
		if (a.weak) continue;
		if (b.weak) return no(__LINE__);
		if (a.freed != b.freed) return no(__LINE__);
		if (a.hasSize) { if (!b.hasSize || !leqLin(L, a.size, b.size)) return no(__LINE__); }
		if (a.def != b.def && a.def != Def::Any && !(a.def == Def::Uninit)) return no(__LINE__);
		bool dm = a.def == Def::Const || a.def == Def::Zero || a.def == Def::Lazy;
		for (auto& [o, ca] : *a.cells) {
			if (ca.v.k == Val::Top) continue;
			auto f = b.cells->find(o);
			if (f == b.cells->end()) {
				if ((b.def == Def::Const || b.def == Def::Zero || b.def == Def::Lazy) && ca.size <= 8) {
					Type* T = ca.v.k == Val::Ptr || ca.v.k == Val::Fn ? (Type*)PointerType::get(M.getContext(), 0) : (Type*)Type::getIntNTy(M.getContext(), ca.size * 8);
					if (!leqVal(L, ca.v, defaultVal(B, r, o, T))) return no(__LINE__);
					continue;
				}
				// A's cell may be an unconstrained value
				return no(__LINE__);
			}
			if (f->second.size != ca.size || !leqVal(L, ca.v, f->second.v)) { whyWhat = "cell " + std::to_string(o) + " of " + regions[r].name + ": " + ca.v.l.str() + " : " + f->second.v.l.str() + " regions " + std::to_string(ca.v.r) + " " + std::to_string(f->second.v.r); return no(__LINE__); }
		}
		if (dm) for (auto& [o, cb] : *b.cells) {
			if (a.cells->count(o)) continue;
			if (a.def == Def::Lazy || cb.size > 8) return no(__LINE__);
			Type* T = cb.v.k == Val::Ptr || cb.v.k == Val::Fn ? (Type*)PointerType::get(M.getContext(), 0) : (Type*)Type::getIntNTy(M.getContext(), cb.size * 8);
			if (!leqVal(L, defaultVal(A, r, o, T), cb.v)) return no(__LINE__);
		}
	}
	for (auto& [r, R] : B.regs) if (!A.regs.count(r)) {
		auto k = regions[r].kind;
		if (k == RegionInfo::Global && !regions[r].gv->isConstant() && !R.cells->empty()) return no(__LINE__);
	}
	if (A.locks != B.locks) return no(__LINE__);
	for (auto& [r, v] : A.nullness) { auto f = B.nullness.find(r); if (f == B.nullness.end() || f->second != v) return no(__LINE__); }
	for (auto& [k, v] : A.cache) {
		auto f = B.cache.find(k);
		if (f == B.cache.end() || !leqVal(L, v, f->second)) return no(__LINE__);
	}
	auto sub = [&](const Lin& l, Lin& out) {
		out = Lin(l.k);
		for (auto& t : l.t) {
			auto f = L.sigma.find(t.id);
			if (f == L.sigma.end()) return no(__LINE__);
			out = out.plus(f->second.scaled(t.c));
		}
		return true;
	};
	for (auto& [a, b] : L.later) { // ids that appear only inside longer expressions get the meaning that makes these equal
		vector<Term> unbound;
		for (auto& t : a.t) if (!L.sigma.count(t.id)) unbound.push_back(t);
		for (size_t i = 0; i < unbound.size(); i++) {
			auto& t = unbound[i];
			if (i + 1 < unbound.size() || std::abs(t.c) != 1) { L.sigma[t.id] = Lin::var(t.id); continue; }
			Lin rest(a.k);
			for (auto& o : a.t) if (o.id != t.id) rest = rest.plus(L.sigma[o.id].scaled(o.c));
			L.sigma[t.id] = b.minus(rest).scaled(t.c);
		}
		Lin x;
		if (!sub(a, x)) return no(__LINE__);
		Lin d = x.minus(b);
		if (!(x == b) && !(L.B.n.upper(d) <= 0 && L.B.n.lower(d) >= 0)) return no(__LINE__);
	}
	for (auto& [id, l] : L.sigma) {
		Iv a = A.n.get(id);
		if ((a.hi < INF && B.n.upper(l) > a.hi) || (a.lo > -INF && B.n.lower(l) < a.lo)) {
			whyWhat = "range [" + std::to_string(a.lo) + "," + std::to_string(a.hi) + "] of v" + std::to_string(id) + " against " + l.str() + " in [" + std::to_string(B.n.lower(l)) + "," + std::to_string(B.n.upper(l)) + "]";
			return no(__LINE__);
		}
	}
	for (auto& [id, set] : A.n.vs) {
		auto f = L.sigma.find(id);
		if (f == L.sigma.end()) continue;
		Num::Set x;
		if (!B.n.setOf(f->second, x) || !std::includes(set.begin(), set.end(), x.begin(), x.end())) return no(__LINE__);
	}
	for (auto& [uv, c] : A.n.e) {
		auto [u, v] = uv;
		Id iu = u / 2, iv = v / 2;
		auto fu = L.sigma.find(iu), fv = L.sigma.find(iv);
		if (fu == L.sigma.end() || fv == L.sigma.end()) continue; // dead ids
		Lin d = fv->second.scaled(v & 1 ? -1 : 1).minus(fu->second.scaled(u & 1 ? -1 : 1));
		if (B.n.upper(d) > c) { whyWhat = "relation v" + std::to_string(iv) + (v & 1 ? "-" : "+") + " v" + std::to_string(iu) + (u & 1 ? "-" : "+") + " <= " + std::to_string(c) + " against " + d.str(); return no(__LINE__); }
	}
	for (auto& x : A.n.eq) {
		Lin o;
		if (!sub(x, o)) continue;
		if (B.n.upper(o) > 0 || B.n.lower(o) < 0) { whyWhat = "equality " + x.str() + " against " + o.str(); return no(__LINE__); }
	}
	for (auto& x : A.n.extra) {
		Lin o;
		if (!sub(x, o)) continue;
		if (B.n.upper(o) > 0) return no(__LINE__);
	}
	return true;
}
