// Numeric part of the abstract state: linear expressions over value ids, bounded by intervals, an octagon kept as a
// sparse graph of two-variable constraints, and a short list of longer linear constraints. Ids hold mathematical integers.
#pragma once
#include <algorithm>
#include <array>
#include <bitset>
#include <cstdint>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <llvm/ADT/SmallVector.h>
#include <unordered_map>
#include <vector>

using i64 = int64_t;
using Id = int;
constexpr i64 INF = INT64_MAX / 8;
constexpr int MAXT = 5;

inline i64 clampI(__int128 v) {
	if (v >= INF) return INF;
	if (v <= -INF) return -INF;
	return (i64)v;
}
inline i64 satAdd(i64 a, i64 b) {
	if (a >= INF || b >= INF) return INF;
	if (a <= -INF || b <= -INF) return -INF;
	return clampI((__int128)a + b);
}

struct Term {
	Id id;
	i64 c;
	bool operator==(const Term& o) const { return id == o.id && c == o.c; }
	bool operator<(const Term& o) const { return id != o.id ? id < o.id : c < o.c; }
};

using Terms = llvm::SmallVector<Term, 4>;
struct Lin {
	i64 k = 0;
	Terms t; // sorted by id, at most MAXT
	Lin() = default;
	Lin(i64 k) : k(k) {}
	static Lin var(Id id) { Lin l; l.t.push_back({id, 1}); return l; }
	bool isConst() const { return t.empty(); }
	bool operator==(const Lin& o) const { return k == o.k && t == o.t; }
	bool operator!=(const Lin& o) const { return !(*this == o); }
	bool operator<(const Lin& o) const { return k != o.k ? k < o.k : t < o.t; }
	bool isVar() const { return t.size() == 1 && t[0].c == 1; }
	Lin scaled(i64 s) const {
		Lin r;
		if (!s) return r;
		r.k = clampI((__int128)k * s);
		for (auto& x : t) r.t.push_back({x.id, x.c * s});
		return r;
	}
	Lin plus(const Lin& o, i64 s = 1) const {
		Lin r;
		r.k = clampI((__int128)k + (__int128)o.k * s);
		size_t i = 0, j = 0;
		while (i < t.size() || j < o.t.size()) {
			if (j >= o.t.size() || (i < t.size() && t[i].id < o.t[j].id)) r.t.push_back(t[i++]);
			else if (i >= t.size() || o.t[j].id < t[i].id) { r.t.push_back({o.t[j].id, o.t[j].c * s}); j++; }
			else {
				i64 c = t[i].c + o.t[j].c * s;
				if (c) r.t.push_back({t[i].id, c});
				i++; j++;
			}
		}
		return r;
	}
	Lin minus(const Lin& o) const { return plus(o, -1); }
	std::string str() const {
		std::string s;
		for (auto& x : t) {
			if (!s.empty() || x.c < 0) s += x.c < 0 ? "-" : "+";
			if (x.c != 1 && x.c != -1) s += std::to_string(x.c < 0 ? -x.c : x.c) + "*";
			s += "v" + std::to_string(x.id);
		}
		if (k || s.empty()) s += (k >= 0 && !s.empty() ? "+" : "") + std::to_string(k);
		return s;
	}
};

struct Iv { i64 lo = -INF, hi = INF; };

inline int node(Id id, bool neg) { return id * 2 + neg; }

using Row = std::vector<std::pair<int, i64>>; // distances from one node, sorted
struct Edges { // (u, v) -> c means value(v) - value(u) <= c
	using Map = std::map<std::pair<int, int>, i64>;
	using Memo = std::unordered_map<int, Row>;
	Map m;
	mutable std::shared_ptr<Memo> memo; // shortest paths, shared by copies until changed
	Map::const_iterator begin() const { return m.begin(); }
	Map::const_iterator end() const { return m.end(); }
	Map::const_iterator find(std::pair<int, int> k) const { return m.find(k); }
	Map::const_iterator lower_bound(std::pair<int, int> k) const { return m.lower_bound(k); }
	bool empty() const { return m.empty(); }
	size_t size() const { return m.size(); }
	void set(int u, int v, i64 c) { m[{u, v}] = c; memo.reset(); }
	void erase(int u, int v) { if (m.erase({u, v})) memo.reset(); }
	const Row& row(int u) const {
		if (!memo) memo = std::make_shared<Memo>();
		auto f = memo->find(u);
		if (f != memo->end()) return f->second;
		std::unordered_map<int, i64> d;
		d[u] = 0;
		std::deque<int> q{u};
		int steps = 0;
		while (!q.empty() && steps++ < 20000) {
			int x = q.front();
			q.pop_front();
			i64 dx = d[x];
			for (auto it = m.lower_bound({x, INT32_MIN}); it != m.end() && it->first.first == x; ++it) {
				i64 nd = satAdd(dx, it->second);
				auto [f, isNew] = d.try_emplace(it->first.second, nd);
				if (isNew || nd < f->second) {
					f->second = nd;
					q.push_back(it->first.second);
				}
			}
		}
		Row r(d.begin(), d.end());
		std::sort(r.begin(), r.end());
		return (*memo)[u] = std::move(r);
	}
};

struct Num {
	std::map<Id, Iv> iv;
	Edges e;
	struct UnaryMemo { std::shared_ptr<Edges::Memo> of; std::unordered_map<int, i64> m; };
	mutable std::shared_ptr<UnaryMemo> um;
	std::vector<Lin> extra;               // each <= 0
	std::vector<Lin> eq;                  // each == 0, three or more terms
	std::map<Id, std::bitset<256>> bytes; // possible bit patterns of a byte id
	using Set = std::vector<i64>;         // sorted
	static constexpr size_t MAXSET = 8;
	std::map<Id, Set> vs;                 // the only values an id can have, where these are few and scattered
	bool bottom = false;

	Iv get(Id i) const { auto f = iv.find(i); return f == iv.end() ? Iv{} : f->second; }
	i64 ub(int n) const { Iv v = get(n / 2); return (n & 1) ? (v.lo <= -INF ? INF : -v.lo) : v.hi; }

	void setUb(int n, i64 b) { // value(n) <= b
		Iv v = get(n / 2);
		if (n & 1) v.lo = std::max(v.lo, -b);
		else v.hi = std::min(v.hi, b);
		auto f = vs.find(n / 2);
		if (f != vs.end()) {
			Set r;
			for (i64 x : f->second) if (x >= v.lo && x <= v.hi) r.push_back(x);
			if (r.empty()) bottom = true;
			else { v.lo = r.front(); v.hi = r.back(); }
			if (r.size() <= 1) vs.erase(f);
			else f->second = r;
		}
		iv[n / 2] = v;
		um.reset();
		if (v.lo > v.hi) bottom = true;
	}
	bool setOf(const Lin& l, Set& out) const { // all values l can have, if they are few
		out.clear();
		if (l.isConst()) { out.push_back(l.k); return true; }
		if (l.t.size() != 1) return false;
		auto f = vs.find(l.t[0].id);
		if (f != vs.end()) {
			for (i64 x : f->second) out.push_back(clampI((__int128)x * l.t[0].c + l.k));
		} else {
			Iv v = get(l.t[0].id);
			if (v.lo <= -INF || v.hi >= INF || v.hi - v.lo >= (i64)MAXSET) return false;
			for (i64 x = v.lo; x <= v.hi; x++) out.push_back(clampI((__int128)x * l.t[0].c + l.k));
		}
		std::sort(out.begin(), out.end());
		return true;
	}
	bool canBeZero(const Lin& l) const {
		if (l.t.size() != 1) return true;
		auto f = vs.find(l.t[0].id);
		if (f == vs.end()) return true;
		for (i64 x : f->second) if ((__int128)x * l.t[0].c + l.k == 0) return true;
		return false;
	}
	void notZero(const Lin& l) { // drop a value from a set
		if (l.t.size() != 1) return;
		auto f = vs.find(l.t[0].id);
		Set r;
		if (f == vs.end()) {
			Set a;
			if (!setOf(Lin::var(l.t[0].id), a) || a.size() < 3) return;
			for (i64 x : a) if ((__int128)x * l.t[0].c + l.k != 0) r.push_back(x);
			if (r.size() < a.size() && r.size() > 1 && r.back() - r.front() >= (i64)r.size()) vs[l.t[0].id] = r;
			return;
		}
		for (i64 x : f->second) if ((__int128)x * l.t[0].c + l.k != 0) r.push_back(x);
		if (r.empty()) { bottom = true; return; }
		Id i = l.t[0].id;
		i64 lo = r.front(), hi = r.back();
		f->second = r;
		setUb(node(i, false), hi);
		setUb(node(i, true), -lo);
		propagate({i});
	}

	// shortest path from u; fills map of distances
	void sssp(int u, std::map<int, i64>& d) const { for (auto& [v, c] : e.row(u)) d[v] = c; }
	// upper bound of value(v) - value(u)
	i64 dist(int u, int v) const {
		if (u == v) return 0;
		i64 b = satAdd(ub(v), ub(u ^ 1));
		auto first = e.lower_bound({u, INT32_MIN});
		if (first == e.end() || first->first.first != u) return b;
		const Row& d = e.row(u);
		auto f = std::lower_bound(d.begin(), d.end(), std::make_pair(v, INT64_MIN));
		if (f != d.end() && f->first == v) b = std::min(b, f->second);
		// via -x: value(v) - value(u) where the path passes through the unary bound of an intermediate node
		i64 uv = ub(v);
		if (uv < INF) {
			if (!um || um->of != e.memo) { um = std::make_shared<UnaryMemo>(); um->of = e.memo; }
			auto g = um->m.find(u);
			if (g == um->m.end()) {
				i64 best = INF;
				for (auto& [n, dn] : d) if (n != u) {
					i64 x = ub(n ^ 1);
					if (x < INF) best = std::min(best, satAdd(dn, x));
				}
				g = um->m.emplace(u, best).first;
			}
			b = std::min(b, satAdd(g->second, uv));
		}
		return b;
	}
	i64 upperT(const Terms& t) const {
		if (t.empty()) return 0;
		auto ivUp = [&](const Term& x) -> i64 {
			Iv v = get(x.id);
			i64 b = x.c > 0 ? v.hi : v.lo;
			if (b >= INF || b <= -INF) return INF;
			return clampI((__int128)b * x.c);
		};
		if (t.size() == 1) return ivUp(t[0]);
		i64 best = INF;
		// pair the first term with each other one
		const Term& a = t[0];
		{
			i64 s = ivUp(a);
			if (s < INF) {
				Terms rest(t.begin() + 1, t.end());
				best = satAdd(s, upperT(rest));
			}
		}
		for (size_t j = 1; j < t.size(); j++) {
			const Term& b = t[j];
			i64 m = std::min(std::abs(a.c), std::abs(b.c));
			// m * (sa*a + sb*b) + remainder
			i64 d = dist(node(a.id, a.c > 0), node(b.id, b.c < 0)); // value(b side) - value(-a side) = sa*a + sb*b
			if (d >= INF) continue;
			Terms rest;
			for (size_t x = 0; x < t.size(); x++) {
				Term y = t[x];
				if (x == 0 || x == j) y.c -= (y.c > 0 ? m : -m);
				if (y.c) rest.push_back(y);
			}
			best = std::min(best, satAdd(clampI((__int128)d * m), upperT(rest)));
		}
		return best;
	}
	i64 upper(const Lin& l, int depth = 0, int eqDepth = 0) const {
		i64 b = upperT(l.t);
		if (b < INF) b = satAdd(b, l.k);
		if (depth < 1)
			for (auto& x : extra) {
				int shared = 0; // only a constraint that cancels something out can help
				size_t xi = 0;
				for (auto& y : l.t) {
					while (xi < x.t.size() && x.t[xi].id < y.id) xi++;
					if (xi < x.t.size() && x.t[xi].id == y.id && x.t[xi].c == y.c) shared++;
				}
				if (!shared) continue;
				Lin r = l.minus(x);
				if (r.t.size() < std::max<size_t>(l.t.size(), 2) || r.t.size() < x.t.size() || r.t.size() <= 2)
					b = std::min(b, upper(r, depth + 1, eqDepth + 1));
				else if (r.t.size() <= 4 && r.t.size() < l.t.size() + x.t.size()) { // something cancelled out
					i64 u = upperT(r.t);
					if (u < INF) b = std::min(b, satAdd(u, r.k));
					for (auto& q : eq) { // it may be known exactly
						if (q.t.size() != r.t.size()) continue;
						if (q.t == r.t) b = std::min(b, r.k - q.k);
						else if (q.scaled(-1).t == r.t) b = std::min(b, r.k + q.k);
					}
					for (auto& q : extra) if (q.t == r.t) b = std::min(b, r.k - q.k);
				}
			}
		if (eqDepth < 2)
			for (auto& x : eq)
				for (auto& t : l.t) {
					i64 xc = 0;
					for (auto& y : x.t) if (y.id == t.id) xc = y.c;
					if (!xc || t.c % xc) continue;
					Lin r = l.plus(x, -(t.c / xc));
					if (r.t.size() <= std::max<size_t>(l.t.size() + (eqDepth ? 0 : 1), 3) && r.t.size() <= 4)
						b = std::min(b, upper(r, depth + 1, eqDepth + 1));
				}
		return b;
	}
	i64 lower(const Lin& l) const {
		i64 u = upper(l.scaled(-1));
		return u >= INF ? -INF : u <= -INF ? INF : -u;
	}
	Iv range(const Lin& l) const { return {lower(l), upper(l)}; }

	void propagate(std::vector<Id> work) {
		int steps = 0;
		while (!work.empty() && !bottom && steps++ < 400) {
			Id x = work.back();
			work.pop_back();
			for (int n : {node(x, false), node(x, true)}) {
				i64 b = ub(n);
				if (b >= INF) continue;
				for (auto it = e.lower_bound({n, INT32_MIN}); it != e.end() && it->first.first == n; ++it) {
					i64 nb = satAdd(b, it->second);
					if (nb < ub(it->first.second)) {
						setUb(it->first.second, nb);
						work.push_back(it->first.second / 2);
					}
				}
			}
			for (int pass = 0; pass < 3; pass++) for (auto& x3 : pass ? eq : extra) {
				Lin x2 = pass == 2 ? x3.scaled(-1) : x3;
				bool has = false;
				for (auto& t : x2.t) has |= t.id == x;
				if (!has) continue;
				for (auto& t : x2.t) { // c*t <= -(rest) ; upper bound from rest's lower bound
					if (t.id == x) continue;
					i64 restLow = x2.k;
					bool ok = true;
					for (auto& r : x2.t) if (r.id != t.id) {
						Iv v = get(r.id);
						i64 b = r.c > 0 ? v.lo : v.hi;
						if (b <= -INF || b >= INF) { ok = false; break; }
						restLow = clampI((__int128)restLow + (__int128)b * r.c);
					}
					if (!ok) continue;
					int n = node(t.id, t.c < 0);
					i64 m = std::abs(t.c), b = -restLow;
					b = b >= 0 ? b / m : -((-b + m - 1) / m);
					if (b < ub(n)) { setUb(n, b); work.push_back(t.id); }
				}
			}
		}
	}
	void addEdge(int u, int v, i64 c) {
		auto f = e.find({u, v});
		if (f != e.end() && f->second <= c) return;
		if (satAdd(dist(v, u), c) < 0) { bottom = true; return; }
		e.set(u, v, c);
		e.set(v ^ 1, u ^ 1, c);
	}
	// l <= 0
	bool assumeLe0(const Lin& l0) {
		if (bottom) return false;
		Lin l = l0;
		if (l.isConst()) { if (l.k > 0) bottom = true; return !bottom; }
		if (lower(l) > 0) { bottom = true; return false; }
		if (upper(l) <= 0) return true;
		i64 g = 0;
		for (auto& x : l.t) g = std::__gcd(g, std::abs(x.c));
		if (g > 1) {
			i64 q = l.k >= 0 ? (l.k + g - 1) / g : -((-l.k) / g);
			for (auto& x : l.t) x.c /= g;
			l.k = q;
		}
		std::vector<Id> touched;
		if (l.t.size() == 1 && std::abs(l.t[0].c) == 1) {
			setUb(node(l.t[0].id, l.t[0].c < 0), -l.k);
		} else if (l.t.size() == 2 && std::abs(l.t[0].c) == 1 && std::abs(l.t[1].c) == 1) {
			addEdge(node(l.t[0].id, l.t[0].c > 0), node(l.t[1].id, l.t[1].c < 0), -l.k);
		} else if (l.t.size() <= MAXT && extra.size() < 24) {
			extra.push_back(l);
		}
		for (auto& x : l.t) touched.push_back(x.id);
		propagate(touched);
		return !bottom;
	}
	static Lin reduced(Lin l) {
		i64 g = std::abs(l.k);
		for (auto& x : l.t) g = std::__gcd(g, std::abs(x.c));
		if (g > 1) {
			for (auto& x : l.t) x.c /= g;
			l.k /= g;
		}
		return l;
	}
	static bool storable(const Lin& l) { // as an equality
		for (auto& x : l.t) if (std::abs(x.c) > 16) return false;
		if (l.t.size() == 2) return std::abs(l.t[0].c) != 1 || std::abs(l.t[1].c) != 1;
		return l.t.size() >= 3 && l.t.size() <= MAXT + 1;
	}
	bool assumeEq0(const Lin& l0) {
		Lin l = reduced(l0);
		if (storable(l) && eq.size() < 24) {
			if (bottom || lower(l) > 0 || upper(l) < 0) { bottom = true; return false; }
			if (upper(l) <= 0 && lower(l) >= 0) return true;
			eq.push_back(l);
			std::vector<Id> touched;
			for (auto& x : l.t) touched.push_back(x.id);
			propagate(touched);
			return !bottom;
		}
		return assumeLe0(l) && assumeLe0(l.scaled(-1));
	}
	bool provesLe0(const Lin& l) const { return upper(l) <= 0; }
};
