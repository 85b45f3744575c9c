// locks and memory shared by threads (part of class Engine)
using LockSet = std::map<std::pair<int, i64>, int>;
std::map<LockSet, int> lockIds; // empty until a scenario asks for the analysis of locks
struct Shared { int r; i64 from, to; };
struct Guard { int r; i64 from, to; std::pair<int, i64> lock; };
vector<Shared> shared;
vector<Guard> guards;
std::map<std::pair<int, i64>, int> deepKey;
struct Access { bool write, atomic; LockSet locks; string loc, fn, stack; };
std::map<std::pair<int, i64>, vector<Access>> accesses; // by region and byte

void lockIntrinsic(State& s, const CallBase* I, StringRef n, vector<Val>& args) {
	if (lockIds.empty()) lockIds[{}] = 0;
	if (n == "sa_unlocked") {
		oblige(s, I, "lock", s.locks.empty(), "a lock may still be held when the call is over");
		s.locks.clear();
		return;
	}
	if (args[0].k != Val::Ptr || !args[0].r || !args[0].l.isConst() || !args[1].l.isConst()) return;
	i64 from = args[0].l.k, to = from + args[1].l.k;
	if (n == "sa_shared") {
		for (auto& x : shared) if (x.r == args[0].r && x.from == from) return;
		shared.push_back({args[0].r, from, to});
	} else {
		if (args[2].k != Val::Ptr || !args[2].l.isConst()) return;
		for (auto& x : guards) if (x.r == args[0].r && x.from == from) return;
		guards.push_back({args[0].r, from, to, {args[2].r, args[2].l.k}});
	}
}
bool globalShared(const State& s, int r) { // variables of the library itself; what initialises local static variables is protected
	auto& i = regions[r];
	if (i.kind != RegionInfo::Global || !i.gv || i.gv->isConstant() || i.gv->isThreadLocal() || i.gv->getName().starts_with("_ZGV")) return false;
	return i.gv->getName().contains("5Bomba") && !s.locks.count({-1, 0});
}
bool modelLock(State& s, const CallBase* I, StringRef n, vector<Val>& args) {
	bool rd = n == "pthread_rwlock_rdlock", un = n == "pthread_mutex_unlock" || n == "pthread_rwlock_unlock";
	if (!rd && !un && n != "pthread_mutex_lock" && n != "pthread_rwlock_wrlock") return false;
	if (args[0].k != Val::Ptr || !args[0].l.isConst() || lockIds.empty()) return true;
	std::pair<int, i64> k{args[0].r, args[0].l.k};
	if (regions[k.first].deep || ensure(s, k.first).weak) return true;
	auto f = s.locks.find(k);
	if (un) {
		oblige(s, I, "lock", f != s.locks.end(), "releases a lock that is not held");
		if (f != s.locks.end()) s.locks.erase(f);
		return true;
	}
	oblige(s, I, "lock", f == s.locks.end(), "waits for a lock this thread already holds");
	s.locks[k] = rd && f == s.locks.end() ? 1 : 2;
	return true;
}
int deepRegion(int from, i64 off) {
	auto& k = deepKey[{from, off}];
	if (!k) {
		RegionInfo i{RegionInfo::Symbolic, "what is reachable from byte " + std::to_string(off) + " of " + regions[from].name};
		i.deep = true;
		i.mayNull = true;
		regions.push_back(i);
		k = regions.size() - 1;
	}
	return k;
}
std::map<std::set<int>, int> deepUnions;
int deepUnion(int a, int b) { // what is reachable in either way
	std::set<int> of;
	for (int r : {a, b}) {
		if (regions[r].deepOf.empty()) of.insert(r);
		else of.insert(regions[r].deepOf.begin(), regions[r].deepOf.end());
	}
	auto& k = deepUnions[of];
	if (!k) {
		RegionInfo i{RegionInfo::Symbolic, regions[a].name + " or " + regions[b].name};
		i.deep = true;
		i.mayNull = true;
		i.deepOf.assign(of.begin(), of.end());
		regions.push_back(i);
		k = regions.size() - 1;
	}
	return k;
}
Val deepPointer(State& s, const Val& p) {
	if (!p.r) return Val::top();
	int r = 0;
	if (regions[p.r].deep) r = p.r;
	else for (auto& x : shared) if (x.r == p.r && p.l.isConst() && p.l.k >= x.from && p.l.k < x.to) r = deepRegion(p.r, p.l.k);
	if (!r) return Val::top();
	ensure(s, r);
	Val v = Val::ptr(r, Lin::var(fresh(s, 0, i64(1) << 40)));
	v.mn = true;
	return v;
}
void noteAccess(State& s, const Instruction* I, const Val& p, const Lin& len, bool write) {
	if (!I || std::none_of(s.fr.begin(), s.fr.end(), [&](auto& f) { return fi(f.F).inRepo; })) return; // the scenario itself looks
	bool atomic = false;
	if (auto* L = dyn_cast<LoadInst>(I)) atomic = L->isAtomic();
	else if (auto* S = dyn_cast<StoreInst>(I)) atomic = S->isAtomic();
	else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) atomic = true;
	i64 lo = s.n.lower(p.l), hi = satAdd(s.n.upper(p.l), std::max<i64>(s.n.upper(len), 0));
	for (auto& g : guards) if (g.r == p.r && lo < g.to && hi > g.from) {
		auto f = s.locks.find(g.lock);
		bool ok = f != s.locks.end() && f->second >= (write ? 2 : 1);
		oblige(s, I, "lock", ok, string(write ? "written" : "read") + " without the lock that protects it");
	}
	vector<std::pair<int, i64>> keys;
	if (!regions[p.r].deepOf.empty()) for (int r : regions[p.r].deepOf) keys.push_back({r, 0});
	else if (regions[p.r].deep) keys.push_back({p.r, 0});
	else if (globalShared(s, p.r)) {
		for (i64 b = std::max<i64>(lo, 0); b < std::min(hi, (i64)DL.getTypeAllocSize(regions[p.r].gv->getValueType())); b++) keys.push_back({p.r, b});
	} else for (auto& x : shared) if (x.r == p.r) for (i64 b = std::max(lo, x.from); b < std::min(hi, x.to); b++) keys.push_back({p.r, b});
	if (keys.empty()) return;
	auto [loc, fn] = repoAnchor(s, I);
	for (auto& k : keys) {
		auto& v = accesses[k];
		bool there = false;
		for (auto& a : v) there |= a.write == write && a.atomic == atomic && a.loc == loc && a.locks == s.locks;
		if (!there) v.push_back({write, atomic, s.locks, loc, fn, stackStr(s, I)});
	}
}
// for everything shared that is ever written: all accesses are atomic, or one lock is held in all of them, exclusively where written
void judgeAccesses() {
	for (auto& [k, v] : accesses) {
		bool written = false, allAtomic = true;
		for (auto& a : v) { written |= a.write; allAtomic &= a.atomic; }
		std::set<std::pair<int, i64>> common, all;
		for (auto& a : v) for (auto& l : a.locks) all.insert(l.first);
		for (auto& l : all) {
			bool ok = true;
			for (auto& a : v) { auto f = a.locks.find(l); ok &= f != a.locks.end() && (!a.write || f->second == 2); }
			if (ok) common.insert(l);
		}
		bool ok = !written || allAtomic || !common.empty();
		// blame the accesses that hold no lock, or the least of them
		for (auto& a : v) {
			auto& o = obligations["lock @ " + a.loc];
			if (ok) { o.first++; continue; }
			bool weakest = a.locks.empty() || (a.write && std::none_of(a.locks.begin(), a.locks.end(), [](auto& l) { return l.second == 2; }));
			bool anyWeak = false;
			for (auto& b : v) anyWeak |= b.locks.empty() || (b.write && std::none_of(b.locks.begin(), b.locks.end(), [](auto& l) { return l.second == 2; }));
			if (anyWeak && !weakest) { o.first++; continue; }
			o.second++;
			string other;
			for (auto& b : v) if (b.loc != a.loc && (b.write || a.write)) { other = b.loc; break; }
			string key = "lock|" + a.loc;
			if (alarms.count(key)) continue;
			string what = regions[k.first].deep ? regions[k.first].name : "byte " + std::to_string(k.second) + " of the shared " + (regions[k.first].kind == RegionInfo::Global ? "variable " + llvm::demangle(regions[k.first].gv->getName().str()) : "object");
			alarms[key] = {"lock", a.loc, a.fn, what + (a.write ? " is written" : " is read") + " without a lock (or with one held only for reading) that the other accesses hold" + (other.empty() ? ", threads can do this at the same time" : ", see " + other), a.stack, ""};
		}
	}
}
