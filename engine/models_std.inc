// C++ standard library (part of class Engine)
bool modelStd(State& s, const CallBase* I, const Function* F, StringRef n, const string& d, vector<Val>& args, vector<Outcome>& out) {
	auto lin = [&](unsigned i) { return asLin(s, args[i], I->getArgOperand(i)->getType()); };
	auto ret = [&](Val v = Val::top()) { out = one(s, std::move(v)); return true; };
	static const string BS = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::";
	static const string BS2 = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::";
	size_t at = 0;
	if (startsWith(d, BS.c_str())) at = BS.size();
	else if (startsWith(d, BS2.c_str())) at = BS2.size();
	static const bool exact = F->getParent()->getNamedValue("sa_exact_strings"); // the driver wants the code of strings to be interpreted
	if (exact && at && startsWith(d.substr(at), "max_size(")) return ret(Val::num(Lin(i64(1) << 58))); // the real one is too large to compute with
	if (exact && at && startsWith(d.substr(at), "_M_disjunct(")) { // compares the order of unrelated pointers
		Val data = load(s, I, args[0], ptrT());
		if (data.k == Val::Ptr && data.r && args[1].k == Val::Ptr && args[1].r && data.r != args[1].r) return ret(Val::num(Lin(1)));
	}
	if (exact && !F->isDeclaration() && (startsWith(d, "std::__cxx11::basic_string<") || startsWith(d, "std::filesystem::") || startsWith(d, "std::basic_ifstream<"))) return false;
	if (at) {
		string m = d.substr(at);
		string nm = m.substr(0, m.find_first_of("(<"));
		string pr = m.substr(nm.size());
		auto is = [&](const char* x) { return nm == x; };
		// appends
		auto appendLen = [&](const Lin& add) {
			Lin l = strLen(s, I, args[0]);
			strSet(s, I, args[0], boundLen(s, l.plus(add)));
			return ret(args[0]);
		};
		if (is("push_back") || (is("operator+=") && pr == "(char)")) return appendLen(Lin(1));
		if (is("_M_append") || ((is("append") ) && pr == "(char const*, unsigned long)")) { if (!checkAccess(s, I, args[1], lin(2), "read")) return ret(); return appendLen(lin(2)); }
		if ((is("append") || is("operator+=")) && pr.find("basic_string<") != string::npos && args.size() == 2) { return appendLen(strLen(s, I, args[1])); }
		if ((is("append") || is("operator+=")) && pr == "(char const*)") {
			vector<Outcome> t;
			lengthOf(s, I, args[1], t);
			for (auto& o : t) {
				if (o.s.n.bottom) continue;
				Lin l = strLen(o.s, I, args[0]);
				strSet(o.s, I, args[0], boundLen(o.s, l.plus(asLin(o.s, o.ret, i64T()))));
				auto r = one(o.s, args[0]);
				out.push_back(std::move(r[0]));
			}
			return true;
		}
		if (is("append") && pr == "(unsigned long, char)") return appendLen(lin(1));
		if (is("clear")) { strSet(s, I, args[0], Lin(0)); return ret(); }
		if (is("resize")) { strSet(s, I, args[0], boundLen(s, lin(1))); return ret(); }
		if (is("reserve") || is("shrink_to_fit")) return ret();
		if (is("_M_set_length")) { strSet(s, I, args[0], lin(1)); return ret(); }
		if (is("~basic_string") || is("_M_dispose") || is("_M_destroy")) {
			Str o;
			if (strOf(s, args[0], o)) {
				Val dp = strData(s, I, args[0]);
				if (dp.k == Val::Ptr && dp.r && regions[dp.r].kind == RegionInfo::Str) { RS& R = ensure(s, dp.r); R.freed = true; R.cells = std::make_shared<Cells>(); }
			}
			return ret();
		}
		if (is("basic_string")) {
			if (args.size() == 1 || pr == "(std::allocator<char> const&)") { strSet(s, I, args[0], Lin(0)); return ret(); }
			if (startsWith(pr, "(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&)") || startsWith(pr, "(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&)")) {
				strSet(s, I, args[0], strLen(s, I, args[1]));
				return ret();
			}
			if (pr.find("&&") != string::npos && pr.find("basic_string<") != string::npos) {
				Lin l = strLen(s, I, args[1]);
				strSet(s, I, args[0], l);
				strSet(s, I, args[1], Lin(0));
				return ret();
			}
			if (pr.find("(char const*, unsigned long") == 0) { if (!checkAccess(s, I, args[1], lin(2), "read")) return ret(); strSet(s, I, args[0], boundLen(s, lin(2))); return ret(); }
			if (pr.find("(unsigned long, char") == 0) { strSet(s, I, args[0], boundLen(s, lin(1))); return ret(); }
			if (pr.find("(char const*") != string::npos && pr.find("unsigned long") == string::npos && pr.find("char const*, char const*") == string::npos && I->getArgOperand(1)->getType()->isPointerTy()) {
				vector<Outcome> t;
				lengthOf(s, I, args[1], t);
				for (auto& o : t) { if (o.s.n.bottom) continue; strSet(o.s, I, args[0], asLin(o.s, o.ret, i64T())); auto r = one(o.s); out.push_back(std::move(r[0])); }
				return true;
			}
			if (pr.find("basic_string_view<char") != string::npos && pr.find("std::allocator<char> const&)") != string::npos && args.size() == 3) {
				// template constructor from something convertible to a string_view, passed by reference
				Val pl = args[1];
				if (pl.k == Val::Ptr && pl.r && pr.find("const&, std::alloc") != string::npos) {
					Val len = load(s, I, pl, i64T()), dp = pl;
					dp.l = dp.l.plus(Lin(8));
					Val data = load(s, I, dp, ptrT());
					Lin l = asLin(s, len, i64T());
					if (!checkAccess(s, I, data, l, "read")) return ret();
					strSet(s, I, args[0], boundLen(s, l));
					return ret();
				}
			}
			strSet(s, I, args[0], lenFresh(s));
			return ret();
		}
		if (is("operator=") || is("assign") || is("_M_assign")) {
			if (args.size() == 2 && pr.find("basic_string<") != string::npos && pr.find("basic_string_view") == string::npos) {
				Lin l = strLen(s, I, args[1]);
				strSet(s, I, args[0], l);
				if (pr.find("&&") != string::npos) strSet(s, I, args[1], Lin(0));
				return ret(args[0]);
			}
			if (pr.find("(char const*, unsigned long)") == 0) { if (!checkAccess(s, I, args[1], lin(2), "read")) return ret(); strSet(s, I, args[0], boundLen(s, lin(2))); return ret(args[0]); }
			if (pr == "(char const*)") {
				vector<Outcome> t;
				lengthOf(s, I, args[1], t);
				for (auto& o : t) { if (o.s.n.bottom) continue; strSet(o.s, I, args[0], asLin(o.s, o.ret, i64T())); auto r = one(o.s, args[0]); out.push_back(std::move(r[0])); }
				return true;
			}
			if (pr == "(char)") { strSet(s, I, args[0], Lin(1)); return ret(args[0]); }
			if (F->isDeclaration() || nm == "_M_assign") { strSet(s, I, args[0], lenFresh(s)); return ret(args[0]); }
			return false;
		}
		if (is("_M_replace") || is("replace") || is("_M_replace_aux") || is("insert") || is("erase") || is("_M_erase") || is("swap") || is("_M_mutate") || is("pop_back")) {
			strSet(s, I, args[0], lenFresh(s));
			if (is("swap")) strSet(s, I, args[1], lenFresh(s));
			return ret(I->getType()->isPointerTy() ? args[0] : freshVal(s, I->getType()));
		}
		if (is("substr") && args.size() >= 2 && I->getType()->isVoidTy()) { strSet(s, I, args[0], lenFresh(s)); vector<Outcome> r = one(s); out = std::move(r); return true; }
		if (is("find") || is("rfind") || is("find_first_of") || is("find_last_of") || is("find_first_not_of") || is("find_last_not_of")) {
			Lin l = strLen(s, I, args[0]);
			State q = s;
			Id i = fresh(s, 0, i64(1) << 30);
			s.n.assumeLe0(Lin::var(i).minus(l));
			out = one(s, Val::num(Lin::var(i)));
			auto r = one(q, Val::num(Lin(-1)));
			out.push_back(std::move(r[0]));
			return true;
		}
		if (is("compare")) return ret(Val::num(Lin::var(fresh(s, INT32_MIN, INT32_MAX))));
		if (is("_M_construct") || is("_M_create")) { if (is("_M_construct")) strSet(s, I, args[0], lenFresh(s)); return ret(); }
		if (F->isDeclaration()) {
			externals.insert(d);
			return false;
		}
		return false;
	}
	for (auto* x : {"std::filesystem::", "std::basic_ifstream<", "std::basic_ofstream<", "std::basic_filebuf<", "std::basic_istream<", "std::basic_ostream<", "std::basic_ios<"}) if (startsWith(d, x)) { // the world outside
		externals.insert(d);
		out = havocCall(s, I, args, !F->doesNotThrow() && !I->doesNotThrow());
		return true;
	}
	if (startsWith(d, "std::vector<") && d.find(">::_S_max_size(") != string::npos && d.find("(", d.find(">::_S_max_size(") + 16) == string::npos) return ret(Val::num(Lin(i64(1) << 58))); // the real one is too large to compute with
	if (startsWith(d, "std::__cxx11::to_string(") || startsWith(d, "std::to_string(")) { // sret
		Id l = fresh(s, 1, 24);
		strSet(s, I, args[0], Lin::var(l));
		return ret();
	}
	// string_view::find family: result is npos or a valid position
	if (startsWith(d, "std::basic_string_view<char, std::char_traits<char>") && d.find("::operator") == string::npos) {
		auto p = d.find(">::");
		if (p == string::npos) return false;
		string nm = d.substr(p + 3);
		nm = nm.substr(0, nm.find('('));
		if (nm == "find" || nm == "rfind" || nm == "find_first_of" || nm == "find_last_of" || nm == "find_first_not_of" || nm == "find_last_not_of") {
			Val lv = load(s, I, args[0], i64T());
			Val pp = args[0];
			if (pp.k == Val::Ptr) pp.l = pp.l.plus(Lin(8));
			Val data = load(s, I, pp, ptrT());
			Lin len = asLin(s, lv, i64T());
			if (!checkAccess(s, I, data, len, "read")) return ret(freshVal(s, I->getType()));
			string known, needle;
			i64 from = 0, cc;
			bool letter = I->arg_size() >= 2 && I->getArgOperand(1)->getType()->isIntegerTy(8);
			bool counted = d.find("(char const*, unsigned long, unsigned long)") != string::npos;
			string sought;
			if (letter && args[1].isC(cc)) sought = string(1, char(cc));
			if (len.isConst() && len.k >= 0 && len.k <= 256 && (len.k == 0 || constBytes(s, data, len.k, known, sought.empty() ? nullptr : &sought))
					&& (counted ? args.size() == 4 && args[2].isC(from) : args.back().isC(from)) && from >= -1) {
				bool text = false;
				if (letter && !sought.empty()) { needle = sought; text = true; }
				else if (!letter && counted && args[3].isC(cc) && cc >= 0 && cc <= 64) text = cc == 0 || constBytes(s, args[1], cc, needle);
				else if (!letter && d.find("(std::basic_string_view") != string::npos && args.size() == 4 && args[1].isC(cc) && cc >= 0 && cc <= 64) text = cc == 0 || constBytes(s, args[2], cc, needle);
				else if (!letter && !counted && args.size() == 3 && cstr(args[1]) != "?") { needle = cstr(args[1]); text = true; }
				if (text) {
					size_t f = size_t(from), at = nm == "find" ? known.find(needle, f) : nm == "rfind" ? known.rfind(needle, f) : nm == "find_first_of" ? known.find_first_of(needle, f)
						: nm == "find_last_of" ? known.find_last_of(needle, f) : nm == "find_first_not_of" ? known.find_first_not_of(needle, f) : known.find_last_not_of(needle, f);
					return ret(Val::num(Lin(at == string::npos ? -1 : (i64)at)));
				}
				if (letter && nm == "find" && from >= 0 && args[1].k == Val::Byte) {
					auto t = std::make_shared<Tab>();
					for (int k = 0; k < 256; k++) (*t)[k] = known.find(char((*args[1].t)[k]), from) != string::npos;
					BX bx; bx.op = BX::BYTE; bx.byte = args[1].b; bx.tab = t;
					BXP in = mk(bx);
					vector<State> yes, no;
					assume(s, in, true, yes);
					assume(s, in, false, no);
					for (auto& q : yes) {
						Id i = fresh(q, from, len.k - 1);
						auto r = one(q, Val::num(Lin::var(i)));
						out.push_back(std::move(r[0]));
					}
					for (auto& q : no) { auto r = one(q, Val::num(Lin(-1))); out.push_back(std::move(r[0])); }
					return true;
				}
			}
			State q = s;
			Id i = fresh(s, 0, i64(1) << 30);
			Lin least(0);
			// find(x, pos) with a known position
			if (nm == "find" || nm == "find_first_of" || nm == "find_first_not_of") {
				unsigned pi = args.size() - 1;
				if (d.find("(char const*, unsigned long, unsigned long)") != string::npos) pi = 2;
				if (pi >= 2 || (args.size() == 3)) {
					Lin pos = lin(std::min<unsigned>(pi, args.size() - 1));
					if (s.n.lower(pos) >= 0) s.n.assumeLe0(pos.minus(Lin::var(i)));
				}
			}
			bool one1 = I->arg_size() >= 2 && I->getArgOperand(1)->getType()->isIntegerTy(8);
			Lin need(one1 ? 1 : 0);
			if (nm == "find_first_of" || nm == "find_last_of" || nm == "find_first_not_of" || nm == "find_last_not_of") need = Lin(1);
			if (!one1 && (nm == "find" || nm == "rfind")) {
				// length of the needle: find(basic_string_view, pos) is passed as two scalars; find(char const*, pos[, n])
				if (d.find("(std::basic_string_view") != string::npos && args.size() >= 3) need = lin(1);
				else if (d.find("(char const*, unsigned long, unsigned long)") != string::npos) need = lin(3);
				else if (cstr(args[1]) != "?") need = Lin((i64)cstr(args[1]).size());
			}
			s.n.assumeLe0(Lin::var(i).plus(need).minus(len));
			if (!s.n.bottom) out = one(s, Val::num(Lin::var(i)));
			auto r = one(q, Val::num(Lin(-1)));
			out.push_back(std::move(r[0]));
			return true;
		}
	}
	if (startsWith(d, "std::enable_if<") && d.find("std::from_chars<") != string::npos) return fromChars(s, I, args, out, true);
	if (startsWith(d, "std::from_chars(")) return fromChars(s, I, args, out, false);
	if (d.find("std::to_chars") != string::npos && (startsWith(d, "std::to_chars") || d.find(" std::to_chars") != string::npos)) return toChars(s, I, d, args, out);
	return false;
}
// from_chars(first, last, value&, base): {ptr, ec}
bool fromChars(State& s, const CallBase* I, vector<Val>& args, vector<Outcome>& out, bool integer) {
	Val a = args[0], b = args[1], v = args[2];
	Type* ST = I->getType();
	auto mkRet = [&](const Val& p, const Val& ec) { return Val::agg({p, ec}); };
	Type* VT = Type::getDoubleTy(M.getContext());
	{
		unsigned w = 8;
		string d = fi(cast<Function>(I->getCalledOperand()->stripPointerCastsAndAliases())).dem;
		if (auto at = d.find("from_chars<"); at != string::npos) {
			string t = d.substr(at + 11);
			t = t.substr(0, t.find_first_of(",>"));
			if (t == "int" || t == "unsigned int") w = 4;
			else if (t == "short" || t == "unsigned short") w = 2;
			else if (t == "char" || t == "unsigned char" || t == "signed char") w = 1;
		}
		if (integer) VT = Type::getIntNTy(M.getContext(), w * 8);
		else if (d.find("float&") != string::npos) VT = Type::getFloatTy(M.getContext());
	}
	if (a.k != Val::Ptr || b.k != Val::Ptr || a.r != b.r || !ST->isStructTy()) {
		store(s, I, v, freshVal(s, VT), VT); // only the result is written
		out = one(s, freshVal(s, ST));
		return true;
	}
	Lin len = b.l.minus(a.l);
	if (!a.r) { if (s.n.upper(len) <= 0) { out = one(s, mkRet(a, Val::num(Lin(22)))); return true; } }
	if (s.n.lower(len) < 0) {
		oblige(s, I, "bounds-read", false, "number parsing starts past the end of its input");
		s.n.assumeLe0(len.scaled(-1));
		if (s.n.bottom) { out = one(s); return true; }
	}
	if (!checkAccess(s, I, a, len, "read")) { out = one(s); return true; }
	{ // a known number
		i64 n, base = 10;
		string d = fi(cast<Function>(I->getCalledOperand()->stripPointerCastsAndAliases())).dem, one_;
		bool uns = d.find("from_chars<unsigned") != string::npos || d.find("from_chars<char") != string::npos;
		if (integer && len.isConst() && (args.size() < 4 || (args[3].isC(base) && base >= 2 && base <= 16))) {
			i64 at = 0;
			__int128 value = 0;
			bool known = true, neg = false;
			int digits = 0;
			for (n = len.k; at < n; at++) {
				Val p = a;
				p.l = a.l.plus(Lin(at));
				if (at > 30 || !constBytes(s, p, 1, one_)) { known = false; break; }
				if (at == 0 && one_[0] == '-' && !uns) { neg = true; continue; }
				int digit = one_[0] >= '0' && one_[0] <= '9' ? one_[0] - '0' : one_[0] >= 'a' && one_[0] <= 'f' ? one_[0] - 'a' + 10 : one_[0] >= 'A' && one_[0] <= 'F' ? one_[0] - 'A' + 10 : 99;
				if (digit >= base) break;
				value = value * base + digit;
				digits++;
			}
			if (known) {
				if (neg) value = -value;
				unsigned w = VT->getIntegerBitWidth();
				__int128 hi = uns ? ((__int128)1 << w) - 1 : ((__int128)1 << (w - 1)) - 1, lo = uns ? 0 : -((__int128)1 << (w - 1));
				Val p = a;
				if (!digits) out = one(s, mkRet(a, Val::num(Lin(22))));
				else if (value > hi || value < lo) { p.l = a.l.plus(Lin(at)); out = one(s, mkRet(p, Val::num(Lin(34)))); }
				else if (value < (i64(1) << 61) && value > -(i64(1) << 61)) {
					p.l = a.l.plus(Lin(at));
					store(s, I, v, Val::num(Lin((i64)value)), VT);
					out = one(s, mkRet(p, Val::num(Lin(0))));
				} else known = false;
				if (known) return true;
			}
		}
	}
	// nothing matched
	{ State q = s; auto r = one(q, mkRet(a, Val::num(Lin(22)))); out.push_back(std::move(r[0])); }
	for (int oor = 0; oor < 2; oor++) {
		State q = s;
		Id i = fresh(q, 1, i64(1) << 30);
		q.n.assumeLe0(Lin::var(i).minus(len));
		if (q.n.bottom) continue;
		Val p = a;
		p.l = a.l.plus(Lin::var(i));
		// the first character of a number
		if (!a.l.isConst() || true) {
			Val c = loadByteAt(q, I, a, Lin(0));
			if (c.k == Val::Byte) {
				auto t = std::make_shared<Tab>();
				for (int k = 0; k < 256; k++) { i64 x = (*c.t)[k] & 255; (*t)[k] = (x >= '0' && x <= '9') || x == '-' || (!integer && (x == '.' || x == 'i' || x == 'n' || x == 'I' || x == 'N')); }
				BX bx; bx.op = BX::BYTE; bx.byte = c.b; bx.tab = t;
				vector<State> tt;
				assume(std::move(q), mk(bx), true, tt);
				if (tt.empty()) continue;
				q = std::move(tt[0]);
			}
		}
		if (!oor) {
			store(q, I, v, freshVal(q, VT), VT);
		}
		auto r = one(q, mkRet(p, Val::num(Lin(oor ? 34 : 0))));
		out.push_back(std::move(r[0]));
	}
	return true;
}
// to_chars(first, last, value[, fmt, precision]): may need more room than there is
bool toChars(State& s, const CallBase* I, const string& d, vector<Val>& args, vector<Outcome>& out) {
	Val a = args[0], b = args[1];
	Type* ST = I->getType();
	if (a.k != Val::Ptr || b.k != Val::Ptr || a.r != b.r || !ST->isStructTy()) {
		if (a.k == Val::Ptr && a.r && !ensure(s, a.r).weak) { wipe(s, a.r, -INF, INF); s.regs[a.r].def = Def::Any; s.regs[a.r].tracksZero = false; }
		out = one(s, freshVal(s, ST));
		return true;
	}
	Lin len = b.l.minus(a.l);
	if (s.n.lower(len) < 0) { oblige(s, I, "bounds-write", false, "number formatting starts past the end of its buffer"); s.n.assumeLe0(len.scaled(-1)); if (s.n.bottom) { out = one(s); return true; } }
	if (!checkAccess(s, I, a, len, "write")) { out = one(s); return true; }
	i64 need = INF;
	bool fl = d.find("double") != string::npos || d.find("float") != string::npos;
	if (fl) need = d.find("chars_format") == string::npos && args.size() <= 3 ? 24 : INF;
	else if (d.find("char*, char*, long") != string::npos || d.find("to_chars<long") != string::npos || d.find("to_chars<unsigned long") != string::npos) need = 20;
	else if (d.find("int") != string::npos) need = 11;
	if (!fl && args.size() >= 3) {
		Type* T = I->getArgOperand(2)->getType();
		if (T->isIntegerTy()) {
			Lin v = lin_(s, args[2], T);
			Iv r = s.n.range(v);
			auto digits = [](i64 x) { return x <= -INF || x >= INF ? 20 : (i64)std::to_string(x).size(); };
			need = std::min(need, std::max(digits(r.lo), digits(r.hi)));
			if (T->getIntegerBitWidth() == 64 && (r.lo <= -(i64(1) << 60) || r.hi >= (i64(1) << 60))) need = 20;
			else if (T->getIntegerBitWidth() == 32) need = std::min<i64>(need, 11);
		}
		if (args.size() >= 4) { i64 base; if (!(args[3].isC(base) && base == 10)) need = 65; }
	}
	{ // a known number
		i64 base = 10;
		if (!fl && args.size() >= 3 && I->getArgOperand(2)->getType()->isIntegerTy() && (args.size() < 4 || (args[3].isC(base) && base == 10))) {
			Lin v = lin_(s, args[2], I->getArgOperand(2)->getType());
			Iv r = s.n.range(v);
			if (r.lo == r.hi && r.lo > -(i64(1) << 60) && r.lo < (i64(1) << 60)) {
				string t = std::to_string(r.lo);
				if (s.n.lower(len) >= (i64)t.size()) {
					Val p = a;
					for (size_t i = 0; i < t.size(); i++) { p.l = a.l.plus(Lin(i)); store(s, I, p, Val::num(Lin((unsigned char)t[i])), i8T()); }
					p.l = a.l.plus(Lin(t.size()));
					out = one(s, Val::agg({p, Val::num(Lin(0))}));
					return true;
				}
			}
		}
	}
	RS& R = ensure(s, a.r);
	Iv ar = s.n.range(a.l);
	bool zeroed = R.def == Def::Zero && R.cells->empty();
	// success
	{
		State q = s;
		Id i = fresh(q, 1, need >= INF ? 4000 : need);
		q.n.assumeLe0(Lin::var(i).minus(len));
		if (!q.n.bottom) {
			Val p = a;
			p.l = a.l.plus(Lin::var(i));
			RS& R2 = q.regs[a.r];
			if (!R2.weak) {
				wipe(q, a.r, ar.lo, satAdd(ar.hi, q.n.upper(len)));
				q.regs[a.r].def = Def::Any;
				if (zeroed) { q.regs[a.r].tracksZero = true; q.regs[a.r].zeroFrom = p.l; }
			}
			auto r = one(q, Val::agg({p, Val::num(Lin(0))}));
			out.push_back(std::move(r[0]));
		}
	}
	if (s.n.lower(len) < need) { // value too large for the buffer
		State q = s;
		if (need < INF) q.n.assumeLe0(len.minus(Lin(need - 1)));
		if (!q.n.bottom) {
			if (!q.regs[a.r].weak) { wipe(q, a.r, ar.lo, satAdd(ar.hi, q.n.upper(len))); q.regs[a.r].def = Def::Any; q.regs[a.r].tracksZero = false; }
			auto r = one(q, Val::agg({b, Val::num(Lin(75))}));
			out.push_back(std::move(r[0]));
		}
	}
	return true;
}
Lin lin_(State& s, const Val& v, Type* T) { return asLin(s, v, T); }
