// Conformance driver: data tables and TFS files.
#include "vh.h"
#include <memory>
#include <cstring>
#include <iomanip>
#include "DataTable.h"
#include "DataTableTFS.h"
using namespace vh;

static DataTable slot[2];
static int cur, files;
static DataTable& T() { return slot[cur]; }

static J chars(const std::string& s) { J a = J::arr(); for(char c : s) a.push(J(std::string(1, c))); return a; }
// a real number as sign, decimal digits d and exponent e: 0.ddd * 10^e
static J real(double v)
{
	J o = J::obj(), d = J::arr(); long e = 0; std::string s; bool neg = std::signbit(v);
	if(std::isnan(v)) { s = "nan"; neg = false; }
	else if(std::isinf(v)) s = "inf";
	else if(v != 0)
	{
		char b[64];
		for(int p = 1; p <= 17; p++) { snprintf(b, 64, "%.*e", p - 1, std::fabs(v)); if(strtod(b, nullptr) == std::fabs(v)) break; }
		std::string t;
		for(char* c = b; *c && *c != 'e'; c++) if(*c != '.') t += *c;
		e = atol(strchr(b, 'e') + 1) + 1;
		while(!t.empty() && t.back() == '0') t.pop_back();
		for(char c : t) d.push(J(c - '0'));
	}
	o.set("t", J("d")).set("neg", J(neg)).set("d", d).set("e", J(e)).set("s", chars(s));
	return o;
}
static J integer(int v)
{
	J o = J::obj(), d = J::arr(); std::string t = std::to_string(v); if(v < 0) t = t.substr(1);
	long e = v ? t.size() : 0;
	while(!t.empty() && t.back() == '0') t.pop_back();
	for(char c : t) d.push(J(c - '0'));
	o.set("t", J("i")).set("neg", J(v < 0)).set("d", d).set("e", J(e)).set("s", J::arr());
	return o;
}
static J text(const std::string& v)
{
	J o = J::obj(); o.set("t", J("s")).set("neg", J(false)).set("d", J::arr()).set("e", J(0)).set("s", chars(v));
	return o;
}
static double toReal(const J& v)
{
	std::string s = v["s"].chars();
	if(s == "nan") return std::nan("");
	if(s == "inf") return v["neg"].B() ? -HUGE_VAL : HUGE_VAL;
	std::string t = v["neg"].B() ? "-0." : "0.";
	for(size_t i = 0; i < v["d"].size(); i++) t += (char) ('0' + v["d"][i].I());
	return strtod((t + "0e" + std::to_string(v["e"].I())).c_str(), nullptr);
}
static int toInt(const J& v)
{
	long long n = 0; size_t k = v["d"].size();
	for(long i = 0; i < v["e"].I(); i++) n = n * 10 + (i < (long) k ? v["d"][i].I() : 0);
	return (int) (v["neg"].B() ? -n : n);
}
static std::string attempt(const std::function<void()>& f)
{
	try { f(); return "ok"; }
	catch(WrongTypeException&) { return "type"; }
	catch(BadFormatException&) { return "format"; }
	catch(std::out_of_range&) { return "range"; }
	catch(std::invalid_argument&) { return "arg"; }
}
static J dump()
{
	DataTable& t = T(); const DataTable& ct = t;
	J o = J::obj(), c = J::arr(), h = J::arr(), r = J::arr();
	for(auto& n : t.ColumnNames())
	{
		char ty = t.GetColumnType(n); J x = J::obj();
		x.set("n", chars(n)).set("t", J(std::string(1, ty))); c.push(x);
		if(!t.HasCol(n) || !t.HasCol(n, ty) || t.HasCol(n, ty == 'd' ? 'i' : 'd')) x.set("t", J("?"));
	}
	for(auto& n : t.HeaderNames())
	{
		char ty = t.GetHeaderType(n); J x = J::obj();
		bool ok = t.HeaderHasKey(n) && t.HeaderHasKey(n, ty) && !t.HeaderHasKey(n, ty == 'd' ? 's' : 'd');
		x.set("n", chars(n)).set("t", J(ok ? std::string(1, ty) : "?"));
		x.set("v", ty == 'd' ? real(t.HeaderGet_d(n)) : ty == 'i' ? integer(t.HeaderGet_i(n)) : text(t.HeaderGet_s(n)));
		h.push(x);
	}
	for(size_t i = 0; i < ct.Length(); i++)
	{
		J w = J::arr();
		for(auto& n : t.ColumnNames())
		{
			char ty = t.GetColumnType(n);
			w.push(ty == 'd' ? real(ct.Get_d(n, i)) : ty == 'i' ? integer(ct.Get_i(n, i)) : text(ct.Get_s(n, i)));
		}
		r.push(w);
	}
	o.set("cols", c).set("hdr", h).set("rows", r);
	return o;
}
template<class... A> static void addVals(const J& v, size_t k, A... a);
template<int N> struct Add {
	template<class... A> static void go(const J& v, size_t k, A... a)
	{
		if(k == v.size()) { T().AddRow(a...); return; }
		std::string t = v[k]["t"].S();
		if(t == "d") Add<N - 1>::go(v, k + 1, a..., toReal(v[k]));
		else if(t == "i") Add<N - 1>::go(v, k + 1, a..., toInt(v[k]));
		else Add<N - 1>::go(v, k + 1, a..., v[k]["s"].chars());
	}
};
template<> struct Add<0> {
	template<class... A> static void go(const J&, size_t, A... a) { T().AddRow(a...); }
};
static J toLines(const std::string& s)
{
	J a = J::arr(); std::istringstream in(s); std::string l;
	while(std::getline(in, l)) a.push(chars(l));
	return a;
}
static std::string fromLines(const J& a, bool last)
{
	std::string s;
	for(size_t i = 0; i < a.size(); i++) { s += a[i].chars(); if(last || i + 1 < a.size()) s += '\n'; }
	return s;
}
template<class R> static J getBy(R&& r, const std::string& n, const std::string& ty)
{
	if(ty == "d") return real(r.Get_d(n));
	if(ty == "i") return integer(r.Get_i(n));
	if(ty == "s") return text(r.Get_s(n));
	return text(r.GetAsStr(n));
}

int main(int argc, char** argv)
{
	Driver d;
	d.reset = [] { slot[0] = DataTable(); slot[1] = DataTable(); cur = 0; };
	auto done = [](J& o) { o.set("tab", dump()); };
	d.ops["addcol"] = [=](const J& e, J& o) { o.set("res", J(attempt([&] { T().AddColumn(e["n"].chars(), e["t"].S()[0]); }))); done(o); };
	d.ops["hadd"] = [=](const J& e, J& o) { o.set("res", J(attempt([&] { T().HeaderAddColumn(e["n"].chars(), e["t"].S()[0]); }))); done(o); };
	d.ops["addrows"] = [=](const J& e, J& o) { size_t i = 0; for(int k = (int)e["k"].I(); k-- > 0;) i = T().AddRow(); o.set("res", J("ok")).set("i", J(i)); done(o); };
	d.ops["addrow"] = [=](const J& e, J& o) { o.set("res", J("ok")).set("i", J(T().AddRow())); done(o); };
	d.ops["addvals"] = [=](const J& e, J& o) { o.set("res", J(attempt([&] { Add<4>::go(e["v"], 0); }))); done(o); };
	d.ops["set"] = [=](const J& e, J& o) {
		std::string n = e["n"].chars(), ty = e["v"]["t"].S(), how = e["how"].S(); size_t i = e["i"].I(); const J& v = e["v"];
		o.set("res", J(attempt([&] {
			if(how == "table") { if(ty == "d") T().Set(n, i, toReal(v)); else if(ty == "i") T().Set(n, i, toInt(v)); else T().Set(n, i, v["s"].chars()); }
			else if(how == "typed") { if(ty == "d") T().Set_d(n, i, toReal(v)); else if(ty == "i") T().Set_i(n, i, toInt(v)); else T().Set_s(n, i, v["s"].chars()); }
			else if(how == "row") { DataTableRow r(&T(), i); if(ty == "d") r.Set(n, toReal(v)); else if(ty == "i") r.Set(n, toInt(v)); else r.Set(n, v["s"].chars()); }
			else if(how == "iter") { auto it = T().begin(); it += i; if(ty == "d") it->Set_d(n, toReal(v)); else if(ty == "i") it->Set_i(n, toInt(v)); else (*it).Set_s(n, v["s"].chars()); }
			else { if(ty == "d") T().begin()[i].Set(n, toReal(v)); else if(ty == "i") T().begin()[i].Set(n, toInt(v)); else T().begin()[i].Set(n, v["s"].chars()); }
		}))); done(o); };
	d.ops["setstr"] = [=](const J& e, J& o) {
		o.set("res", J(attempt([&] { if(e["how"].S() == "row") DataTableRow(&T(), e["i"].I()).SetWithStr(e["n"].chars(), e["x"].chars()); else T().SetWithStr(e["n"].chars(), e["i"].I(), e["x"].chars()); }))); done(o); };
	d.ops["hset"] = [=](const J& e, J& o) {
		std::string n = e["n"].chars(), ty = e["v"]["t"].S(); bool typed = e["how"].S() == "typed"; const J& v = e["v"];
		o.set("res", J(attempt([&] {
			if(typed) { if(ty == "d") T().HeaderSet_d(n, toReal(v)); else if(ty == "i") T().HeaderSet_i(n, toInt(v)); else T().HeaderSet_s(n, v["s"].chars()); }
			else { if(ty == "d") T().HeaderSet(n, toReal(v)); else if(ty == "i") T().HeaderSet(n, toInt(v)); else T().HeaderSet(n, v["s"].chars()); }
		}))); done(o); };
	d.ops["hsetstr"] = [=](const J& e, J& o) { o.set("res", J(attempt([&] { T().HeaderSetWithStr(e["n"].chars(), e["x"].chars()); }))); done(o); };
	// read by name, row and type ("d", "i", "s"; "x": as text)
	d.ops["get"] = [=](const J& e, J& o) {
		std::string n = e["n"].chars(), ty = e["t"].S(), how = e["how"].S(); size_t i = e["i"].I(); J v = text("");
		const DataTable& t = T();
		o.set("res", J(attempt([&] {
			if(how == "table") v = ty == "d" ? real(t.Get_d(n, i)) : ty == "i" ? integer(t.Get_i(n, i)) : text(ty == "s" ? t.Get_s(n, i) : t.GetAsStr(n, i));
			else if(how == "row") v = getBy(DataTableRow(&T(), i), n, ty);
			else if(how == "crow") v = getBy(ConstDataTableRow(&t, i), n, ty);
			else if(how == "iter") v = getBy(*(T().begin() + i), n, ty);
			else if(how == "citer") v = getBy(*(t.begin() + i), n, ty);
			else if(how == "end") v = getBy(*(T().end() - (T().Length() - i)), n, ty);
			else v = getBy(t.begin()[i], n, ty);
		}))).set("v", v); };
	d.ops["hget"] = [=](const J& e, J& o) {
		std::string n = e["n"].chars(), ty = e["t"].S(); J v = text(""); const DataTable& t = T();
		o.set("res", J(attempt([&] { v = ty == "d" ? real(t.HeaderGet_d(n)) : ty == "i" ? integer(t.HeaderGet_i(n)) : text(ty == "s" ? t.HeaderGet_s(n) : t.HeaderGetAsStr(n)); }))).set("v", v); };
	d.ops["has"] = [=](const J& e, J& o) {
		std::string n = e["n"].chars(); char t = e["t"].S()[0];
		o.set("got", J::list(std::vector<bool>{T().HasCol(n), T().HasCol(n, t), T().HeaderHasKey(n), T().HeaderHasKey(n, t)})); };
	// all values of a column by running an iterator over the rows
	d.ops["walk"] = [=](const J& e, J& o) {
		std::string n = e["n"].chars(), how = e["how"].S(); J w = J::arr(); const DataTable& t = T();
		if(!T().HasCol(n) || !t.Length()) { o.set("got", w); return; }
		std::string ty(1, T().GetColumnType(n));
		if(how == "for") for(auto& r : T()) w.push(getBy(r, n, ty));
		else if(how == "cfor") for(auto& r : t) w.push(getBy(r, n, ty));
		else if(how == "post") for(auto i = T().begin(); i != T().end();) w.push(getBy(*i++, n, ty));
		else if(how == "cpost") for(auto i = t.begin(); i < t.end();) w.push(getBy(*i++, n, ty));
		else if(how == "back") for(auto i = T().end(); i > T().begin();) w.push(getBy(*--i, n, ty));
		else if(how == "cback") { auto i = t.end(); while(i != t.begin()) { i--; w.push(getBy(*i, n, ty)); } }
		else if(how == "two") for(auto i = T().begin(); i < T().end(); i += 2) w.push(getBy(*i, n, ty));
		else for(auto i = t.end() - 1; i >= t.begin(); i -= 1) { w.push(getBy(*i, n, ty)); if(i == t.begin()) break; }
		o.set("got", w); };
	d.ops["iter"] = [=](const J& e, J& o) {
		J g = J::arr(); long a = e["a"].I(), b = e["b"].I();
		auto alg = [&](auto x, auto y) {
			auto z = x; auto z2 = x; z += b - a; z2 = x + (b - a); auto z3 = (b - a) + x; auto z4 = y; z4 -= b - a; auto z5 = y - (b - a);
			auto p = x, m = y; auto p0 = p++; auto m0 = m--; auto p1 = p0, m1 = m0; ++p1; --m1;
			g.push(J(x == y)).push(J(x != y)).push(J(x < y)).push(J(x <= y)).push(J(x > y)).push(J(x >= y)).push(J(z == y && z2 == y && z3 == y && z4 == x && z5 == x && p0 == x && m0 == y && p1 == p && m1 == m && p - x == 1 && y - m == 1));
			return (long) (y - x);
		};
		const DataTable& t = T(); long n1, n2;
		n1 = alg(T().begin() + a, T().begin() + b); n2 = alg(t.begin() + a, t.begin() + b);
		bool rows = true;
		if(a < (long) T().Length() && b < (long) T().Length()) rows = ((*(T().begin() + a) == *(T().begin() + b)) == (a == b)) && ((*(t.begin() + a) == *(T().begin() + b)) == (a == b));
		// rows of another table are other rows
		bool other = slot[1 - cur].Length() && T().Length() ? !(*slot[1 - cur].begin() == *T().begin()) && slot[1 - cur].begin() != T().begin() : true;
		o.set("got", g).set("dist", J::list(std::vector<int>{(int) n1, (int) n2})).set("rows", J(rows && other)).set("len", J(t.end() - t.begin()));
	};
	d.ops["copy"] = [=](const J& e, J& o) { if(e["how"].S() == "ctor") { DataTable x(T()); slot[1 - cur] = x; } else slot[1 - cur] = T(); };
	d.ops["switch"] = [=](const J& e, J& o) { cur = 1 - cur; done(o); };
	d.ops["aprow"] = [=](const J& e, J& o) {
		o.set("res", J(attempt([&] { T().ApertureFromRow(DataTableRow(&slot[1 - cur], e["i"].I())); }))); done(o); };
	d.ops["ascii"] = [=](const J& e, J& o) { std::ostringstream os; T().OutputAscii(os); o.set("lines", toLines(os.str())); };
	// write, return the text, then read that text back into the current slot
	d.ops["write"] = [=](const J& e, J& o) {
		std::string f = e["fmt"].S(), s; bool same = true;
		if(f == "file")
		{
			std::string name = "t" + std::to_string(files++) + ".tfs";
			{ DataTableWriterTFS w(name); w.Write(T()); }
			{ std::ifstream in(name); std::stringstream ss; ss << in.rdbuf(); s = ss.str(); }
			T() = DataTableReaderTFS(name).Read(); std::remove(name.c_str());
		}
		else
		{
			std::stringstream os;
			if(f == "hex") os << std::hex << std::showbase;
			else if(f == "fixed") os << std::fixed << std::setprecision(2);
			else if(f == "sci") os << std::scientific << std::setprecision(3) << std::uppercase;
			else if(f == "fill") os << std::setfill('*') << std::right;
			else if(f == "pos") os << std::showpos << std::showpoint << std::internal;
			auto fl = os.flags(); auto pr = os.precision(); auto fi = os.fill();
			DataTableWriterTFS w(&os); w.Write(T());
			same = os.flags() == fl && os.precision() == pr && os.fill() == fi;
			s = os.str();
			if(f == "twice") { std::stringstream o2; DataTableWriterTFS w2(&o2); w2.Write(T()); same = same && o2.str() == s; }
			T() = DataTableReaderTFS(&os).Read();
		}
		o.set("lines", toLines(s)).set("same", J(same)); done(o);
	};
	d.ops["read"] = [=](const J& e, J& o) {
		std::string s = fromLines(e["lines"], e["nl"].B());
		if(e["how"].S() == "file")
		{
			std::string name = "t" + std::to_string(files++) + ".tfs";
			{ std::ofstream f(name, std::ios::binary); f << s; }
			std::string r = attempt([&] { DataTableReaderTFS rd(name); T() = rd.Read(); });
			o.set("res", J(r)); std::remove(name.c_str());
		}
		else { std::istringstream in(s); o.set("res", J(attempt([&] { T() = DataTableReaderTFS(&in).Read(); }))); }
		done(o);
	};
	return d.main(argc, argv);
}
