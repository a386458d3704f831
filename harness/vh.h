// Minimal JSON + trace support shared by all conformance drivers.
#ifndef VH_H
#define VH_H
#include <string>
#include <type_traits>
#include <vector>
#include <map>
#include <iostream>
#include <fstream>
#include <sstream>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <functional>
#include <stdexcept>
#include <limits>

namespace vh {

struct J {
	enum T {NUL, BOOL, INT, DBL, STR, ARR, OBJ} t = NUL;
	bool b = false;
	long long i = 0;
	double d = 0;
	std::string s;
	std::vector<J> a;
	std::vector<std::pair<std::string, J> > o;
	J() {}
	J(bool v) : t(BOOL), b(v) {}
	J(int v) : t(INT), i(v) {}
	J(unsigned v) : t(INT), i(v) {}
	J(long v) : t(INT), i(v) {}
	J(long long v) : t(INT), i(v) {}
	J(unsigned long v) : t(INT), i((long long) v) {}
	J(const char* v) : t(STR), s(v) {}
	J(const std::string& v) : t(STR), s(v) {}
	static J arr() { J j; j.t = ARR; return j; }
	static J obj() { J j; j.t = OBJ; return j; }
	template<class C> static J list(const C& c) { J j = arr(); for(const auto& x : c) j.a.push_back(J(x)); return j; }
	bool has(const std::string& k) const { for(auto& p : o) if(p.first == k) return true; return false; }
	const J& operator[](const std::string& k) const {
		for(auto& p : o) if(p.first == k) return p.second;
		throw std::runtime_error("missing field " + k);
	}
	const J& operator[](const char* k) const { return (*this)[std::string(k)]; }
	template<class I, class = typename std::enable_if<std::is_integral<I>::value>::type> const J& operator[](I n) const { return a.at((size_t) n); }
	J& set(const std::string& k, J v) {
		for(auto& p : o) if(p.first == k) { p.second = v; return *this; }
		t = OBJ; o.push_back({k, v}); return *this;
	}
	J& push(J v) { t = ARR; a.push_back(v); return *this; }
	size_t size() const { return a.size(); }
	long long I() const { return t == DBL ? (long long) d : i; }
	double D() const { return t == DBL ? d : (double) i; }
	const std::string& S() const { return s; }
	bool B() const { return b; }
	// string given either as string or as array of one-character strings
	std::string chars() const { if(t == STR) return s; std::string r; for(auto& x : a) r += x.s; return r; }
	static void esc(std::ostream& os, const std::string& s) {
		os << '"';
		for(unsigned char c : s) {
			if(c == '"' || c == '\\') os << '\\' << c;
			else if(c < 0x20) { char buf[8]; snprintf(buf, 8, "\\u%04x", c); os << buf; }
			else os << c;
		}
		os << '"';
	}
	void dump(std::ostream& os) const {
		switch(t) {
		case NUL: os << "null"; break;
		case BOOL: os << (b ? "true" : "false"); break;
		case INT: os << i; break;
		case DBL: { char buf[64]; snprintf(buf, 64, "%.17g", d); os << buf; break; }
		case STR: esc(os, s); break;
		case ARR: os << '['; for(size_t n = 0; n < a.size(); n++) { if(n) os << ','; a[n].dump(os); } os << ']'; break;
		case OBJ: os << '{'; for(size_t n = 0; n < o.size(); n++) { if(n) os << ','; esc(os, o[n].first); os << ':'; o[n].second.dump(os); } os << '}'; break;
		}
	}
	std::string str() const { std::ostringstream ss; dump(ss); return ss.str(); }
};

struct Parser {
	const std::string& s; size_t p = 0;
	Parser(const std::string& x) : s(x) {}
	void ws() { while(p < s.size() && isspace((unsigned char) s[p])) ++p; }
	J val() {
		ws();
		char c = s.at(p);
		if(c == '{') {
			J j = J::obj(); ++p; ws();
			if(s.at(p) == '}') { ++p; return j; }
			for(;;) {
				ws(); J k = val(); ws(); if(s.at(p++) != ':') throw std::runtime_error("json :");
				J v = val(); j.o.push_back({k.s, v}); ws();
				if(s.at(p) == ',') { ++p; continue; }
				if(s.at(p) == '}') { ++p; return j; }
				throw std::runtime_error("json obj");
			}
		}
		if(c == '[') {
			J j = J::arr(); ++p; ws();
			if(s.at(p) == ']') { ++p; return j; }
			for(;;) {
				j.a.push_back(val()); ws();
				if(s.at(p) == ',') { ++p; continue; }
				if(s.at(p) == ']') { ++p; return j; }
				throw std::runtime_error("json arr");
			}
		}
		if(c == '"') {
			std::string r; ++p;
			while(s.at(p) != '"') {
				if(s[p] == '\\') {
					++p; char e = s.at(p++);
					switch(e) { case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break;
					case 'u': r += (char) strtol(s.substr(p, 4).c_str(), nullptr, 16); p += 4; break;
					default: r += e; }
				} else r += s[p++];
			}
			++p; return J(r);
		}
		if(c == 't') { p += 4; return J(true); }
		if(c == 'f') { p += 5; return J(false); }
		if(c == 'n') { p += 4; return J(); }
		size_t q = p; bool dbl = false;
		while(q < s.size() && (isdigit((unsigned char) s[q]) || strchr_("+-.eE", s[q]))) { if(strchr_(".eE", s[q])) dbl = true; ++q; }
		std::string n = s.substr(p, q - p); p = q;
		if(n.empty()) throw std::runtime_error("json num");
		if(dbl) { J j; j.t = J::DBL; j.d = atof(n.c_str()); return j; }
		return J((long long) atoll(n.c_str()));
	}
	static bool strchr_(const char* t, char c) { for(; *t; ++t) if(*t == c) return true; return false; }
};
inline J parse(const std::string& s) { Parser p(s); return p.val(); }

// INEXACT marks a real value that is not (close to) a multiple of the unit
const long long INEXACT = 1999999999LL;
// quantise v to integer multiples of unit; tol relative to the unit
inline long long q(double v, double unit = 1.0, double tol = 1e-6) {
	if(!std::isfinite(v)) return INEXACT + 1;
	double x = v / unit, r = std::round(x);
	if(std::fabs(x - r) > tol || std::fabs(r) > 1.5e9) return INEXACT;
	return (long long) r;
}

struct Driver {
	typedef std::function<void(const J& in, J& out)> Handler;
	std::map<std::string, Handler> ops;
	std::function<void()> reset;
	// usage: driver script.ndjson trace.ndjson [first_scenario]
	int main(int argc, char** argv) {
		if(argc < 3) { fprintf(stderr, "usage\n"); return 3; }
		// the library chats on cout/cerr
		std::ostringstream* sink = new std::ostringstream; // leaked
		std::streambuf* oc = std::cout.rdbuf(sink->rdbuf());
		std::streambuf* oe = std::cerr.rdbuf(sink->rdbuf());
		(void) oc; (void) oe;
		std::ifstream in(argv[1]);
		std::ofstream out(argv[2], argc > 3 ? std::ios::app : std::ios::trunc);
		long first = argc > 3 ? atol(argv[3]) : 0, scen = -1;
		std::string line;
		while(std::getline(in, line)) {
			if(line.empty()) continue;
			J e = parse(line);
			std::string op = e["op"].S();
			if(op == "reset") ++scen;
			if(scen < first) continue;
			J res = e;
			try {
				if(op == "reset") { if(reset) reset(); auto it = ops.find("reset"); if(it != ops.end()) it->second(e, res); }
				else {
					auto it = ops.find(op);
					if(it == ops.end()) { fprintf(stderr, "unknown op %s\n", op.c_str()); return 4; }
					it->second(e, res);
				}
			} catch(std::runtime_error& x) {
				if(std::string(x.what()).find("missing field") == 0 || std::string(x.what()).find("json") == 0) {
					fprintf(stderr, "driver: %s in %s\n", x.what(), line.c_str()); return 4;
				}
				res.set("uncaught", J(true));
				fprintf(stderr, "uncaught: %s in %s\n", x.what(), line.c_str());
			} catch(std::exception& x) {
				res.set("uncaught", J(true));
				fprintf(stderr, "uncaught: %s in %s\n", x.what(), line.c_str());
			}
			sink->str("");
			if(res.has("uncaught")) { J c = J::obj(); c.set("op", J("uncaught")); c.set("at", J(op)); res = c; }
			out << res.str() << '\n';
			out.flush();
		}
		return 0;
	}
};
} // namespace vh
#endif
