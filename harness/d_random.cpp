// random streams and ground motion; every scenario in a process of its own
#include "rat.h"
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <random>
#include "RandomNG.h"
#include "SimpleATL.h"
#include "ATL2D.h"
#include "AcceleratorSupport.h"
double HBSpectrumGen(double);
double AWSpectrumGen(double);
using namespace vh;
using namespace std;
static long long qt(double v) { double x = v * 1e5; return !isfinite(x) || fabs(x) > 2e9 ? (long long) 2000000001 : llround(x); }
static vector<uint32_t> seedOf(const J& e) { vector<uint32_t> r; for(auto& x : e.a) r.push_back((uint32_t) stoul(x.S())); return r; }
static J seedNow() { J a = J::arr(); for(auto s : RandomNG::getSeed()) a.push(J(to_string(s))); return a; }
static mt19937_64& gen(const string& n) { return n.empty() ? RandomNG::getGenerator() : RandomNG::getLocalGenerator(hash_string(n)); }
static map<int, mt19937_64*> held;
// one number, in units of its distribution
static double one(const J& e)
{
	string k = e["kind"].S(); double a = num(e["a"]), b = num(e["b"]);
	if(k == "normal") { double x = RandomNG::normal(a, b * b); return b == 0 ? x - a : (x - a) / b; }
	if(k == "cut") { double x = RandomNG::normal(a, b * b, num(e["c"])); return b == 0 ? x - a : (x - a) / b; }
	if(k == "uniform") { double x = RandomNG::uniform(a, a + b); return b == 0 ? x - a : (x - a) / b; }
	if(k == "poisson") return RandomNG::poisson(a);
	if(k == "landau") return RandomNG::landau();
	if(k == "HB") return HBSpectrumGen(b) / b;
	if(k == "AW") return AWSpectrumGen(b) / b;
	throw logic_error("kind");
}
struct World {
	vector<AcceleratorSupport> sup; vector<unique_ptr<SimpleATL> > s; vector<unique_ptr<ATL2D> > p; };
static World* w;
static AcceleratorSupportList listOf(const J& e)
{
	AcceleratorSupportList l; for(auto& i : e.a) l.push_back(&w->sup.at(i.I() - 1)); return l;
}
static J offs()
{
	J a = J::arr();
	for(auto& s : w->sup) { Vector3D v = s.GetOffset(); J x = J::arr(); x.push(J(qt(v.x))).push(J(qt(v.y))).push(J(qt(v.z))); a.push(x); }
	return a;
}
int main(int argc, char** argv)
{
	Driver d;
	d.reset = [] { w = new World; held.clear(); };
	d.ops["init"] = [](const J& e, J& o) {
		vector<uint32_t> s = seedOf(e["seed"]); bool r = e["how"].S() == "reset";
		if(e["one"].B()) { if(r) RandomNG::reset(s.at(0)); else RandomNG::init(s.at(0)); }
		else { if(r) RandomNG::reset(s); else RandomNG::init(s); } };
	d.ops["auto"] = [](const J&, J&) { RandomNG::init(); };
	d.ops["again"] = [](const J&, J&) { RandomNG::reset(); };
	d.ops["draw"] = [](const J& e, J& o) { J t = J::arr(); for(int k = 0; k < e["n"].I(); k++) t.push(J(qt(one(e)))); o.set("tok", t); };
	d.ops["stats"] = [](const J& e, J& o) {
		const int n = 1024; double s = 0, q = 0, lo = 1e300, hi = -1e300; vector<int> below(3, 0); bool whole = true;
		const double edge[3] = {-0.2046386, 1.3557804, 4.4583993}; // quartiles of the Landau distribution
		vector<double> v;
		for(int k = 0; k < n; k++)
		{
			double x = one(e); v.push_back(x); s += x; lo = min(lo, x); hi = max(hi, x); whole = whole && x == floor(x);
			for(int i = 0; i < 3; i++) if(x < edge[i]) ++below[i];
		}
		s /= n; for(double x : v) q += (x - s) * (x - s); q /= n;
		o.set("mean", J((long long) llround(min(s, 1e6) * 1000))).set("var", J((long long) llround(min(q, 1e6) * 1000))).set("lo", J(qt(lo))).set("hi", J(qt(hi)));
		o.set("below", J::list(below)).set("whole", whole); };
	d.ops["raw"] = [](const J& e, J& o) { J t = J::arr(); for(int k = 0; k < e["n"].I(); k++) t.push(J(to_string((unsigned long long) gen(e["name"].S())()))); o.set("tok", t); };
	d.ops["hold"] = [](const J& e, J&) { held[e["slot"].I()] = &gen(e["name"].S()); };
	d.ops["rawheld"] = [](const J& e, J& o) { J t = J::arr(); for(int k = 0; k < e["n"].I(); k++) t.push(J(to_string((unsigned long long) (*held.at(e["slot"].I()))()))); o.set("tok", t); };
	d.ops["relocal"] = [](const J& e, J&) { RandomNG::resetLocalGenerator(hash_string(e["name"].S())); };
	// ground motion
	d.ops["supports"] = [](const J& e, J& o) {
		w->s.clear(); w->p.clear(); w->sup = vector<AcceleratorSupport>(e["at"].size());
		for(size_t k = 0; k < e["at"].size(); k++) w->sup[k].SetPosition(num(e["at"][k][0]), num(e["at"][k][1]), num(e["at"][k][2]));
		o.set("y", offs()); };
	d.ops["motion"] = [](const J& e, J& o) {
		AcceleratorSupportList l = listOf(e["on"]);
		if(e["flat"].B()) { w->p.emplace_back(new ATL2D(num(e["A"]), l, Point2D(num(e["ref"][0]), num(e["ref"][1])))); w->s.emplace_back(); }
		else { w->s.emplace_back(new SimpleATL(num(e["A"]), l, num(e["vib"]))); w->p.emplace_back(); }
		o.set("y", offs()).set("time", rat(w->s.back() ? w->s.back()->GetTime() : w->p.back()->GetTime())); };
	d.ops["mode"] = [](const J& e, J& o) { o.set("r", w->p.at(e["i"].I() - 1)->SetATLMode(e["inc"].B() ? ATL2D::increment : ATL2D::absolute)); };
	d.ops["shake"] = [](const J& e, J& o) { o.set("r", w->p.at(e["i"].I() - 1)->SetVibration(num(e["vib"]))); };
	d.ops["step"] = [](const J& e, J& o) {
		size_t i = e["i"].I() - 1; double dt = num(e["dt"]), r = w->s.at(i) ? w->s[i]->DoStep(dt) : w->p[i]->DoStep(dt), t = w->s[i] ? w->s[i]->GetTime() : w->p[i]->GetTime();
		o.set("y", offs()).set("time", rat(t)).set("ret", rat(r)); };
	d.ops["still"] = [](const J& e, J& o) {
		size_t i = e["i"].I() - 1; if(w->s.at(i)) w->s[i]->Reset(); else w->p[i]->Reset();
		o.set("y", offs()).set("time", rat(w->s[i] ? w->s[i]->GetTime() : w->p[i]->GetTime())); };
	d.ops["mseed"] = [](const J& e, J& o) {
		size_t i = e["i"].I() - 1; unsigned n = stoul(e["seed"].S());
		if(w->s.at(i)) w->s[i]->SetRandomSeed(n); else w->p[i]->SetRandomSeed(n);
		o.set("sd", to_string(w->s[i] ? w->s[i]->GetRandomSeed() : w->p[i]->GetRandomSeed())).set("y", offs()); };
	d.ops["mreset"] = [](const J& e, J& o) {
		size_t i = e["i"].I() - 1; if(w->s.at(i)) w->s[i]->ResetRandomSeed(); else w->p[i]->ResetRandomSeed();
		o.set("sd", to_string(w->s[i] ? w->s[i]->GetRandomSeed() : w->p[i]->GetRandomSeed())).set("y", offs()); };
	// second moments of many steps: of a support against the reference, of two supports against each other; 1000 is as expected
	d.ops["spread"] = [](const J& e, J& o) {
		size_t i = e["i"].I() - 1; size_t a = e["a"].I() - 1, b = e["b"].I(); double dt = num(e["dt"]), q = 0, m = 0; const int n = 1024;
		for(int k = 0; k < n; k++)
		{
			if(w->s.at(i)) { w->s[i]->Reset(); w->s[i]->DoStep(dt); } else { w->p[i]->Reset(); w->p[i]->DoStep(dt); if(e["two"].B()) w->p[i]->DoStep(0); }
			double x = w->sup.at(a).GetOffset().y - (b ? w->sup.at(b - 1).GetOffset().y : 0); q += x * x; m += x;
		}
		if(w->s.at(i)) w->s[i]->Reset(); else w->p[i]->Reset();
		o.set("y", offs());
		o.set("var", J((long long) llround(min(q / n, 1e6) * 1000))).set("mean", J((long long) (q ? llround(m / n / sqrt(q / n) * 1000) : 0))); };
	// a motion in the plane from the recorded eigen system of another
	d.ops["copy"] = [](const J& e, J& o) {
		AcceleratorSupportList l; for(auto& i : e["on"].a) l.push_back(&w->sup.at(i.I() - 1));
		{ ofstream a("evec.dat"), b("eval.dat"); a.precision(17); b.precision(17); w->p.at(e["i"].I() - 1)->RecordEigenSystem(&a, &b); }
		ifstream a("evec.dat"), b("eval.dat");
		w->p.emplace_back(new ATL2D(num(e["A"]), l, Point2D(5, 7), &a, &b)); w->s.emplace_back(); o.set("y", offs()); };
	// the lines recorded: numbers only
	d.ops["record"] = [](const J& e, J& o) {
		size_t i = e["i"].I() - 1; ostringstream ss; ss.precision(3); ss.setf(ios::fixed, ios::floatfield);
		if(w->s.at(i)) w->s[i]->RecordOffsets(ss); else w->p[i]->RecordOffsets(ss);
		ss << 1.5; istringstream is(ss.str()); string l; J rows = J::arr(); vector<string> ls; while(getline(is, l)) ls.push_back(l);
		o.set("kept", ls.size() && ls.back() == "1.500"); if(ls.size()) ls.pop_back();
		for(auto& x : ls) { istringstream r(x); double v; J row = J::arr(); while(r >> v) row.push(J(qt(v))); rows.push(row); }
		o.set("rows", rows); };
	// a process for each scenario
	ostringstream* sink = new ostringstream; cout.rdbuf(sink->rdbuf()); cerr.rdbuf(sink->rdbuf());
	if(argc < 3) return 3;
	ifstream in(argv[1]); long first = argc > 3 ? atol(argv[3]) : 0, scen = -1;
	if(argc <= 3) { ofstream t(argv[2], ios::trunc); }
	string line; vector<vector<string> > sc;
	while(getline(in, line)) { if(line.empty()) continue; if(parse(line)["op"].S() == "reset") { ++scen; sc.emplace_back(); } if(scen >= 0) sc.back().push_back(line); }
	for(size_t k = first; k < sc.size(); k++)
	{
		pid_t c = fork();
		if(c < 0) { fprintf(stderr, "fork\n"); return 3; }
		if(c == 0)
		{
			ofstream out(argv[2], ios::app);
			for(auto& ln : sc[k])
			{
				J e = parse(ln), res = e; string op = e["op"].S();
				try {
					if(op == "reset") d.reset();
					else {
						auto it = d.ops.find(op); if(it == d.ops.end()) { fprintf(stderr, "unknown op %s\n", op.c_str()); _exit(4); }
						it->second(e, res); res.set("now", seedNow());
					}
				} catch(runtime_error& x) {
					if(string(x.what()).find("missing field") == 0 || string(x.what()).find("json") == 0) { fprintf(stderr, "driver: %s in %s\n", x.what(), ln.c_str()); _exit(4); }
					res = J::obj(); res.set("op", J("uncaught")); res.set("at", J(op));
				} catch(exception& x) { res = J::obj(); res.set("op", J("uncaught")); res.set("at", J(op)); }
				out << res.str() << '\n'; out.flush();
			}
			_exit(0);
		}
		int st = 0; waitpid(c, &st, 0);
		if(WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); return 9; }
		if(WEXITSTATUS(st)) return WEXITSTATUS(st);
	}
	return 0;
}
