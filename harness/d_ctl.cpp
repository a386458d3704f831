// Magnet fields, corrector windings, channels (K01, K05)
#include "vh.h"
#include "rat.h"
#include <memory>
#include "AcceleratorModel.h"
#include "AcceleratorModelConstructor.h"
#include "Components.h"
#include "Channels.h"
#include "RWChannelState.h"
#include "BPMChannel.h"
#include "CorrectorWinding.h"
#include "MagnetMover.h"
#include "ParticleBunch.h"
#include "BPM.h"
#include "TWRFStructure.h"
#include "SWRFStructure.h"
#include "TransverseRFStructure.h"
#include "Solenoid.h"
#include "PhysicalConstants.h"
#include "NumericalConstants.h"
using namespace vh;
using namespace std;
static const double C = PhysicalConstants::SpeedOfLight;

struct El { ModelElement* e; string ty, nm; };
static vector<El> els;
static unique_ptr<AcceleratorModel> model;
static vector<unique_ptr<ROChannelArray> > arr;
static vector<RWChannelArray*> rw; // of arr, null where read only
static vector<unique_ptr<RWChannelState> > st;

static MultipoleField* fld(ModelElement* e)
{
	if(auto m = dynamic_cast<RectMultipole*>(e)) return &m->GetField();
	if(auto m = dynamic_cast<SectorBend*>(e)) return &m->GetField();
	return nullptr;
}
static J dump()
{
	J r = J::arr();
	for(auto& x : els)
	{
		J o = J::arr();
		if(auto f = fld(x.e))
		{
			const MultipoleField& g = *f; J c = J::arr();
			for(int n = 0; n < 8; n++) c.push(rat(g.GetCoefficient(n)));
			o.push(rat(g.GetFieldScale())); o.push(c);
		}
		else if(auto w = dynamic_cast<CorrectorWinding*>(x.e)) { o.push(rat(w->GetBy())); o.push(rat(w->GetBx())); }
		else if(auto s = dynamic_cast<Solenoid*>(x.e)) o.push(rat(s->GetBz()));
		else if(auto m = dynamic_cast<MagnetMover*>(x.e)) { o.push(rat(m->GetX())); o.push(rat(m->GetY())); o.push(rat(m->GetRoll())); }
		else if(auto c = dynamic_cast<RFStructure*>(x.e))
		{
			o.push(rat(c->GetAmplitude())); o.push(rat(c->GetPhase())); o.push(rat(c->GetFrequency() / C));
			if(auto t = dynamic_cast<TransverseRFStructure*>(c)) o.push(rat(t->GetFieldOrientation()));
		}
		r.push(o);
	}
	return r;
}
static ModelElement* make(const J& d)
{
	string ty = d["ty"].S(), nm = d["nm"].S(), how = d["how"].S(); double l = num(d["len"]), v = num(d["v"]), r = num(d["r"]);
	bool g = how == "grad";
	if(ty == "Quadrupole") return g ? new Quadrupole(nm, l, v) : new Quadrupole(nm, l, v, r);
	if(ty == "Sextupole") return g ? new Sextupole(nm, l, v) : new Sextupole(nm, l, v, r);
	if(ty == "Octupole") return g ? new Octupole(nm, l, v) : new Octupole(nm, l, v, r);
	if(ty == "Decapole") return g ? new Decapole(nm, l, v) : new Decapole(nm, l, v, r);
	if(ty == "SkewQuadrupole") return g ? new SkewQuadrupole(nm, l, v) : new SkewQuadrupole(nm, l, v, r);
	if(ty == "SkewSextupole") return g ? new SkewSextupole(nm, l, v) : new SkewSextupole(nm, l, v, r);
	if(ty == "XCor") return new XCor(nm, l, v);
	if(ty == "YCor") return new YCor(nm, l, v);
	if(ty == "SectorBend") return new SectorBend(nm, l, 0.25, v);
	if(ty == "Solenoid") return new Solenoid(nm, l, v);
	if(ty == "MagnetMover") return new MagnetMover(nm);
	if(ty == "TWRFStructure") return new TWRFStructure(nm, l, num(d["k"]) * C, v, num(d["phi"]));
	if(ty == "SWRFStructure") return new SWRFStructure(nm, 3, num(d["k"]) * C, v, num(d["phi"]));
	if(ty == "TransverseRFStructure") return new TransverseRFStructure(nm, l, num(d["k"]) * C, v, num(d["phi"]), num(d["roll"]));
	if(ty == "CorrectorWinding") return new CorrectorWinding(*dynamic_cast<RectMultipole*>(els.at(d["m"].I() - 1).e));
	if(ty == "BPM") return new BPM(nm, l);
	return new Drift(nm, l);
}
static double unit(const string& key) { return key == "K" ? twoPi : 1; }
static J chid(const string& id, string* key = nullptr)
{
	for(size_t i = 0; i < els.size(); i++)
	{
		string p = els[i].ty + "." + els[i].nm + ".";
		if(id.size() > p.size() && id.compare(0, p.size(), p) == 0 && id.find('.', p.size()) == string::npos)
		{
			J r = J::arr(); r.push(J((long long) i + 1)); r.push(J(id.substr(p.size()))); return r;
		}
	}
	return J(id);
}
static string keyOf(const string& id) { return id.substr(id.rfind('.') + 1); }
static vector<double> scaled(const ROChannelArray& a, const J& vs)
{
	vector<double> r;
	for(size_t i = 0; i < vs.size(); i++) r.push_back(num(vs[i]) * unit(keyOf(a[i].GetID())));
	return r;
}
static RealVector vec(const vector<double>& v) { RealVector r(v.size()); for(size_t i = 0; i < v.size(); i++) r[i] = v[i]; return r; }
struct Get { vector<ROChannel*> ro; vector<RWChannel*> rw; size_t n; };
static Get channels(const J& e)
{
	Get g; string pat = e["tp"].S() + "." + e["id"].S() + "." + e["key"].S();
	if(e["line"].B())
	{
		auto bl = e["b"].I() < 0 ? model->GetBeamline() : model->GetBeamline((size_t) e["a"].I(), (size_t) e["b"].I());
		g.n = e["rw"].B() ? model->GetRWChannels(bl, pat, g.rw) : model->GetROChannels(bl, pat, g.ro);
	}
	else g.n = e["rw"].B() ? model->GetRWChannels(pat, g.rw) : model->GetROChannels(pat, g.ro);
	return g;
}
static void clear() { arr.clear(); rw.clear(); st.clear(); els.clear(); model.reset(); }

int main(int argc, char** argv)
{
	Driver d;
	d.reset = [] { clear(); BPM::generate_noise = false; Monitor::all_inactive = false; BPM::SetDefaultBuffer(nullptr); };
	auto done = [](J& o) { o.set("els", dump()); };
	d.ops["build"] = [=](const J& e, J& o) {
		clear(); AcceleratorModelConstructor c; c.NewModel();
		bool inFrame = false;
		for(size_t i = 0; i < e["el"].size(); i++)
		{
			const J& x = e["el"][i]; ModelElement* m = make(x); els.push_back({m, x["ty"].S(), x["nm"].S()});
			if(!x["mod"].I()) continue;
			if(auto mv = dynamic_cast<MagnetMover*>(m)) { c.NewFrame(mv); inFrame = true; continue; }
			if(auto a = dynamic_cast<AcceleratorComponent*>(m))
			{
#define T(X) if(auto y = dynamic_cast<X*>(a)) { c.AppendComponent(y); goto ok; }
				T(Quadrupole) T(Sextupole) T(Octupole) T(Decapole) T(SkewQuadrupole) T(SkewSextupole) T(XCor) T(YCor) T(SectorBend) T(Solenoid)
				T(TWRFStructure) T(SWRFStructure) T(TransverseRFStructure) T(BPM) T(Drift)
#undef T
				ok:;
				if(inFrame) { c.EndFrame(); inFrame = false; }
			}
			else c.AddModelElement(m);
		}
		model.reset(c.GetModel()); done(o);
	};
	d.ops["get"] = [=](const J& e, J& o) {
		Get g = channels(e); J ids = J::arr();
		if(e["rw"].B()) { for(auto c : g.rw) ids.push(chid(c->GetID())); auto a = e["late"].B() ? new RWChannelArray() : new RWChannelArray(g.rw); if(e["late"].B()) a->SetChannels(g.rw); arr.emplace_back(a); rw.push_back(a); }
		else { for(auto c : g.ro) ids.push(chid(c->GetID())); auto a = e["late"].B() ? new ROChannelArray() : new ROChannelArray(g.ro); if(e["late"].B()) a->SetChannels(g.ro); arr.emplace_back(a); rw.push_back(nullptr); }
		o.set("ids", ids).set("count", J(g.n)).set("size", J(arr.back()->Size())); done(o);
	};
	d.ops["move"] = [=](const J& e, J& o) { // the channels go to a new array
		size_t k = e["k"].I() - 1;
		if(rw[k]) { auto a = new RWChannelArray(*rw[k]); o.set("left", J(arr[k]->Size())); arr[k].reset(a); rw[k] = a; }
		else { auto a = new ROChannelArray(*arr[k]); o.set("left", J(arr[k]->Size())); arr[k].reset(a); }
		done(o);
	};
	d.ops["read"] = [=](const J& e, J& o) {
		ROChannelArray& a = *arr.at(e["k"].I() - 1); RealVector v(a.Size()); J w = J::arr(); string how = e["how"].S();
		if(how == "all") a.ReadAll(v); else if(how == "conv") v = (RealVector) a; else for(size_t i = 0; i < a.Size(); i++) v[i] = how == "n" ? a.Read(i) : a[i].Read();
		for(size_t i = 0; i < a.Size(); i++) w.push(rat(v[i] / unit(keyOf(a[i].GetID()))));
		o.set("got", w); done(o);
	};
	d.ops["write"] = [=](const J& e, J& o) {
		size_t k = e["k"].I() - 1; RWChannelArray& a = *rw.at(k); auto v = scaled(a, e["v"]); string how = e["how"].S(); bool inc = e["inc"].B();
		if(how == "vec") { if(inc) a.IncrementAll(vec(v)); else a.WriteAll(vec(v)); }
		else if(how == "assign") { if(inc) a.IncrementAll(vec(v)); else a = vec(v); }
		else if(how == "scalar") { if(inc) a.IncrementAll(num(e["v"][0])); else a.WriteAll(num(e["v"][0])); }
		else if(how == "n") for(size_t i = 0; i < v.size(); i++) { if(inc) a.Increment(i, v[i]); else a.Write(i, v[i]); }
		else for(size_t i = 0; i < v.size(); i++) { auto& c = static_cast<RWChannel&>(a[i]); if(inc) c.Increment(v[i]); else c.Write(v[i]); }
		done(o);
	};
	d.ops["write1"] = [=](const J& e, J& o) {
		size_t k = e["k"].I() - 1, i = e["i"].I() - 1; RWChannelArray& a = *rw.at(k); double u = unit(keyOf(a[i].GetID())), v = num(e["v"]) * u;
		if(e["how"].S() == "n") { if(e["inc"].B()) a.Increment(i, v); else a.Write(i, v); }
		else { auto& c = static_cast<RWChannel&>(a[i]); if(e["inc"].B()) o.set("ret", rat(c.Increment(v) / u)); else c.Write(v); }
		done(o);
	};
	d.ops["state"] = [=](const J& e, J& o) {
		Get g = channels(e); J ids = J::arr(); for(auto c : g.rw) ids.push(chid(c->GetID()));
		st.emplace_back(new RWChannelState(g.rw)); o.set("ids", ids).set("count", J(g.n)).set("size", J(g.rw.size())); done(o);
	};
	d.ops["cache"] = [=](const J& e, J& o) { st.at(e["k"].I() - 1)->CacheCurrentState(); done(o); };
	d.ops["restore"] = [=](const J& e, J& o) { st.at(e["k"].I() - 1)->Reset(); done(o); };
	d.ops["offset"] = [=](const J& e, J& o) { dynamic_cast<BPMChannel&>((*arr.at(e["k"].I() - 1))[(size_t) e["i"].I() - 1]).SetBPMOffset(num(e["v"])); done(o); };
	d.ops["measure"] = [=](const J& e, J& o) {
		ParticleTracking::ParticleBunch b(5.0, 1.0); PSvector p(0); p.x() = num(e["x"]); p.y() = num(e["y"]); b.AddParticle(p);
		dynamic_cast<BPM*>(els.at(e["e"].I() - 1).e)->MakeMeasurement(b); done(o);
	};
	d.ops["scale"] = [=](const J& e, J& o) {
		ModelElement* m = els.at(e["e"].I() - 1).e; double v = num(e["v"]);
		if(e["how"].S() == "strength") { if(auto r = dynamic_cast<RectMultipole*>(m)) r->SetFieldStrength(v); else dynamic_cast<SectorBend*>(m)->SetFieldStrength(v); }
		else fld(m)->SetFieldScale(v);
		done(o);
	};
	d.ops["comp"] = [=](const J& e, J& o) {
		MultipoleField& f = *fld(els.at(e["e"].I() - 1).e); int n = e["n"].I(); double r = num(e["r"]);
		if(r == 1 && num(e["v"][1]) == 0 && e["how"].S() == "short") f.SetComponent(n, num(e["v"][0])); else f.SetComponent(n, num(e["v"][0]), num(e["v"][1]), r);
		done(o);
	};
	d.ops["coef"] = [=](const J& e, J& o) { fld(els.at(e["e"].I() - 1).e)->SetCoefficient(e["n"].I(), Complex(num(e["v"][0]), num(e["v"][1])), num(e["r"])); done(o); };
	d.ops["wind"] = [=](const J& e, J& o) { auto& w = dynamic_cast<CorrectorWinding&>(*els.at(e["e"].I() - 1).e); if(e["pl"].S() == "X") w.SetBx(num(e["v"])); else w.SetBy(num(e["v"])); done(o); };
	d.ops["newwind"] = [=](const J& e, J& o) { auto m = dynamic_cast<RectMultipole*>(els.at(e["e"].I() - 1).e); auto w = new CorrectorWinding(*m); els.push_back({w, "CorrectorWinding", w->GetName() + "~"}); o.set("name", J(w->GetName())); done(o); };
	d.ops["set"] = [=](const J& e, J& o) {
		ModelElement* m = els.at(e["e"].I() - 1).e; string k = e["key"].S(); double v = num(e["v"]);
		if(auto x = dynamic_cast<Solenoid*>(m)) x->SetBz(v);
		else if(auto x = dynamic_cast<SectorBend*>(m)) { if(k == "B0") x->SetB0(v); else x->SetB1(v); }
		else if(auto x = dynamic_cast<MagnetMover*>(m)) { if(k == "X") x->SetX(v); else if(k == "Y") x->SetY(v); else x->SetRoll(v); }
		else if(auto x = dynamic_cast<RFStructure*>(m))
		{
			if(k == "E") x->SetAmplitude(v); else if(k == "Phi") x->SetPhase(v); else if(k == "Lambda") x->SetWavelength(v); else if(k == "K") x->SetK(v * twoPi);
			else dynamic_cast<TransverseRFStructure&>(*m).SetFieldOrientation(v);
		}
		done(o);
	};
	d.ops["copy"] = [=](const J& e, J& o) { const El& x = els.at(e["e"].I() - 1); El y = {x.e->Copy(), x.ty, x.nm + "~"}; els.push_back(y); o.set("name", J(y.e->GetName())).set("type", J(y.e->GetType())); done(o); };
	d.ops["look"] = [=](const J& e, J& o) {
		ModelElement* m = els.at(e["e"].I() - 1).e; const MultipoleField& f = *fld(m); string w = e["what"].S(); int n = e["n"].I();
		int hi = f.HighestMultipole(); J g = J::arr(); double x = num(e["z"][0]), y = num(e["z"][1]), r = num(e["r"]);
		if(w == "comp") g = rat(f.GetComponent(n, r)); else if(w == "coef") g = rat(f.GetCoefficient(n, r)); else if(w == "kn") g = rat(f.GetKn(n, r));
		else if(w == "field") g = rat(n < 0 ? f.GetField2D(x, y) : f.GetField2D(x, y, n));
		else if(w == "b") { Vector3D b = f.GetBFieldAt(Point3D(x, y, 1), n); Vector3D E = f.GetEFieldAt(Point3D(x, y, 1), n); for(double c : {b.x, b.y, b.z, E.x, E.y, E.z}) g.push(rat(c)); }
		else if(w == "force") { Vector3D F = f.GetForceAt(Point3D(x, y, 1), Vector3D(num(e["v"][0]), num(e["v"][1]), num(e["v"][2])), r, 2); for(double c : {F.x, F.y, F.z}) g.push(rat(c)); }
		int top = -1; for(int k = 0; k < 8; k++) if(f.GetCoefficient(k) != Complex(0, 0)) top = k;
		o.set("got", g).set("quiet", J(hi == f.HighestMultipole())).set("covers", J(hi >= top)); done(o);
	};
	return d.main(argc, argv);
}
