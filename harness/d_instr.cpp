// Klystrons, feedback, monitors (K02, K03, K04)
#include "vh.h"
#include "rat.h"
#include <memory>
#include <set>
#include <map>
#include "Klystron.h"
#include "TWRFStructure.h"
#include "SWRFStructure.h"
#include "TransverseRFStructure.h"
#include "LinearFBSystem.h"
#include "TLASimp.h"
#include "Channels.h"
#include "BPM.h"
#include "RMSProfileMonitor.h"
#include "BPMDataBufferServer.h"
#include "BPMChannel.h"
#include "ParticleBunch.h"
#include "ParticleTracker.h"
#include "AcceleratorModel.h"
#include "AcceleratorModelConstructor.h"
#include "Components.h"
#include "RandomNG.h"
#include "PhysicalConstants.h"
#include "NumericalConstants.h"
using namespace vh;
using namespace std;
using namespace ParticleTracking;

static double ang(const J& u) { return atan2(num(u[1]), num(u[0])); }
static Complex cx(const J& z) { return Complex(num(z[0]), num(z[1])); }

// ---- klystrons
static vector<unique_ptr<RFStructure> > cav;
static vector<unique_ptr<Klystron> > kly;
static J rfdump()
{
	J r = J::arr(); for(auto& c : cav) r.push(rat(c->GetVoltagePhasor())); return r;
}
static J kdump()
{
	J r = J::arr();
	for(auto& k : kly)
	{
		J o = J::arr(); o.push(rat(k->GetVoltage())); o.push(rat(polar(1.0, k->GetPhase()))); o.push(rat(k->GetVoltagePhasor())); o.push(J(k->GetNumberOfCavities()));
		r.push(o);
	}
	return r;
}

// ---- feedback
struct Plant { vector<double> act, sig; bool closed = false; vector<vector<double> > M; vector<double> d; int writes = 0; };
static Plant pl;
struct Sig : public ROChannel
{
	size_t n; Sig(size_t k) : n(k) {}
	double Read() const override
	{
		if(!pl.closed) return pl.sig[n];
		double s = pl.d[n]; for(size_t j = 0; j < pl.act.size(); j++) s += pl.M[n][j] * pl.act[j];
		return s;
	}
	string GetID() const override { return "s" + to_string(n); }
};
struct Act : public RWChannel
{
	size_t n; Act(size_t k) : n(k) {}
	double Read() const override { return pl.act[n]; }
	void Write(double v) override { pl.act[n] = v; pl.writes++; }
	string GetID() const override { return "a" + to_string(n); }
};
static unique_ptr<LinearFBSystem> fb;
static J vj(const vector<double>& v) { J r = J::arr(); for(double x : v) r.push(rat(x)); return r; }
static vector<double> nums(const J& v) { vector<double> r; for(size_t i = 0; i < v.size(); i++) r.push_back(num(v[i])); return r; }
static RealMatrix mat(const J& m)
{
	RealMatrix M(m.size(), m[0].size());
	for(size_t i = 0; i < m.size(); i++) for(size_t j = 0; j < m[0].size(); j++) M(i, j) = num(m[i][j]);
	return M;
}

// ---- monitors
struct Rec { int b, m; J d; };
static vector<Rec> recs;
static map<const void*, int> monId;
static bool raw = false; static vector<vector<double> > rawv;
struct BB : public BPM::Buffer
{
	int id; BB(int i) : id(i) {}
	void Record(const BPM& m, const BPM::Data& x) override
	{
		if(raw) { rawv.push_back({x.x.value, x.y.value}); return; }
		J o = J::arr(); for(double v : {x.x.value, x.y.value, x.x.error, x.y.error, x.ct}) o.push(rat(v));
		recs.push_back({id, monId.count(&m) ? monId[&m] : 0, o});
	}
};
struct PB : public RMSProfileMonitor::Buffer
{
	int id; PB(int i) : id(i) {}
	void Record(const RMSProfileMonitor& m, const RMSProfileMonitor::Data& x) override
	{
		if(raw) { rawv.push_back({x.x0.value, x.y0.value, x.u0.value, x.xrms.value, x.yrms.value, x.urms.value}); return; }
		J o = J::arr();
		for(double v : {x.x0.value, x.y0.value, x.u0.value, x.xrms.value * fabs(x.xrms.value), x.yrms.value * fabs(x.yrms.value), x.urms.value * fabs(x.urms.value), x.x0.error, x.y0.error, x.u0.error, x.xrms.error, x.yrms.error, x.urms.error}) o.push(rat(v));
		recs.push_back({id, monId.count(&m) ? monId[&m] : 0, o});
	}
};
struct Rsp : public BPM::Response
{
	int id; double a, b; Rsp(int i, double x, double y) : id(i), a(x), b(y) {}
	void Apply(BPM::Data* d) override { d->x.value = a * d->x.value + b; d->y.value = a * d->y.value - b; }
};
static vector<unique_ptr<Monitor> > mon;
static vector<BB> bbuf; static vector<PB> pbuf; static vector<Rsp> rsp;
static unique_ptr<BPMDataBufferServer> server;
static vector<BPMDataBuffer*> srv;
static unique_ptr<ParticleBunch> bunch;
static double P0 = 5;
static J take()
{
	J r = J::arr();
	stable_sort(recs.begin(), recs.end(), [](const Rec& a, const Rec& b) { return a.b < b.b; });
	for(auto& x : recs) { J o = J::arr(); o.push(J(x.b)); o.push(J(x.m)); o.push(x.d); r.push(o); }
	recs.clear(); return r;
}
static J mdump()
{
	J r = J::arr();
	for(auto& m : mon) { J o = J::arr(); o.push(J(m->IsActive())); o.push(J(m->IsReflected())); r.push(o); }
	return r;
}
static void newMon(Monitor* m) { mon.emplace_back(m); if(auto b = dynamic_cast<BPM*>(m)) monId[b] = mon.size(); else monId[dynamic_cast<RMSProfileMonitor*>(m)] = mon.size(); }
static void clear()
{
	kly.clear(); cav.clear(); fb.reset(); pl = Plant();
	BPM::SetDefaultBuffer(nullptr); RMSProfileMonitor::SetDefaultBuffer(nullptr); Monitor::all_inactive = false; BPM::generate_noise = true;
	recs.clear(); monId.clear(); mon.clear(); srv.clear(); server.reset(); bunch.reset(); raw = false; rawv.clear();
}
static bool sameBunch(const ParticleBunch& a, const vector<PSvector>& w, double p, double t)
{
	if(a.size() != w.size() || a.GetReferenceMomentum() != p || a.GetReferenceTime() != t) return false;
	size_t i = 0;
	for(auto it = a.begin(); it != a.end(); it++, i++) for(int k = 0; k < 6; k++) if((*it)[k] != w[i][k]) return false;
	return true;
}

int main(int argc, char** argv)
{
	Driver d;
	for(int i = 1; i <= 4; i++) { bbuf.emplace_back(i); pbuf.emplace_back(i); }
	rsp.emplace_back(1, 2, 1); rsp.emplace_back(2, -1, 0.5);
	d.reset = [] { clear(); };
	auto kd = [](J& o) { o.set("cav", rfdump()).set("kly", kdump()); };
	d.ops["cavities"] = [=](const J& e, J& o) {
		clear();
		for(size_t i = 0; i < e["z"].size(); i++)
		{
			string ty = e["ty"][i].S(), nm = "c" + to_string(i); double f = 1.5e9; RFStructure* c;
			if(ty == "TW") c = new TWRFStructure(nm, num(e["len"][i]), f, 1.0, 0.0); else if(ty == "SW") c = new SWRFStructure(nm, 3, f, 1.0, 0.0); else c = new TransverseRFStructure(nm, num(e["len"][i]), f, 1.0, 0.0, 0.25);
			cav.emplace_back(c); c->SetVoltagePhasor(cx(e["z"][i]));
		}
		kd(o);
	};
	d.ops["klystron"] = [=](const J& e, J& o) {
		vector<RFStructure*> cs; for(size_t i = 0; i < e["cs"].size(); i++) cs.push_back(cav.at(e["cs"][i].I() - 1).get());
		Klystron* k = e["mode"].S() == "sum" ? new Klystron("k", cs, Klystron::vector_sum) : e["dflt"].B() ? new Klystron("k", cs) : new Klystron("k", cs, Klystron::balanced);
		kly.emplace_back(k); o.set("name", J(k->GetName() + "/" + k->GetType())); kd(o);
	};
	d.ops["kcopy"] = [=](const J& e, J& o) { Klystron* k = kly.at(e["k"].I() - 1)->Copy(); kly.emplace_back(k); o.set("name", J(k->GetName() + "/" + k->GetType())); kd(o); };
	d.ops["volt"] = [=](const J& e, J& o) { Klystron& k = *kly.at(e["k"].I() - 1); double p = k.GetPhase(), v = num(e["v"]); k.SetVoltage(v); o.set("same", J(k.GetVoltage() == v && k.GetPhase() == p)); kd(o); };
	d.ops["phase"] = [=](const J& e, J& o) { Klystron& k = *kly.at(e["k"].I() - 1); double v = k.GetVoltage(), p = ang(e["u"]) + twoPi * e["turn"].I(); k.SetPhase(p); o.set("same", J(k.GetVoltage() == v && k.GetPhase() == p)); kd(o); };
	d.ops["phasor"] = [=](const J& e, J& o) { Klystron& k = *kly.at(e["k"].I() - 1); k.SetVoltagePhasor(num(e["v"]) * cx(e["u"])); kd(o); };
	d.ops["cav"] = [=](const J& e, J& o) {
		RFStructure& c = *cav.at(e["c"].I() - 1); string how = e["how"].S();
		if(how == "phasor") c.SetVoltagePhasor(num(e["v"]) * cx(e["u"])); else if(how == "volt") c.SetVoltage(num(e["v"])); else if(how == "both") { c.SetVoltage(num(e["v"])); c.SetPhase(ang(e["u"])); } else { c.SetAmplitude(num(e["v"]) / c.GetLength()); c.SetPhase(ang(e["u"])); }
		kd(o);
	};

	auto fd = [](J& o) {
		o.set("act", vj(pl.act)).set("writes", J(pl.writes)); pl.writes = 0;
		if(fb)
		{
			double s = fb->GetSignalRMS(), a = fb->GetActuatorRMS();
			o.set("gain", rat(fb->GetGain())).set("sr2", rat(s * fabs(s))).set("ar2", rat(a * fabs(a))).set("ns", J(fb->GetNumSignals())).set("na", J(fb->GetNumActuators()));
		}
	};
	d.ops["system"] = [=](const J& e, J& o) {
		clear(); pl.sig = nums(e["sig"]); pl.act = nums(e["act"]);
		vector<ROChannel*> s; vector<RWChannel*> a; for(size_t i = 0; i < pl.sig.size(); i++) s.push_back(new Sig(i)); for(size_t i = 0; i < pl.act.size(); i++) a.push_back(new Act(i));
		if(e["arrays"].B()) { ROChannelArray sa(s); RWChannelArray aa(a); fb.reset(new LinearFBSystem(sa, aa, mat(e["M"]))); }
		else fb.reset(new LinearFBSystem(s, a, mat(e["M"])));
		fd(o);
	};
	d.ops["response"] = [=](const J& e, J& o) { bool bad = false; try { fb->SetResponseMatrix(mat(e["M"])); } catch(TLAS::SingularValuesAllZero&) { bad = true; } o.set("refused", J(bad)); fd(o); };
	d.ops["signals"] = [=](const J& e, J& o) { pl.closed = false; pl.sig = nums(e["v"]); fd(o); };
	d.ops["plant"] = [=](const J& e, J& o) { pl.closed = true; pl.d = nums(e["d"]); pl.M.clear(); for(size_t i = 0; i < e["M"].size(); i++) pl.M.push_back(nums(e["M"][i])); fd(o); };
	d.ops["actuators"] = [=](const J& e, J& o) { pl.act = nums(e["v"]); fd(o); };
	d.ops["apply"] = [=](const J& e, J& o) { fb->Apply(); fd(o); };
	d.ops["gain"] = [=](const J& e, J& o) { fb->SetGain(num(e["g"])); fd(o); };
	d.ops["setpoints"] = [=](const J& e, J& o) { auto v = nums(e["v"]); RealVector w(v.size()); for(size_t i = 0; i < v.size(); i++) w[i] = v[i]; fb->SetSetpoints(w); fd(o); };
	d.ops["nominal"] = [=](const J& e, J& o) { fb->SignalsToSetpoints(); fd(o); };
	d.ops["delay"] = [=](const J& e, J& o) { fb->SetPulseDelay(e["n"].I()); fd(o); };
	d.ops["store"] = [=](const J& e, J& o) { fb->StoreActuators(); fd(o); };
	d.ops["restore"] = [=](const J& e, J& o) { fb->RestoreActuators(); fd(o); };

	auto md = [](J& o) {
		J s = J::arr(); for(auto b : srv) { BPMChannel cx('X', b), cy('Y', b); J p = J::arr(); p.push(rat(cx.Read())); p.push(rat(cy.Read())); s.push(p); }
		o.set("recs", take()).set("mon", mdump()).set("srv", s);
	};
	d.ops["monitors"] = [=](const J& e, J& o) {
		clear(); server.reset(new BPMDataBufferServer);
		BPM::generate_noise = e["noise"].B();
		for(size_t i = 0; i < e["m"].size(); i++)
		{
			const J& m = e["m"][i]; string nm = "m" + to_string(i + 1); double len = num(m["len"]), mp = num(m["mp"]);
			if(m["ty"].S() == "BPM") newMon(new BPM(nm, len, mp)); else newMon(m["ang"].S() == "dflt" ? new RMSProfileMonitor(nm) : new RMSProfileMonitor(nm, m["ang"].S() == "0" ? 0 : m["ang"].S() == "90" ? pi / 2 : atan2(num(m["u"][1]), num(m["u"][0])), len, mp));
		}
		md(o);
	};
	d.ops["mcopy"] = [=](const J& e, J& o) { ModelElement* m = mon.at(e["m"].I() - 1)->Copy(); o.set("name", J(m->GetName() + "/" + m->GetType())); newMon(dynamic_cast<Monitor*>(m)); md(o); };
	d.ops["attach"] = [=](const J& e, J& o) { Monitor* m = mon.at(e["m"].I() - 1).get(); int b = e["b"].I() - 1; if(auto x = dynamic_cast<BPM*>(m)) x->AddBuffer(&bbuf[b]); else dynamic_cast<RMSProfileMonitor&>(*m).AddBuffer(&pbuf[b]); md(o); };
	d.ops["detach"] = [=](const J& e, J& o) { Monitor* m = mon.at(e["m"].I() - 1).get(); int b = e["b"].I() - 1; o.set("had", J(dynamic_cast<BPM*>(m) ? dynamic_cast<BPM*>(m)->RemoveBuffer(&bbuf[b]) : dynamic_cast<RMSProfileMonitor&>(*m).RemoveBuffer(&pbuf[b]))); md(o); };
	d.ops["clearbuf"] = [=](const J& e, J& o) { Monitor* m = mon.at(e["m"].I() - 1).get(); if(auto x = dynamic_cast<BPM*>(m)) x->ClearAllBuffers(); else dynamic_cast<RMSProfileMonitor&>(*m).RemoveAllBuffers(); md(o); };
	d.ops["default"] = [=](const J& e, J& o) { int b = e["b"].I() - 1; if(e["ty"].S() == "BPM") BPM::SetDefaultBuffer(b < 0 ? nullptr : &bbuf[b]); else RMSProfileMonitor::SetDefaultBuffer(b < 0 ? nullptr : &pbuf[b]); md(o); };
	d.ops["active"] = [=](const J& e, J& o) { o.set("was", J(mon.at(e["m"].I() - 1)->SetActive(e["on"].B()))); md(o); };
	d.ops["alloff"] = [=](const J& e, J& o) { Monitor::all_inactive = e["on"].B(); md(o); };
	d.ops["turn"] = [=](const J& e, J& o) { Monitor& m = *mon.at(e["m"].I() - 1); if(e["how"].S() == "Y180") m.RotateY180(); else o.set("was", J(m.SetReflected(e["how"].S() == "on"))); md(o); };
	d.ops["scale"] = [=](const J& e, J& o) { dynamic_cast<BPM&>(*mon.at(e["m"].I() - 1)).SetScale(num(e["x"]), num(e["y"])); md(o); };
	d.ops["noise"] = [=](const J& e, J& o) { BPM::generate_noise = e["on"].B(); md(o); };
	d.ops["res"] = [=](const J& e, J& o) {
		Monitor* m = mon.at(e["m"].I() - 1).get();
		if(auto x = dynamic_cast<BPM*>(m)) { if(e["one"].B()) o.set("ret", rat(x->SetRes(num(e["x"])))); else x->SetResolution(num(e["x"]), num(e["y"])); } else dynamic_cast<RMSProfileMonitor&>(*m).SetResolution(num(e["x"]), num(e["y"]), num(e["u"]));
		md(o);
	};
	d.ops["resp"] = [=](const J& e, J& o) { int r = e["r"].I(); BPM::Response* w = dynamic_cast<BPM&>(*mon.at(e["m"].I() - 1)).SetResponse(r ? &rsp[r - 1] : nullptr); o.set("was", J(w ? dynamic_cast<Rsp*>(w)->id : 0)); md(o); };
	d.ops["server"] = [=](const J& e, J& o) {
		BPMDataBuffer* b = server->GetDataBuffer(dynamic_cast<BPM*>(mon.at(e["m"].I() - 1).get()), e["create"].B()); int k = 0;
		if(b) { for(size_t i = 0; i < srv.size(); i++) if(srv[i] == b) k = i + 1; if(!k) { srv.push_back(b); k = srv.size(); } }
		o.set("k", J(k)); md(o);
	};
	d.ops["bunch"] = [=](const J& e, J& o) {
		bunch.reset(new ParticleBunch(P0, 1.0)); bunch->SetReferenceTime(num(e["ct"]));
		for(size_t i = 0; i < e["p"].size(); i++) { PSvector p(0); p.x() = num(e["p"][i][0]); p.xp() = num(e["p"][i][1]); p.y() = num(e["p"][i][2]); p.yp() = num(e["p"][i][3]); p.ct() = 0.125 * i; p.dp() = 0.0625 * i; bunch->AddParticle(p); }
		md(o);
	};
	d.ops["measure"] = [=](const J& e, J& o) {
		vector<PSvector> w(bunch->begin(), bunch->end()); double p = bunch->GetReferenceMomentum(), t = bunch->GetReferenceTime();
		mon.at(e["m"].I() - 1)->MakeMeasurement(*bunch); o.set("kept", J(sameBunch(*bunch, w, p, t))); md(o);
	};
	d.ops["pass"] = [=](const J& e, J& o) { // the bunch goes through the monitors of a line
		AcceleratorModelConstructor c; c.NewModel(); vector<Monitor*> ms;
		if(num(e["before"]) > 0) c.AppendComponent(new Drift("d", num(e["before"])));
		for(size_t i = 0; i < e["ms"].size(); i++)
		{
			Monitor* m = dynamic_cast<Monitor*>(mon.at(e["ms"][i].I() - 1)->Copy());
			if(auto x = dynamic_cast<BPM*>(m)) { monId[x] = e["ms"][i].I(); c.AppendComponent(x); } else { auto y = dynamic_cast<RMSProfileMonitor*>(m); monId[y] = e["ms"][i].I(); c.AppendComponent(y); }
			ms.push_back(m);
		}
		unique_ptr<AcceleratorModel> model(c.GetModel());
		ParticleBunch b(P0, 1.0); b.SetReferenceTime(bunch->GetReferenceTime());
		for(auto& p : *bunch) b.AddParticle(p);
		ParticleTracker t(model->GetBeamline(), &b); t.Run();
		for(auto m : ms) { if(auto x = dynamic_cast<BPM*>(m)) monId.erase(x); else monId.erase(dynamic_cast<RMSProfileMonitor*>(m)); }
		md(o);
	};
	d.ops["spread"] = [=](const J& e, J& o) { // many measurements with noise: mean and variance of each value, in units of the resolution
		Monitor* m = mon.at(e["m"].I() - 1).get(); int n = e["n"].I(); raw = true; rawv.clear(); RandomNG::init(e["seed"].I());
		for(int i = 0; i < n; i++) m->MakeMeasurement(*bunch);
		J r = J::arr();
		for(size_t k = 0; rawv.size() && k < rawv[0].size(); k++)
		{
			double s = 0, q = 0, x0 = num(e["at"][k]), u = num(e["unit"][k]); bool same = true;
			if(e["sq"].B() && k > 2) x0 = sqrt(x0);
			for(auto& v : rawv) { double z = u ? (v[k] - x0) / u : (v[k] - x0); s += z; q += z * z; if(v[k] != rawv[0][k]) same = false; }
			s /= n; q = q / n - s * s;
			J p = J::arr(); p.push(J((long long) llround(max(-1e6, min(1e6, 100 * s))))); p.push(J((long long) llround(min(1e6, 100 * q)))); p.push(J(same)); r.push(p);
		}
		o.set("got", r).set("count", J(rawv.size())); raw = false; rawv.clear(); md(o);
	};
	return d.main(argc, argv);
}
