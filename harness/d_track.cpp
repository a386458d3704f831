// Conformance driver: tracking runs, bunch processes and their steps, component trackers.
#include "vh.h"
#include <memory>
#include <set>
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "SequenceFrame.h"
#include "TComponentFrame.h"
#include "PatchFrame.h"
#include "GeometryPatch.h"
#include "Drift.h"
#include "StandardMultipoles.h"
#include "SectorBend.h"
#include "Solenoid.h"
#include "Marker.h"
#include "Monitor.h"
#include "MagnetMover.h"
#include "SupportStructure.h"
#include "ProcessStepManager.h"
#include "ParticleBunch.h"
#include "ParticleBunchProcess.h"
#include "ParticleTracker.h"
#include "StdIntegrators.h"
#include "SymplecticIntegrators.h"
using namespace vh;
using namespace ParticleTracking;
static const double U = 0.5, PI = 3.14159265358979323846;
static std::map<long long, LatticeFrame*> nodes;
static AcceleratorModel* model;
static ParticleTracker* sim;
static std::vector<ParticleBunch*> sources;
static J calls, recs;
static std::map<const AcceleratorComponent*, long long> cid;

static J ray(const PSvector& p)
{
	J a = J::arr();
	a.push(J(q(p.x(), U))).push(J(q(p.xp()))).push(J(q(p.y(), U))).push(J(q(p.yp())));
	return a;
}
static J rays(const Bunch& b)
{
	J a = J::arr();
	for(auto& p : static_cast<const ParticleBunch&>(b).GetParticles()) a.push(ray(p));
	return a;
}
static PSvector ps(const J& r)
{
	PSvector p(0);
	p.x() = r[0].D() * U; p.xp() = r[1].D(); p.y() = r[2].D() * U; p.yp() = r[3].D();
	return p;
}
static ParticleBunch* mkbunch(const J& rs)
{
	ParticleBunch* b = new ParticleBunch(10.0, 1.0);
	for(auto& r : rs.a) b->AddParticle(ps(r));
	return b;
}

// a process that records what it sees
struct Rec: public BunchProcess
{
	long long id, thr; std::string act, lim; double g, unit;
	double s = 0; int n = 0; Bunch* b = nullptr;
	Rec(const J& p, double u) : BunchProcess("P" + std::to_string(p["id"].I()), (int) p["pr"].I()), id(p["id"].I()), thr(p["thr"].I()),
		act(p["act"].S()), lim(p["lim"].S()), g(p["g"].D() * u), unit(u) {}
	void InitialiseProcess(Bunch& bb) { b = &bb; J c = J::arr(); c.push(J("init")).push(J(id)); calls.push(c); }
	void SetCurrentComponent(AcceleratorComponent& c)
	{
		currentComponent = &c; s = 0; n = 0;
		active = act == "always" || act == "once" || (act == "quad" && dynamic_cast<Quadrupole*>(&c)) || (act == "long" && c.GetLength() > 3.5 * unit);
		J x = J::arr(); x.push(J("set")).push(J(id)).push(J(cid.at(&c))); calls.push(x);
	}
	void DoProcess(double ds)
	{
		if(currentComponent->GetLength() > 0 && ds != 0 && ds < 1e-9) { s += ds; return; } // rounding at the end of a component
		J x = J::arr();
		x.push(J("do")).push(J(id)).push(J(cid.at(currentComponent))).push(J(q(s, unit))).push(J(q(ds, unit)));
		if(b) x.push(rays(*b));
		calls.push(x); s += ds; ++n;
		if(thr && thr == cid.at(currentComponent)) throw MerlinException("stop");
		if(act == "once") active = false;
	}
	double GetMaxAllowedStepSize() const
	{
		if(lim == "max") return g;
		if(lim == "grid") return (std::floor(s / g + 1e-6) + 1) * g - s;
		if(lim == "ent") return n == 0 ? 0 : 1e9;
		return 1e9;
	}
};
static std::map<long long, Rec*> procs;

// output of the simulation
struct Out: public SimulationOutput
{
	void Record(const ComponentFrame* f, const Bunch* b)
	{
		J x = J::arr(); x.push(J(cid.at(&f->GetComponent()))).push(J(q(b->GetReferenceTime(), U))).push(rays(*b)); recs.push(x);
	}
	void RecordInitialBunch(const Bunch* b) { J x = J::arr(); x.push(J(-1)).push(J(q(b->GetReferenceTime(), U))).push(rays(*b)); recs.push(x); }
	void RecordFinalBunch(const Bunch* b) { J x = J::arr(); x.push(J(-2)).push(J(q(b->GetReferenceTime(), U))).push(rays(*b)); recs.push(x); }
};
static Out* out;

template<class F> static void ops(F& f, const J& os)
{
	for(auto& o : os.a)
	{
		std::string t = o["t"].S();
		if(t == "shift") f.Translate(o["v"][0].D() * U, o["v"][1].D() * U, o["v"][2].D() * U);
		else if(t == "x") f.RotateX(o["k"].D() * PI / 2);
		else if(t == "y") f.RotateY(o["k"].D() * PI / 2);
		else f.RotateZ(o["k"].D() * PI / 2);
	}
}
static LatticeFrame* mk(const J& arr, long long id)
{
	const J& n = arr[(size_t) id - 1];
	std::string k = n["k"].S(), nm = "n" + std::to_string(id);
	LatticeFrame* f;
	if(k == "rect")
	{
		std::string ty = n["ty"].S(); double L = n["len"].D() * U;
		if(ty == "Quadrupole") { auto c = new Quadrupole(nm, L, 0.0); cid[c] = id; f = new TComponentFrame<Quadrupole>(*c); }
		else if(ty == "Marker") { auto c = new Marker(nm); cid[c] = id; f = new TComponentFrame<Marker>(*c); }
		else if(ty == "Monitor") { auto c = new Monitor(nm, L, 0.0); cid[c] = id; f = new TComponentFrame<Monitor>(*c); }
		else { auto c = new Drift(nm, L); cid[c] = id; f = new TComponentFrame<Drift>(*c); }
	}
	else if(k == "patch") { GeometryPatch* g = new GeometryPatch; ops(*g, n["ops"]); f = new PatchFrame(g, nm); }
	else
	{
		SequenceFrame* s;
		if(k == "seq") { long long o = n["org"].I(); s = new SequenceFrame(nm, o == 0 ? SequenceFrame::originAtEntrance : o == 1 ? SequenceFrame::originAtCenter : SequenceFrame::originAtExit); }
		else if(k == "mover") s = new MagnetMover(nm);
		else if(k == "simple") s = new SimpleMount(nm);
		else s = new GirderMount(nm);
		for(auto& c : n["kids"].a) s->AppendFrame(*mk(arr, c.I()));
		f = s;
	}
	nodes[id] = f;
	return f;
}
static LatticeFrame* N(const J& e) { return nodes.at(e["n"].I()); }
static void state(J& o)
{
	o.set("rays", rays(sim->GetTrackedBunch())).set("t", J(q(sim->GetTrackedBunch().GetReferenceTime(), U)));
}
static void flush(J& o) { o.set("calls", calls).set("recs", recs); calls = J::arr(); recs = J::arr(); }

// ---- step manager ----
static ProcessStepManager* psm;
static ParticleBunch* pb;

// ---- component tracker ----
static std::string tl; static int nent, nexit; static std::vector<double> steps;
struct TDrift: public ParticleComponentTracker::Integrator<Drift>
{
	void TrackStep(double ds) { steps.push_back(ds); }
	void TrackEntrance() { ++nent; tl += 'E'; }
	void TrackExit() { ++nexit; tl += 'X'; }
};
static ParticleComponentTracker* trk;
static ParticleBunch* tb;
static std::vector<std::pair<PSvector, double> > meas;
struct Mon: public Monitor
{
	Mon(const std::string& id, double len, double mpt) : Monitor(id, len, mpt) {}
	void MakeMeasurement(const Bunch& b) { meas.push_back({ static_cast<const ParticleBunch&>(b).GetParticles()[0], b.GetReferenceTime() }); }
};
static long long near_(const ParticleBunch& a, const ParticleBunch& b, double tol)
{
	if(a.size() != b.size()) return -1;
	for(size_t i = 0; i < a.size(); i++)
	{
		const PSvector& p = a.GetParticles()[i], & r = b.GetParticles()[i];
		for(int k = 0; k < 6; k++) { double d = std::fabs(p[k] - r[k]); if(!(d <= tol)) return (long long) (i * 6 + k + 1); }
	}
	return 0;
}

int main(int argc, char** argv)
{
	Driver d;
	d.reset = [] {
			nodes.clear(); cid.clear(); procs.clear(); model = nullptr; sim = nullptr; out = nullptr; psm = nullptr; trk = nullptr;
			calls = J::arr(); recs = J::arr();
		};
	d.ops["tree"] = [](const J& e, J& o) {
		AcceleratorModelConstructor c;
		for(auto& k : e["nodes"][(size_t) 0]["kids"].a)
		{
			LatticeFrame* f = mk(e["nodes"], k.I());
			if(auto s = dynamic_cast<SequenceFrame*>(f)) c.AppendFrame(s);
			else c.AppendComponentFrame(static_cast<ComponentFrame*>(f));
		}
		model = c.GetModel();
		nodes[1] = &model->GetGlobalFrame(); };
	d.ops["apply"] = [](const J& e, J& o) { ops(*N(e), e["ops"]); };
	d.ops["clear"] = [](const J& e, J& o) { N(e)->ClearLocalFrameTransform(); };
	d.ops["move"] = [](const J& e, J& o) {
		std::string w = e["w"].S(); MagnetMover* m = static_cast<MagnetMover*>(N(e));
		if(w == "x") m->SetX(e["v"].D() * U); else if(w == "y") m->SetY(e["v"].D() * U);
		else if(w == "roll") m->SetRoll(e["v"].D() * PI / 2); else m->Reset(); };
	d.ops["sim"] = [](const J& e, J& o) {
		ParticleBunch* src = mkbunch(e["rays"]); sources.push_back(src);
		std::string how = e["how"].S();
		if(how == "late")
		{
			sim = new ParticleTracker();
			if(e["ring"].B()) sim->SetRing(model->GetRing((int) e["a"].I())); else sim->SetBeamline(model->GetBeamline(e["a"].I(), e["b"].I()));
			sim->SetInitialBunch(src);
		}
		else if(how == "particle")
		{
			if(e["ring"].B()) sim = new ParticleTracker(model->GetRing((int) e["a"].I()), src->GetParticles()[0], 10.0);
			else sim = new ParticleTracker(model->GetBeamline(e["a"].I(), e["b"].I()), src->GetParticles()[0], 10.0);
		}
		else
		{
			if(e["ring"].B()) sim = new ParticleTracker(model->GetRing((int) e["a"].I()), src);
			else sim = new ParticleTracker(model->GetBeamline(e["a"].I(), e["b"].I()), src);
		}
		if(e["flat"].B()) sim->AssumeFlatLattice(true);
		if(e["inj"].B()) sim->InjectBeamOnAxis(true);
		if(e["handle"].B()) sim->HandleExceptions(true);
		if(e["log"].B()) { sim->SetLogStream(std::cout); sim->SetLoggingOn(); }
		out = nullptr;
		if(e["out"].B())
		{
			out = new Out; out->output_all = e["oall"].B(); out->output_initial = e["oini"].B(); out->output_final = e["ofin"].B();
			for(auto& p : e["pats"].a) out->AddIdentifier(p.S());
			sim->SetOutput(out);
		}
		procs.clear(); };
	d.ops["range"] = [](const J& e, J& o) {
		if(e["ring"].B()) sim->SetRing(model->GetRing((int) e["a"].I())); else sim->SetBeamline(model->GetBeamline(e["a"].I(), e["b"].I())); };
	d.ops["addp"] = [](const J& e, J& o) { Rec* r = new Rec(e["p"], U); procs[r->id] = r; sim->AddProcess(r); };
	d.ops["remp"] = [](const J& e, J& o) { o.set("ok", J(sim->RemoveProcess(procs.at(e["id"].I())))); };
	d.ops["option"] = [](const J& e, J& o) { sim->AssumeFlatLattice(e["flat"].B()); sim->InjectBeamOnAxis(e["inj"].B()); };
	auto run = [](const J& e, J& o) {
		o.set("exc", J(false));
		try { Bunch& b = e["op"].S() == "run" ? sim->Run() : sim->Continue(); o.set("same", J(&b == &sim->GetTrackedBunch())); }
		catch(MerlinException&) { o.set("exc", J(true)); }
		flush(o); state(o); };
	d.ops["run"] = run;
	d.ops["cont"] = run;
	auto st = [](J& o) { flush(o); o.set("got", rays(sim->GetTrackedBunch())).set("t", J(q(sim->GetTrackedBunch().GetReferenceTime(), U))); };
	d.ops["initstep"] = [st](const J& e, J& o) { sim->InitStepper(e["fresh"].B()); st(o); };
	d.ops["initbunch"] = [st](const J& e, J& o) { sim->InitStepper(mkbunch(e["rays"])); st(o); };
	d.ops["step"] = [](const J& e, J& o) {
		ComponentFrame& f = sim->GetCurrentFrame();
		o.set("cur", J(f.IsComponent() ? cid.at(&sim->GetCurrentComponent()) : -1));
		o.set("more", J(sim->StepComponent())); flush(o); state(o); };
	d.ops["track"] = [](const J& e, J& o) {
		J in = e["rays"]; o = J::obj(); for(auto& kv : e.o) if(kv.first != "rays") o.set(kv.first, kv.second); o.set("in", in);
		ParticleBunch* b = mkbunch(in); b->SetReferenceTime(e["t0"].D() * U);
		ParticleBunch* r = sim->Track(b);
		for(auto& p : procs) p.second->b = nullptr;
		o.set("same", J(r == b)).set("exc", J(false)); flush(o); o.set("rays", rays(*r)).set("t", J(q(r->GetReferenceTime(), U))); delete b; };
	d.ops["source"] = [](const J& e, J& o) { o.set("rays", rays(*sources.back())).set("t", J(q(sources.back()->GetReferenceTime(), U))); };

	// processes and steps
	d.ops["pnew"] = [](const J& e, J& o) {
		psm = new ProcessStepManager; procs.clear(); cid.clear(); calls = J::arr(); pb = new ParticleBunch(10.0);
		for(size_t i = 0; i < e["comps"].size(); i++)
		{
			const J& c = e["comps"][i]; std::string ty = c["ty"].S(), nm = "c" + std::to_string(i + 1); double L = c["len"].D() * 0.1;
			AcceleratorComponent* a = ty == "Quadrupole" ? (AcceleratorComponent*) new Quadrupole(nm, L, 0.0) : ty == "Marker" ? (AcceleratorComponent*) new Marker(nm) : (AcceleratorComponent*) new Drift(nm, L);
			cid[a] = (long long) i + 1;
		} };
	d.ops["padd"] = [](const J& e, J& o) {
		long long id = e["p"]["id"].I();
		if(!procs.count(id)) procs[id] = new Rec(e["p"], 0.1);
		psm->AddProcess(procs[id]); };
	d.ops["prem"] = [](const J& e, J& o) { o.set("ok", J(psm->RemoveProcess(procs.at(e["id"].I())))); };
	d.ops["pclear"] = [](const J& e, J& o) { psm->ClearProcesses(); procs.clear(); };
	d.ops["pinit"] = [](const J& e, J& o) { calls = J::arr(); psm->Initialise(*pb); o.set("calls", calls).set("s", J(q(psm->GetIntegratedLength(), 0.1))); calls = J::arr(); };
	d.ops["plog"] = [](const J& e, J& o) { psm->SetLogStream(e["on"].B() ? &std::cout : nullptr); };
	d.ops["ptrack"] = [](const J& e, J& o) {
		calls = J::arr();
		for(auto& c : cid) if(c.second == e["c"].I()) psm->Track(*const_cast<AcceleratorComponent*>(c.first));
		for(auto& c : calls.a) if(c[0].S() == "do" && c.size() == 6) c.a.pop_back();
		o.set("calls", calls).set("s", J(q(psm->GetIntegratedLength(), 0.1))); calls = J::arr(); };

	// component tracker
	d.ops["tnew"] = [](const J& e, J& o) {
		trk = new ParticleComponentTracker; tb = new ParticleBunch(10.0); tb->AddParticle(PSvector(0)); trk->SetBunch(*tb);
		bool r = trk->Register(new TDrift); o.set("over", J(r));
		nent = nexit = 0; steps.clear(); tl.clear(); nodes.clear(); };
	auto tst = [](J& o) {
		const char* st[] = { "undefined", "initialised", "tracking", "finished" };
		o.set("st", J(st[trk->GetState()])).set("ent", J(nent)).set("exit", J(nexit)).set("t", J(q(tb->GetReferenceTime(), 0.1)));
		if(trk->GetState() != ComponentTracker::undefined) o.set("rem", J(q(trk->GetRemainingLength(), 0.1))).set("int", J(q(trk->GetIntegratedLength(), 0.1)));
		else o.set("rem", J(0)).set("int", J(0)); };
	d.ops["tprep"] = [tst](const J& e, J& o) {
		AcceleratorComponent* c = e["ty"].S() == "Marker" ? (AcceleratorComponent*) new Marker("m") : (AcceleratorComponent*) new Drift("d", e["len"].D() * 0.1);
		c->PrepareTracker(*trk); steps.clear(); tst(o); };
	d.ops["tstep"] = [tst](const J& e, J& o) {
		bool thrown = false; double r = -1; size_t n0 = steps.size();
		try { r = trk->TrackStep(e["ds"].D() * 0.1); } catch(AcceleratorGeometry::BeyondExtent&) { thrown = true; }
		o.set("thrown", J(thrown)).set("ret", J(thrown ? 0 : q(r, 0.1))).set("did", J(steps.size() > n0 ? q(steps.back(), 0.1) : -1)); tst(o); };
	d.ops["tall"] = [tst](const J& e, J& o) { trk->Track(); o.set("did", J(steps.empty() ? -1 : q(steps.back(), 0.1))); tst(o); };
	d.ops["treset"] = [tst](const J& e, J& o) { trk->Reset(); tst(o); };

	// the same component tracked at once and in several steps
	d.ops["subdiv"] = [](const J& e, J& o) {
		std::string ty = e["ty"].S(), set = e["set"].S(); double L = e["len"].D() * 0.1, k = e["k"].D() * 0.1;
		std::unique_ptr<ParticleComponentTracker> T[2];
		std::unique_ptr<ParticleComponentTracker::ISetBase> is(set == "thin" ? (ParticleComponentTracker::ISetBase*) new THIN_LENS::StdISet : set == "symp" ? (ParticleComponentTracker::ISetBase*) new SYMPLECTIC::StdISet : (ParticleComponentTracker::ISetBase*) new TRANSPORT::StdISet);
		ParticleBunch B[2] = { ParticleBunch(10.0), ParticleBunch(10.0) };
		for(int i = 0; i < 2; i++)
			for(auto& r : e["rays"].a)
			{
				PSvector p(0); for(int c = 0; c < 6; c++) p[c] = r[c].D() * 1e-4;
				B[i].AddParticle(p);
			}
		double brho = 10.0 / 0.299792458;
		AcceleratorComponent* c;
		if(ty == "Drift") c = new Drift("d", L);
		else if(ty == "Quadrupole") c = new Quadrupole("q", L, k * brho);
		else if(ty == "SkewQuadrupole") c = new SkewQuadrupole("q", L, k * brho);
		else if(ty == "Solenoid") c = new Solenoid("s", L, k * brho);
		else if(ty == "Monitor") c = new Mon("m", L, e["k"].D() * 0.1);
		else if(ty == "Marker") c = new Marker("m");
		else
		{
			SectorBend* b = new SectorBend("b", L, k, k * brho); c = b;
			if(e["pole"].B()) b->SetPoleFaceInfo(new SectorBend::PoleFace(0.1), new SectorBend::PoleFace(-0.05));
		}
		J bad = J::arr();
		std::vector<std::pair<PSvector, double> > M[2];
		for(int i = 0; i < 2; i++)
		{
			T[i].reset(new ParticleComponentTracker(*is)); T[i]->SetBunch(B[i]); meas.clear();
			c->PrepareTracker(*T[i]);
			if(i == 0) T[i]->Track();
			else
			{
				double s = 0;
				for(size_t j = 0; j < e["steps"].size(); j++)
				{
					double ds = e["steps"][j].D() * 0.1;
					if(j + 1 == e["steps"].size()) ds = T[i]->GetRemainingLength();
					double rem = T[i]->TrackStep(ds); s += ds;
					if(std::fabs(rem - (L - s)) > 1e-9) bad.push(J((long long) j));
				}
			}
			M[i] = meas;
			o.set(i == 0 ? "st1" : "st2", J((int) T[i]->GetState()));
		}
		o.set("rems", bad).set("diff", J(near_(B[0], B[1], std::pow(10., -e["tol"].D()))));
		if(getenv("VDBG")) for(int i = 0; i < 2; i++) { for(int k2 = 0; k2 < 6; k2++) fprintf(stderr, "%.12g ", B[i].GetParticles()[0][k2]); fprintf(stderr, "\n"); }
		J t = J::arr(); for(int i = 0; i < 2; i++) t.push(J(q(B[i].GetReferenceTime(), 0.1))); o.set("t", t);
		J n = J::arr(), dm = J::arr();
		for(int i = 0; i < 2; i++) n.push(J(M[i].size()));
		o.set("meas", n);
		bool same = M[0].size() == M[1].size();
		for(size_t i = 0; same && i < M[0].size(); i++) for(int k2 = 0; k2 < 6; k2++) if(std::fabs(M[0][i].first[k2] - M[1][i].first[k2]) > 1e-9) same = false;
		o.set("msame", J(same));
		// position of the measurement: centroid moved by xp times the distance
		long long at = -1; if(M[1].size() && e["rays"][0][1].I() != 0) at = q((M[1][0].first.x() - e["rays"][0][0].D() * 1e-4) / (e["rays"][0][1].D() * 1e-4), 0.1, 1e-4);
		o.set("at", J(at)); };
	return d.main(argc, argv);
}
