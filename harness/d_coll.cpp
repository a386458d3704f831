// Conformance driver: collimation, loss reports, loss maps, non-finite check.
#include "vh.h"
#include <algorithm>
#include <set>
#include <list>
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "Drift.h"
#include "StandardMultipoles.h"
#include "Marker.h"
#include "Monitor.h"
#include "Collimator.h"
#include "Aperture.h"
#include "CollimatorAperture.h"
#include "MaterialData.h"
#include "RandomNG.h"
#include "ParticleBunch.h"
#include "ParticleBunchTypes.h"
#include "ParticleTracker.h"
#include "CollimateParticleProcess.h"
#include "CollimateProtonProcess.h"
#include "ScatteringModelsMerlin.h"
#include "LossMapCollimationOutput.h"
#include "DetailedCollimationOutput.h"
#include "NANCheckProcess.h"
using namespace vh;
using namespace ParticleTracking;
static const double U = 0.125, W = 1.0 / 16384, S = W / U;
static std::vector<AcceleratorComponent*> comps;
static std::map<const AcceleratorComponent*, long long> cid;
static AcceleratorModel* model;
static ParticleTracker* sim;
static ParticleBunch* src;
static long long off;

static PSvector ps(const J& r)
{
	PSvector p(0); p.id() = r[0].I();
	p.x() = r[1].D() * W; p.xp() = r[2].D() * S; p.y() = r[3].D() * W; p.yp() = r[4].D() * S;
	return p;
}
static J part(const PSvector& p)
{
	J a = J::arr();
	a.push(J((long long) p.id())).push(J(q(p.x(), W))).push(J(q(p.xp(), S))).push(J(q(p.y(), W))).push(J(q(p.yp(), S)));
	return a;
}
static J parts(const ParticleBunch& b) { J a = J::arr(); for(auto& p : b.GetParticles()) a.push(part(p)); return a; }
template<class B> static void fill(B* b, const J& rs) { for(auto& r : rs.a) b->AddParticle(ps(r)); }

struct RecOut: public CollimationOutput
{
	J recs = J::arr();
	bool real = false;
	void Dispose(AcceleratorComponent& c, double pos, Particle& p, int turn)
	{
		J r = J::arr();
		if(real)
		{
			// position rounded outward to the interval [0, length]
			double L = c.GetLength();
			long long z = pos < -1e-9 ? -1 : pos > L + 1e-9 ? q(L, U) + 1 : (long long) std::floor(std::min(std::max(pos, 0.), L) / U);
			r.push(J((long long) p.id())).push(J(cid.at(&c))).push(J(z)).push(J(0)).push(J(0)).push(J(0)).push(J(0)).push(J(turn));
		}
		else
		{
			J x = part(p);
			r.push(x[0]).push(J(cid.at(&c))).push(J(q(pos, U))).push(x[1]).push(x[2]).push(x[3]).push(x[4]).push(J(turn));
		}
		recs.push(r);
	}
};
// scattering whose outcome is known: absorbs none, or those with odd ids
template<class P> struct Scripted: public P
{
	bool odd;
	Scripted(int pr, int mode, bool o) : P(pr, mode), odd(o) {}
	typename P::ScatterOutcome DoScatter(Particle& p)
	{
		double len = this->s - this->int_s;
		if(odd && p.id() % 2)
		{
			for(auto o : this->CollimationOutputVector) o->Dispose(*this->currentComponent, this->int_s, p, this->ColParProTurn);
			return P::ScatterOutcome::absorbed;
		}
		p.x() += len * p.xp(); p.y() += len * p.yp();
		return P::ScatterOutcome::survived;
	}
};
// a process that only limits the steps
struct Limit: public BunchProcess
{
	double g, s;
	Limit(double gg) : BunchProcess("LIMIT", 1), g(gg) { active = true; }
	void InitialiseProcess(Bunch&) {}
	void SetCurrentComponent(AcceleratorComponent& c) { s = 0; active = true; }
	void DoProcess(double ds) { s += ds; }
	double GetMaxAllowedStepSize() const { return (std::floor(s / g + 1e-6) + 1) * g - s; }
};
static CollimateParticleProcess* proc;
static std::vector<RecOut*> outs;
static DetailedCollimationOutput* det;
static std::list<size_t>* userlist;
static bool index_;

static Aperture* mkap(const J& a, double L)
{
	std::string k = a["k"].S(); const double e = W / 64;
	if(k == "none") return nullptr;
	if(k == "rect") return new RectangularAperture("RECTANGLE", 0, a["a"].D() * W + e, a["b"].D() * W + e);
	if(k == "circ") return new CircularAperture((a["a"].D() + 0.5) * W);
	double c = a["c"].D(), d = a["d"].D(), w = 2 * (a["a"].D() * W + e), h = 2 * (a["b"].D() * W + e);
	if(k == "jaw")
	{
		auto j = new CollimatorAperture(w, h, 0, L, c * W, d * W);
		j->SetExitWidth(w); j->SetExitHeight(h); j->SetExitXOffset(c * W); j->SetExitYOffset(d * W);
		return j;
	}
	auto j = new CollimatorAperture(w, h, 0, L);
	j->SetExitWidth(2 * (c * W + e)); j->SetExitHeight(2 * (d * W + e));
	return j;
}
static AcceleratorComponent* mkcomp(const J& e)
{
	std::string ty = e["ty"].S(), nm = e["nm"].S(); double L = e["len"].D() * U;
	if(ty == "Drift") return new Drift(nm, L);
	if(ty == "Quadrupole") return new Quadrupole(nm, L, 0.0);
	if(ty == "Monitor") return new Monitor(nm, L, 0.0);
	if(ty == "Marker") return new Marker(nm);
	return new Collimator(nm, L);
}
static bool dead;
static void result(J& o, const ParticleBunch& b, bool thrown)
{
	dead = thrown;
	o.set("thrown", J(thrown)).set("ps", parts(b));
	J ix = J::arr(); if(index_) for(auto i : proc->GetIndexes()) ix.push(J(i)); o.set("ix", ix);
	J os = J::arr(); for(auto r : outs) { os.push(r->recs); r->recs = J::arr(); } o.set("outs", os);
	J dr = J::arr();
	for(auto& l : det->DeadParticles)
	{
		J x = part(l.p); long long el = 0;
		for(size_t i = 0; i < comps.size(); i++)
			if(comps[i]->GetName() == l.ElementName && comps[i]->GetComponentLatticePosition() == l.s && comps[i]->GetLength() == l.length && l.lost == 1)
			{
				// elements that look alike: the one the recorders saw
				bool seen = false;
				for(auto& r : os[0].a) if(r[0].I() == x[0].I() && r[1].I() == (long long) i + 1) seen = true;
				if(seen || !el) el = (long long) i + 1;
			}
		J r = J::arr(); r.push(x[0]).push(J(el)).push(J(q(l.position, U))).push(x[1]).push(x[2]).push(x[3]).push(x[4]).push(J(l.turn)); dr.push(r);
	}
	det->DeadParticles.clear();
	o.set("det", dr);
}

// loss maps
static LossMapCollimationOutput* lmap;
static std::vector<AcceleratorComponent*> lel;
// non-finite check
static NANCheckProcess* nan_;
static ParticleBunch* nb;
static std::vector<AcceleratorComponent*> nel;
// the particles are told apart by dp, y and x, of which at least one stays finite
static long long tag(const PSvector& p) { return q(std::isfinite(p.dp()) ? p.dp() : std::isfinite(p.y()) ? p.y() : p.x(), W); }
static double badval(const std::string& k) { return k == "nan" ? std::nan("") : k == "inf" ? INFINITY : -INFINITY; }
struct Poison: public BunchProcess
{
	J todo; double g, s; bool done;
	Poison(double gg) : BunchProcess("POISON", 0), g(gg) { active = true; }
	void InitialiseProcess(Bunch&) { done = false; }
	void SetCurrentComponent(AcceleratorComponent& c) { s = 0; }
	void DoProcess(double ds)
	{
		s += ds; if(done) return; done = true;
		for(auto& p : nb->GetParticles()) for(auto& x : todo.a) if(tag(p) == x[0].I()) p[(int) x[1].I()] = x[1].I() % 2 ? INFINITY : std::nan("");
	}
	double GetMaxAllowedStepSize() const { return g > 0 ? g : 1e9; }
};

int main(int argc, char** argv)
{
	Driver d;
	d.reset = [] { comps.clear(); cid.clear(); model = nullptr; sim = nullptr; proc = nullptr; outs.clear(); lmap = nullptr; nan_ = nullptr; nb = nullptr; dead = false; };
	d.ops["machine"] = [](const J& e, J& o) {
		AcceleratorModelConstructor c; double z = 0;
		for(auto& x : e["elems"].a)
		{
			AcceleratorComponent* a = mkcomp(x); comps.push_back(a); cid[a] = (long long) comps.size();
			a->SetAperture(mkap(x["ap"], a->GetLength()));
			if(e["place"].B()) a->SetComponentLatticePosition(z);
			z += a->GetLength();
			static MaterialData* md = new StandardMaterialData;
			if(auto k = dynamic_cast<Collimator*>(a)) k->SetMaterialProperties(md->property["Cu"]);
			if(x["ty"].S() == "Drift") c.AppendComponent(*static_cast<Drift*>(a));
			else if(x["ty"].S() == "Quadrupole") c.AppendComponent(*static_cast<Quadrupole*>(a));
			else if(x["ty"].S() == "Monitor") c.AppendComponent(*static_cast<Monitor*>(a));
			else if(x["ty"].S() == "Marker") c.AppendComponent(*static_cast<Marker*>(a));
			else c.AppendComponent(*static_cast<Collimator*>(a));
		}
		model = c.GetModel(); };
	d.ops["sim"] = [](const J& e, J& o) {
		off = e["off"].I(); src = new ParticleBunch(7000.0, 1.0); fill(src, e["src"]);
		sim = off || e["ring"].B() ? new ParticleTracker(model->GetRing((int) off), src) : new ParticleTracker(model->GetBeamline(), src); };
	d.ops["proc"] = [](const J& e, J& o) {
		const J& p = e["pr"]; std::string how = p["how"].S(); int pr = (int) e["prio"].I(), mode = (int) p["mode"].I();
		if(how == "no" || how == "all") proc = new CollimateParticleProcess(pr, mode);
		else if(how == "proton")
		{
			auto x = new CollimateProtonProcess(pr, mode); proc = x;
			static Collimation::ScatteringModel* ms = new Collimation::ScatteringModelSixTrack, * mm = new Collimation::ScatteringModelMerlin;
			x->SetScatteringModel(e["six"].B() ? ms : mm);
		}
		else if(e["six"].B()) proc = new Scripted<CollimateProtonProcess>(pr, mode, how == "odd");
		else proc = new Scripted<CollimateParticleProcess>(pr, mode, how == "odd");
		proc->ScatterAtCollimator(how != "no");
		proc->SetOutputBinSize(p["bin"].D() * U); proc->SetLossThreshold(p["thr"].D());
		index_ = p["index"].B();
		if(index_) { if(e["own"].B()) proc->IndexParticles(true); else { userlist = new std::list<size_t>(3, 7); proc->IndexParticles(*userlist); } }
		outs.clear();
		for(int i = 0; i < 2; i++) { outs.push_back(new RecOut); outs.back()->real = how == "proton"; proc->SetCollimationOutput(outs.back()); }
		det = new DetailedCollimationOutput; for(auto& s : p["pats"].a) det->AddIdentifier(s.S()); proc->SetCollimationOutput(det);
		sim->AddProcess(proc);
		if(e["limit"].I()) sim->AddProcess(new Limit(e["limit"].D() * U)); };
	d.ops["settings"] = [](const J& e, J& o) { proc->SetOutputBinSize(e["bin"].D() * U); proc->SetLossThreshold(e["thr"].D()); };
	auto go = [](const J& e, J& o) {
		bool thrown = false;
		if(e["op"].S() == "cont" && dead) { o.set("skipped", J(true)); return; } // a run that was stopped is not continued
		o.set("skipped", J(false));
		try { if(e["op"].S() == "run") sim->Run(); else sim->Continue(); } catch(ExcessiveParticleLoss&) { thrown = true; }
		result(o, static_cast<const ParticleBunch&>(sim->GetTrackedBunch()), thrown); };
	d.ops["run"] = go;
	d.ops["cont"] = go;
	static ParticleBunch* held = nullptr;
	auto rename = [](const J& e, J& o) { o = J::obj(); for(auto& kv : e.o) if(kv.first != "ps") o.set(kv.first, kv.second); o.set("in", e["ps"]); };
	d.ops["track"] = [rename](const J& e, J& o) {
		rename(e, o); ParticleBunch* b = new ParticleBunch(7000.0, 1.0); fill(b, e["ps"]); bool thrown = false;
		try { sim->Track(b); } catch(ExcessiveParticleLoss&) { thrown = true; }
		result(o, *b, thrown); held = b; };
	d.ops["begin"] = [rename](const J& e, J& o) {
		rename(e, o); ParticleBunch* b = new ParticleBunch(7000.0, 1.0); fill(b, e["ps"]); sim->InitStepper(b); dead = false;
		o.set("ps", parts(static_cast<const ParticleBunch&>(sim->GetTrackedBunch())));
		J ix = J::arr(); if(index_) for(auto i : proc->GetIndexes()) ix.push(J(i)); o.set("ix", ix); };
	d.ops["step"] = [](const J& e, J& o) {
		bool thrown = false;
		if(dead) { o.set("skipped", J(true)); return; }
		o.set("skipped", J(false));
		try { sim->StepComponent(); } catch(ExcessiveParticleLoss&) { thrown = true; }
		result(o, static_cast<const ParticleBunch&>(sim->GetTrackedBunch()), thrown); };
	d.ops["proton"] = [rename](const J& e, J& o) {
		rename(e, o); RandomNG::init((std::uint32_t) e["seed"].I());
		ProtonBunch* b = new ProtonBunch(e["P0"].D(), 1.0); fill(b, e["ps"]); sim->Track(b);
		ParticleBunch c(1.0); for(auto& p : b->GetParticles()) { PSvector z(0); z.id() = p.id(); c.AddParticle(z); }
		result(o, c, false); };

	// loss maps
	d.ops["lmap"] = [](const J& e, J& o) {
		std::string m = e["mode"].S();
		lmap = new LossMapCollimationOutput(m == "near" ? nearestelement : m == "precise" ? precise : tencm); lel.clear();
		for(auto& x : e["elems"].a)
		{
			double L = x["len"].D() * 0.01; std::string nm = x["nm"].S();
			AcceleratorComponent* c = x["coll"].B() ? (AcceleratorComponent*) new Collimator(nm, L) : L == 0 ? (AcceleratorComponent*) new Marker(nm) : (AcceleratorComponent*) new Drift(nm, L);
			c->SetComponentLatticePosition(x["s"].D() * 0.01); lel.push_back(c);
		} };
	auto warm = [](J& o) { J a = J::arr(); for(auto& w : lmap->GetWarmRegions()) { J p = J::arr(); p.push(J(q(w.first, 0.01))).push(J(q(w.second, 0.01))); a.push(p); } o.set("got", a); };
	d.ops["warm"] = [warm](const J& e, J& o) { lmap->SetWarmRegion({ e["r"][(size_t) 0].D() * 0.01, e["r"][1].D() * 0.01 }); warm(o); };
	d.ops["nowarm"] = [warm](const J& e, J& o) { lmap->ClearWarmRegions(); warm(o); };
	d.ops["dispose"] = [](const J& e, J& o) { PSvector p(0); lmap->Dispose(*lel.at(e["e"].I() - 1), e["p"].D() * 0.01, p, 1); };
	d.ops["final"] = [](const J& e, J& o) {
		lmap->Finalise();
		const char* cl[] = { "collimator", "cold", "warm", "undefined" };
		J g = J::arr();
		auto find = [](const std::string& qn, double s) {
			for(size_t i = 0; i < lel.size(); i++) if(lel[i]->GetQualifiedName() == qn && lel[i]->GetComponentLatticePosition() == s) return (long long) i + 1;
			return 0LL;
		};
		for(auto& l : lmap->OutputLosses)
		{
			long long i = find(l.ElementName, l.s);
			J k = J::arr(); k.push(J(i));
			k.push(J(lmap->otype == nearestelement ? 0 : lmap->otype == precise ? q(l.position - l.s, 0.01, 1e-4) : q(l.interval, 0.1, 1e-4)));
			J x = J::arr(); x.push(k).push(J(q(l.lost))).push(J(cl[l.temperature])); g.push(x);
		}
		o.set("got", g);
		std::ostringstream os; lmap->Output(&os);
		std::istringstream is(os.str()); std::string line; std::getline(is, line);
		J t = J::arr();
		while(std::getline(is, line))
		{
			std::istringstream ls(line); std::string nm; ls >> nm; std::vector<double> v; double z; while(ls >> z) v.push_back(z);
			size_t li = lmap->otype == nearestelement ? 1 : 2;
			J x = J::arr(); x.push(J(nm.substr(nm.find('.') + 1))).push(J(v.size() > li ? q(v[li]) : -1)).push(J(v.size() > li + 1 ? cl[(int) v[li + 1]] : "?")); t.push(x);
		}
		o.set("text", t); };

	// non-finite check
	d.ops["nproc"] = [](const J& e, J& o) {
		nan_ = new NANCheckProcess; nan_->SetCullNAN(e["cull"].B()); nan_->SetDetailed(e["detailed"].B()); nel.clear();
		AcceleratorModelConstructor c;
		for(int i = 0; i < 3; i++) { auto x = new Drift("n" + std::to_string(i), i * U); nel.push_back(x); c.AppendComponent(*x); }
		model = c.GetModel(); };
	d.ops["nbunch"] = [](const J& e, J& o) {
		nb = new ParticleBunch(10.0, 1.0); long long t = 0;
		for(auto& i : e["ids"].a) { PSvector p(0); p.id() = i.I(); p.x() = p.y() = p.dp() = (double) ++t * W; nb->AddParticle(p); }
		nan_->InitialiseProcess(*nb); };
	d.ops["npoison"] = [](const J& e, J& o) { for(auto& p : nb->GetParticles()) if(tag(p) == e["tag"].I()) p[(int) e["c"].I()] = badval(e["v"].S()); };
	d.ops["ncheck"] = [](const J& e, J& o) {
		std::ostringstream ss; std::streambuf* old = std::cout.rdbuf(ss.rdbuf());
		std::string el;
		if(e["how"].S() != "run")
		{
			static long long cur = 0; bool again = e["how"].S() == "again"; // a further step in the same element
			if(!again) cur = e["e"].I();
			AcceleratorComponent& c = *nel[cur]; el = c.GetQualifiedName();
			if(!again) nan_->SetCurrentComponent(c);
			for(auto& p : nb->GetParticles()) for(auto& x : e["q"].a) if(tag(p) == x[0].I()) p[(int) x[1].I()] = badval(x[1].I() % 2 ? "inf" : "nan");
			nan_->DoProcess(0.1);
		}
		else
		{
			// within a run: coordinates go bad in the first element
			ParticleTracker& t = *new ParticleTracker(model->GetBeamline(), new ParticleBunch(10.0)); Poison* po = new Poison(e["g"].D() * U); po->todo = e["q"];
			t.AddProcess(po); t.AddProcess(nan_); el = "Drift.n0";
			t.Track(nb);
		}
		std::cout.rdbuf(old);
		J a = J::arr();
		for(auto& p : nb->GetParticles())
		{
			int k = 0; for(int c = 0; c < 6; c++) if(!std::isfinite(p[c])) ++k;
			J x = J::arr(); x.push(J(tag(p))).push(J((long long) p.id())).push(J(k)); a.push(x);
		}
		o.set("ps", a);
		J r = J::arr(); std::istringstream is(ss.str()); std::string line;
		while(std::getline(is, line))
		{
			size_t i = line.find("currentBunch["); if(i == std::string::npos) continue;
			J x = J::arr(); x.push(J(atoll(line.c_str() + i + 13))).push(J(atoll(line.c_str() + line.find("p.id = ") + 7)));
			if(line.find(", at " + el) == std::string::npos) x.push(J("element"));
			r.push(x);
		}
		o.set("reps", r); };
	return d.main(argc, argv);
}
