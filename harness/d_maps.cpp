// Conformance driver: the maps of the magnets and cavities. Numbers are integers in units of 1e-6.
// A map is reported along a direction v: its value at the base, its first and its second derivative (halved).
#include "elems.h"
struct End { double P0, T; std::vector<PSvector> p; };
// track through a sequence of components, each in its steps
static End run(const J& e, const std::vector<PSvector>& ps)
{
	std::string set = e["set"].S(); double P0 = e["P0"].D();
	std::unique_ptr<ParticleComponentTracker::ISetBase> is(set == "thin" ? (ParticleComponentTracker::ISetBase*) new THIN_LENS::StdISet : set == "symp" ? (ParticleComponentTracker::ISetBase*) new SYMPLECTIC::StdISet : (ParticleComponentTracker::ISetBase*) new TRANSPORT::StdISet);
	ParticleBunch b(P0, e["q"].D()); for(auto& p : ps) b.push_back(p);
	for(auto& el : e["els"].a)
	{
		ParticleComponentTracker t(*is); t.SetBunch(b);
		std::unique_ptr<AcceleratorComponent> c(make(el, P0));
		c->PrepareTracker(t);
		const J& st = el["steps"];
		if(st.size() == 0) t.Track();
		else for(size_t i = 0; i < st.size(); i++) t.TrackStep(i + 1 == st.size() ? t.GetRemainingLength() : D(st[i]));
	}
	return End { b.GetReferenceMomentum(), b.GetReferenceTime(), std::vector<PSvector>(b.begin(), b.end()) };
}
int main(int argc, char** argv)
{
	Driver d;
	d.ops["map"] = [](const J& e, J& o) {
		const double h1 = 1e-4, h2 = 1e-3;
		std::vector<PSvector> ps;
		const double at[5] = { 0, h1, -h1, h2, -h2 };
		for(int i = 0; i < 5; i++) { PSvector p(0); for(int k = 0; k < 6; k++) p[k] = D(e["z"][k]) + at[i] * D(e["v"][k]); ps.push_back(p); }
		End r = run(e, ps);
		J c = J::arr(), a = J::arr(), b = J::arr();
		for(int k = 0; k < 6; k++)
		{
			c.push(out(r.p[0][k])); a.push(out((r.p[1][k] - r.p[2][k]) / (2 * h1)));
			b.push(out((r.p[3][k] + r.p[4][k] - 2 * r.p[0][k]) / (2 * h2 * h2)));
		}
		o.set("c", c).set("a", a).set("b", b).set("dP", out(r.P0 / e["P0"].D() - 1)).set("T", out(r.T)); };
	// whole coordinates
	d.ops["track"] = [](const J& e, J& o) {
		std::vector<PSvector> ps;
		for(auto& r : e["p"].a) { PSvector p(0); for(int k = 0; k < 6; k++) p[k] = D(r[k]); ps.push_back(p); }
		End r = run(e, ps);
		J g = J::arr(); for(auto& p : r.p) { J x = J::arr(); for(int k = 0; k < 6; k++) x.push(out(p[k])); g.push(x); }
		o.set("got", g).set("dP", out(r.P0 / e["P0"].D() - 1)).set("T", out(r.T)); };
	// sliced macroparticles
	d.ops["smp"] = [](const J& e, J& o) {
		double P0 = e["P0"].D();
		SMPTracking::SMPBunch b(P0, e["q"].D()); // every macroparticle carries charge
		for(auto& r : e["p"].a)
		{
			SMPTracking::SliceMacroParticle p(PSmoments(), 0, 0, e["q"].D());
			for(int k = 0; k < 6; k++) p[k] = D(r["m"][k]);
			for(int i = 0; i < 4; i++) for(int j = 0; j <= i; j++) p(i, j) = D(r["s"][i][j]);
			b.AddParticle(p);
		}
		for(auto& el : e["els"].a)
		{
			SMPTracking::SMPComponentTracker::ISetBase* is = new SMPTracking::StdISet;
			SMPTracking::SMPComponentTracker t(*is); t.SetBunch(b);
			std::unique_ptr<AcceleratorComponent> c(make(el, P0));
			c->PrepareTracker(t);
			const J& st = el["steps"];
			if(st.size() == 0) t.Track();
			else for(size_t i = 0; i < st.size(); i++) t.TrackStep(i + 1 == st.size() ? t.GetRemainingLength() : D(st[i]));
			delete is;
		}
		J g = J::arr();
		for(auto it = b.begin(); it != b.end(); ++it)
		{
			J m = J::arr(), s = J::arr();
			for(int k = 0; k < 6; k++) m.push(out((*it)[k]));
			for(int i = 0; i < 4; i++) { J r = J::arr(); for(int j = 0; j <= i; j++) r.push(out((*it)(i, j))); s.push(r); }
			J x = J::obj(); x.set("m", m).set("s", s); g.push(x);
		}
		o.set("got", g).set("dP", out(b.GetReferenceMomentum() / P0 - 1)).set("T", out(b.GetReferenceTime())); };
	return d.main(argc, argv);
}
