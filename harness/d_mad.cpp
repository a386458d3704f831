// Conformance driver: import of MAD tables.
#include "vh.h"
#include <memory>
#include <cstring>
#include "AcceleratorModel.h"
#include "AcceleratorModelConstructor.h"
#include "MADInterface.h"
#include "Components.h"
#include "ComponentFrame.h"
#include "SequenceFrame.h"
#include "PhysicalConstants.h"
#include "PhysicalUnits.h"
using namespace vh;
static const double U = 0.125, AU = 1.0 / 1024; // lengths, strengths
static const double C0 = PhysicalConstants::SpeedOfLight;
static std::unique_ptr<MADInterface> mad;
static std::vector<std::unique_ptr<std::istringstream> > streams;
static AcceleratorModel* model;
static int files;

static std::string num(double v) { char b[64]; snprintf(b, 64, "%.17g", v); return b; }
// a TFS table with the columns in the given order; cols are those that exist
static std::string table(const J& e)
{
	std::string s = "@ NAME %05s \"TWISS\"\n@ ENERGY %le 7000\n* ", t = "$ ";
	for(auto& c : e["cols"].a) { s += c.S() + " "; t += (c.S() == "NAME" || c.S() == "KEYWORD" || c.S() == "PARENT") ? "%s " : "%le "; }
	s += "\n" + t + "\n";
	for(auto& r : e["rows"].a)
	{
		for(auto& c : e["cols"].a)
		{
			const std::string& n = c.S();
			if(n == "NAME") { std::string p = r["pfx"].S(); s += " \"" + (p.empty() ? "" : p + "_") + r["nm"].S() + "\""; }
			else if(n == "KEYWORD") s += " \"" + r["kw"].S() + "\"";
			else if(n == "PARENT") s += " \"x\"";
			else if(n == "L") s += " " + num(r["len"].D() * U);
			else if(n == "FREQ") s += " " + num(r["freq"].D() * C0 * 1e-6);
			else if(n == "LAG") s += " " + num(r["lag"].D() / 8);
			else if(n == "VOLT") s += " " + num(r["volt"].D());
			else if(r.has(n)) s += " " + num(r[n].D() * AU);
			else s += " 0.25";
		}
		s += "\n";
	}
	return s;
}
static long long a(double v) { return q(v, AU, 1e-3); }
// the field at (1,0) times length, in parts; the magnetic rigidity is a whole number
static J strengths(AcceleratorComponent& c)
{
	J s = J::arr(); double L = c.GetLength(), f = L ? L : 1;
	if(auto b = dynamic_cast<SectorBend*>(&c))
	{
		Complex b0 = b->GetField().GetField2D(0, 0), b1 = b->GetField().GetField2D(1, 0);
		s.push(J(a(b->GetGeometry().GetCurvature() * L))).push(J(a(b0.real() * f))).push(J(a((b1 - b0).real() * f))).push(J(a((b1 - b0).imag() * f)));
		auto& pf = b->GetPoleFaceInfo();
		s.push(J(pf.entrance ? a(pf.entrance->rot) : 0)).push(J(pf.exit ? a(pf.exit->rot) : 0));
		s.push(J(a(b->GetGeometry().GetTilt())));
	}
	else if(auto m = dynamic_cast<RectMultipole*>(&c))
	{
		double n = dynamic_cast<Sextupole*>(&c) || dynamic_cast<SkewSextupole*>(&c) ? 2 : dynamic_cast<Octupole*>(&c) ? 6 : 1;
		Complex b = m->GetField().GetField2D(1, 0), b2 = m->GetField().GetField2D(2, 0); // its order by the growth with the distance
		double g = std::abs(b) > 0 ? std::abs(b2) / std::abs(b) : 0;
		s.push(J(a(b.real() * n * f))).push(J(a(b.imag() * n * f))).push(J(q(g)));
	}
	else if(auto r = dynamic_cast<SWRFStructure*>(&c))
	{
		s.push(J(q(r->GetAmplitude() * L / PhysicalUnits::MV))).push(J(q(r->GetFrequency() / C0))).push(J(q(r->GetPhase() / twoPi * 8 + 2)));
	}
	else if(auto cm = dynamic_cast<CrabMarker*>(&c)) s.push(J(a(cm->GetMuX()))).push(J(a(cm->GetMuY())));
	return s;
}
static bool moved(const Point3D& a, const Point3D& b) { return std::fabs(a.x - b.x) + std::fabs(a.y - b.y) + std::fabs(a.z - b.z) > 0.1; }
struct Frames : FrameTraverser {
	std::vector<LatticeFrame*> v;
	void ActOn(LatticeFrame* f) { v.push_back(f); }
};
static J dump()
{
	J o = J::obj(), el = J::arr(), fr = J::arr(), ix = J::arr(); std::vector<ComponentFrame*> cf;
	AcceleratorModel::Beamline b = model->GetBeamline();
	for(auto i = b.begin(); i != b.end(); ++i)
	{
		J x = J::obj(); cf.push_back(*i);
		if((*i)->IsComponent())
		{
			AcceleratorComponent& c = (*i)->GetComponent();
			x.set("nm", J(c.GetName())).set("ty", J(c.GetType())).set("len", J(q(c.GetLength(), U))).set("pos", J(q(c.GetComponentLatticePosition(), U))).set("st", strengths(c));
		}
		else x.set("nm", J((*i)->GetName())).set("ty", J((*i)->GetType())).set("len", J(q((*i)->GetGeometryLength(), U))).set("pos", J(0)).set("st", J::arr());
		el.push(x);
	}
	Frames t; model->GetGlobalFrame().Traverse(t);
	for(auto f : t.v)
	{
		if(dynamic_cast<ComponentFrame*>(f) || f == &model->GetGlobalFrame()) continue;
		J x = J::obj(), m = J::arr(); std::vector<Transform3D> before;
		for(auto c : cf) before.push_back(c->GetPhysicalTransform());
		f->TranslateY(0.5);
		for(size_t i = 0; i < cf.size(); i++) if(moved(cf[i]->GetPhysicalTransform().X(), before[i].X())) m.push(J(i + 1));
		f->ClearTransform();
		x.set("nm", J(f->GetName())).set("ty", J(f->GetType())).set("in", m); fr.push(x);
	}
	o.set("els", el).set("frames", fr).set("total", J(q(model->GetGlobalFrame().GetGeometryLength(), U, 1e-5)));
	return o;
}
static void configure(MADInterface& m, const J& c)
{
	for(auto& x : c["drifts"].a) m.TreatTypeAsDrift(x.S());
	for(auto& x : c["zeros"].a) m.IgnoreZeroLengthType(x.S());
	m.SetSingleCellRF(c["single"].B()); m.ConstructFlatLattice(c["flat"].B()); m.HonourMadStructure(c["honour"].B());
	static std::ostringstream log; log.str(""); m.SetLogFile(log); if(c["log"].B()) m.SetLoggingOn();
}
static double p0(const J& e) { return e["P"].D() * C0 * 1e-9; }
static std::string put(const J& e)
{
	std::string n = "m" + std::to_string(files++) + ".tfs"; std::ofstream f(n); f << table(e); return n;
}
static void drop() { delete model; model = nullptr; }

int main(int argc, char** argv)
{
	Driver d;
	d.reset = [] { drop(); mad.reset(); streams.clear(); };
	// build a model from one table
	d.ops["import"] = [](const J& e, J& o) {
		drop(); double P = p0(e);
		if(e["how"].S() == "file") { std::string n = put(e); mad.reset(new MADInterface(n, P)); configure(*mad, e["cfg"]); model = mad->ConstructModel(); std::remove(n.c_str()); }
		else
		{
			streams.emplace_back(new std::istringstream(table(e)));
			if(e["how"].S() == "momentum") { mad.reset(new MADInterface(streams.back().get(), 1.0)); mad->SetMomentum(P); }
			else mad.reset(new MADInterface(streams.back().get(), P));
			configure(*mad, e["cfg"]); model = mad->ConstructModel();
		}
		o.set("m", dump()).set("mom", J(q(mad->GetMomentum() / (C0 * 1e-9))));
	};
	// begin appending with an interface of this configuration
	d.ops["begin"] = [](const J& e, J& o) {
		drop(); streams.emplace_back(new std::istringstream("* x\n$ %d\n")); mad.reset(new MADInterface(streams.back().get(), 1.0)); configure(*mad, e["cfg"]); };
	d.ops["append"] = [](const J& e, J& o) { std::string n = put(e); mad->AppendModel(n, p0(e)); std::remove(n.c_str()); };
	d.ops["get"] = [](const J& e, J& o) { drop(); model = mad->GetModel(); o.set("m", dump()); };
	return d.main(argc, argv);
}
