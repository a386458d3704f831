// Conformance driver: apertures, interpolated apertures, aperture tables, aperture survey.
#include "vh.h"
#include <memory>
#include <cstring>
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "Drift.h"
#include "StandardMultipoles.h"
#include "SectorBend.h"
#include "Marker.h"
#include "Monitor.h"
#include "Collimator.h"
#include "Aperture.h"
#include "CollimatorAperture.h"
#include "InterpolatedApertures.h"
#include "ApertureConfiguration.h"
#include "ApertureSurvey.h"
#include "DataTable.h"
using namespace vh;
// transverse unit, longitudinal unit
static const double W = 1.0 / 64, U = 0.125;
static const double HALFPI = std::atan2(1.0, 0.0);

static std::unique_ptr<Aperture> ap;
static std::vector<AcceleratorComponent*> comps;
static std::vector<Aperture*> own;
static std::unique_ptr<AcceleratorModel> model;
static std::unique_ptr<ApertureConfiguration> conf;
static int files;

static std::string tname(const std::string& k)
{
	return k == "circ" ? "CIRCLE" : k == "rect" ? "RECTANGLE" : k == "ell" ? "ELLIPSE" : k == "rectell" ? "RECTELLIPSE" : k == "oct" ? "OCTAGON" : k;
}
// the numbers of a table row: lengths in units, octagon angles by their tangents in quarters
static void row4(const std::string& k, const J& r, double v[4])
{
	for(size_t i = 0; i < 4; i++) v[i] = i < r.size() ? r[i].D() * W : 0;
	if(k == "oct") { v[2] = std::atan(r[2].D() / 4); v[3] = HALFPI - std::atan(r[3].D() / 4); }
}
static void cols(DataTable& t)
{
	t.AddColumn("S", 'd'); t.AddColumn("APER_1", 'd'); t.AddColumn("APER_2", 'd'); t.AddColumn("APER_3", 'd'); t.AddColumn("APER_4", 'd'); t.AddColumn("APERTYPE", 's');
}
static Aperture* ctor(const std::string& k, const J& p, double s, bool shorter)
{
	double v[4]; row4(k, p, v);
	if(k == "circ") return shorter ? new CircularAperture(v[0]) : new CircularAperture("CIRCLE", s, v[0]);
	if(k == "rect") return shorter ? new RectangularAperture(v[0], v[1]) : new RectangularAperture("RECTANGLE", s, v[0], v[1]);
	if(k == "ell") return new EllipticalAperture("ELLIPSE", s, v[0], v[1]);
	if(k == "rectell") return new RectEllipseAperture("RECTELLIPSE", s, v[0], v[1], v[2], v[3]);
	return new OctagonalAperture("OCTAGON", s, v[0], v[1], v[2], v[3]);
}
static void params(Aperture* a, J& o)
{
	J p = J::arr(); std::string k = "?";
	if(auto x = dynamic_cast<CircularAperture*>(a)) { k = "circ"; p.push(J(q(x->GetRadius(), W))); }
	else if(auto x = dynamic_cast<RectangularAperture*>(a)) { k = "rect"; p.push(J(q(x->GetRectHalfX(), W))).push(J(q(x->GetRectHalfY(), W))); }
	else if(auto x = dynamic_cast<EllipticalAperture*>(a)) { k = "ell"; p.push(J(q(x->GetEllipHalfX(), W))).push(J(q(x->GetEllipHalfY(), W))); }
	else if(auto x = dynamic_cast<RectEllipseAperture*>(a)) { k = "rectell"; p.push(J(q(x->GetRectHalfX(), W))).push(J(q(x->GetRectHalfY(), W))).push(J(q(x->GetEllipHalfX(), W))).push(J(q(x->GetEllipHalfY(), W))); }
	else if(auto x = dynamic_cast<OctagonalAperture*>(a)) { k = "oct"; p.push(J(q(x->GetRectHalfX(), W))).push(J(q(x->GetRectHalfY(), W))).push(J(q(std::tan(x->GetAngle1()) * 4))).push(J(q(std::tan(HALFPI - x->GetAngle2()) * 4))); }
	o.set("kind", J(k)).set("par", p);
}
static double tilt(const J& t) { return std::atan2(t[1].D(), t[0].D()); }
static CollimatorAperture* coll(const J& c)
{
	double w = c["w"].D() * W, h = c["h"].D() * W, t = tilt(c["t"]), L = c["len"].D() * U, x = c["ox"].D() * W, y = c["oy"].D() * W;
	std::string v = c["v"].S();
	if(v == "plain") return new CollimatorAperture(w, h, t, L, x, y);
	if(v == "unal") return new UnalignedCollimatorAperture(w, h, t, L, x, y);
	return new OneSidedUnalignedCollimatorAperture(w, h, t, L, x, y, c["side"].B());
}
static void set(CollimatorAperture* a, const std::string& f, double v)
{
	if(f == "w") a->SetEntranceWidth(v * W);
	else if(f == "h") a->SetEntranceHeight(v * W);
	else if(f == "wx") a->SetExitWidth(v * W);
	else if(f == "hx") a->SetExitHeight(v * W);
	else if(f == "oxe") a->SetExitXOffset(v * W);
	else if(f == "oye") a->SetExitYOffset(v * W);
}
static Aperture* mk(const J& a)
{
	std::string k = a["k"].S();
	if(k == "none") return nullptr;
	if(k != "coll") return ctor(k, a["p"], 0, false);
	auto c = coll(a);
	for(auto f : {"wx", "hx", "oxe", "oye"}) set(c, f, a[f].D());
	return c;
}
static int verdict(const Aperture* a, const J& p, int i)
{
	if(!a) return 2;
	return a->CheckWithinApertureBoundaries(p[i].D() * W, p[i + 1].D() * W, p[i + 2].D() * U) ? 1 : 0;
}
static AcceleratorComponent* mkcomp(const J& e)
{
	std::string ty = e["ty"].S(), nm = e["nm"].S(); double L = e["len"].D() * U;
	if(ty == "Drift") return new Drift(nm, L);
	if(ty == "Quadrupole") return new Quadrupole(nm, L, 0.0);
	if(ty == "SectorBend") return new SectorBend(nm, L, 0.0, 0.0);
	if(ty == "Monitor") return new Monitor(nm, L, 0.0);
	if(ty == "Marker") return new Marker(nm);
	return new Collimator(nm, L);
}

int main(int argc, char** argv)
{
	Driver d;
	d.reset = [] { ap.reset(); comps.clear(); own.clear(); model.reset(); conf.reset(); };
	d.ops["new"] = [](const J& e, J& o) {
		std::string k = e["k"].S(), how = e["how"].S(); double s = e["s"].D() * U;
		if(how == "row")
		{
			DataTable t; cols(t); double v[4]; row4(k, e["p"], v);
			if(e["pos"].I()) t.AddRow(s + 1, 2.0, 2.0, 2.0, 2.0, std::string("RECTANGLE"));
			t.AddRow(s, v[0], v[1], v[2], v[3], tname(k));
			auto it = t.begin(); if(e["pos"].I()) ++it;
			ap.reset(ApertureFactory::GetInstance(*it));
		}
		else ap.reset(ctor(k, e["p"], s, how == "short"));
		o.set("nil", J(!ap));
		if(ap) { o.set("type", J(ap->GetType())).set("loc", J(how == "short" ? 0 : q(ap->GetLatticeLocation(), U))); params(ap.get(), o); }
	};
	d.ops["coll"] = [](const J& e, J& o) { ap.reset(coll(e["c"])); };
	d.ops["set"] = [](const J& e, J& o) {
		auto c = dynamic_cast<CollimatorAperture*>(ap.get());
		if(e["f"].S() == "side") dynamic_cast<OneSidedUnalignedCollimatorAperture*>(c)->SetJawSide(e["v"].I() != 0);
		else set(c, e["f"].S(), e["v"].D());
	};
	d.ops["get"] = [](const J& e, J& o) {
		auto c = dynamic_cast<CollimatorAperture*>(ap.get()); J r = J::arr();
		r.push(J(q(c->GetFullEntranceWidth(), W))).push(J(q(c->GetFullEntranceHeight(), W))).push(J(q(c->GetFullExitWidth(), W))).push(J(q(c->GetFullExitHeight(), W)));
		r.push(J(q(c->GetEntranceXOffset(), W))).push(J(q(c->GetEntranceYOffset(), W))).push(J(q(c->GetExitXOffset(), W))).push(J(q(c->GetExitYOffset(), W)));
		r.push(J(q(c->GetCollimatorLength(), U))); auto s = dynamic_cast<OneSidedUnalignedCollimatorAperture*>(c); r.push(J(s ? (int) s->GetJawSide() : 0));
		o.set("got", r);
	};
	d.ops["prof"] = [](const J& e, J& o) {
		DataTable t; cols(t); std::string k = e["k"].S();
		for(auto& x : e["ks"].a) { double v[4]; row4(k, x["p"], v); t.AddRow(x["s"].D() * U, v[0], v[1], v[2], v[3], tname(k)); }
		ap.reset(InterpolatorFactory::GetInstance(t));
		o.set("type", J(ap ? ap->GetType() : std::string("none")));
	};
	d.ops["pts"] = [](const J& e, J& o) { J r = J::arr(); for(auto& p : e["q"].a) r.push(J(verdict(ap.get(), p, 0))); o.set("v", r); };
	// machines and tables
	d.ops["machine"] = [](const J& e, J& o) {
		AcceleratorModelConstructor c; double z = 0;
		for(auto& x : e["elems"].a)
		{
			AcceleratorComponent* a = mkcomp(x); comps.push_back(a);
			own.push_back(mk(x["own"])); a->SetAperture(own.back());
			a->SetComponentLatticePosition(z); z += a->GetLength();
			std::string ty = x["ty"].S();
			if(ty == "Drift") c.AppendComponent(*static_cast<Drift*>(a));
			else if(ty == "Quadrupole") c.AppendComponent(*static_cast<Quadrupole*>(a));
			else if(ty == "SectorBend") c.AppendComponent(*static_cast<SectorBend*>(a));
			else if(ty == "Monitor") c.AppendComponent(*static_cast<Monitor*>(a));
			else if(ty == "Marker") c.AppendComponent(*static_cast<Marker*>(a));
			else c.AppendComponent(*static_cast<Collimator*>(a));
		}
		model.reset(c.GetModel());
	};
	d.ops["table"] = [](const J& e, J& o) {
		std::string f = "aper_table.tfs";
		{
			std::ofstream os(f); os.precision(17);
			os << "@ NAME %08s \"APERTURE\"\n* NAME KEYWORD S L APER_1 APER_2 APER_3 APER_4 APERTYPE\n$ %s %s %le %le %le %le %le %le %s\n";
			int n = 0;
			for(auto& x : e["rows"].a)
			{
				std::string k = x["k"].S(); double v[4]; row4(k, x["p"], v);
				if(k == "blank") v[0] = v[1] = v[2] = v[3] = 0;
				os << "\"E" << ++n << "\" \"DRIFT\" " << x["s"].D() * U << ' ' << x["len"].D() * U << ' ' << v[0] << ' ' << v[1] << ' ' << v[2] << ' ' << v[3] << " \"" << (k == "blank" ? "NONE" : tname(k)) << "\"\n";
			}
		}
		conf.reset(new ApertureConfiguration(f)); std::remove(f.c_str());
		J r = J::arr();
		for(auto row : conf->ApertureDataTable)
		{
			J x = J::arr(); x.push(J(q(row.Get_d("S"), U))).push(J(row.Get_s("APERTYPE"))); r.push(x);
		}
		o.set("knots", r);
	};
	d.ops["conf"] = [](const J& e, J& o) {
		std::ostringstream log; if(e["log"].B()) conf->SetLogFile(log); else conf->log = nullptr;
		conf->ConfigureElementApertures(model.get()); conf->log = nullptr;
		long long n = 0; for(char ch : log.str()) if(ch == '\n') ++n;
		o.set("lines", J(n));
	};
	d.ops["delall"] = [](const J& e, J& o) { ApertureConfiguration* c = conf.get(); c->DeleteAllApertures(model.get()); for(auto& x : own) x = nullptr; };
	d.ops["apts"] = [](const J& e, J& o) { J r = J::arr(); for(auto& p : e["q"].a) r.push(J(verdict(comps[p[0].I() - 1]->GetAperture(), p, 1))); o.set("v", r); };
	d.ops["types"] = [](const J& e, J& o) {
		J r = J::arr();
		for(size_t i = 0; i < comps.size(); i++)
		{
			auto a = comps[i]->GetAperture(); r.push(J(!a ? std::string("none") : own[i] ? std::string(a == own[i] ? "own" : "replaced") : a->GetType()));
		}
		o.set("got", r);
	};
	d.ops["survey"] = [](const J& e, J& o) {
		std::ostringstream os; std::string m = e["mode"].S();
		auto mode = m == "points" ? ApertureSurvey::points_per_element : m == "dist" ? ApertureSurvey::distance : ApertureSurvey::abs_distance;
		double step = e["step"].D() * (m == "points" ? 1 : U);
		std::string text;
		if(e["file"].B())
		{
			ApertureSurvey::ApertureSurvey(model.get(), std::string("survey.txt"), mode, step);
			std::ifstream in("survey.txt"); std::stringstream ss; ss << in.rdbuf(); text = ss.str(); std::remove("survey.txt");
		}
		else { ApertureSurvey::ApertureSurvey(model.get(), &os, mode, step); text = os.str(); }
		std::istringstream in(text); std::string line; J r = J::arr(); std::getline(in, line); o.set("head", J(line));
		while(std::getline(in, line))
		{
			std::istringstream ls(line); std::string nm, ty; double se, L, s, l[4]; ls >> nm >> ty >> se >> L >> s >> l[0] >> l[1] >> l[2] >> l[3];
			J x = J::arr(); x.push(J(nm)).push(J(ty)).push(J(q(se, U, 1e-3))).push(J(q(L, U, 1e-3))).push(J(q(s, U, 1e-3)));
			for(double v : l) x.push(J(q(v, 1e-6, 0.6)));
			r.push(x);
		}
		o.set("rows", r);
	};
	return d.main(argc, argv);
}
