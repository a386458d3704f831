// Conformance driver: reference geometry, misalignments, supports.
#include "vh.h"
#include <memory>
#include <random>
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "SequenceFrame.h"
#include "ComponentFrame.h"
#include "TComponentFrame.h"
#include "PatchFrame.h"
#include "GeometryPatch.h"
#include "Drift.h"
#include "SectorBend.h"
#include "MagnetMover.h"
#include "SupportStructure.h"
#include "AcceleratorSupport.h"
#include "AcceleratorErrors.h"
#include "Rotation3D.h"
#include "SimpleATL.h"
#include "RandomNG.h"
using namespace vh;
static const double U = 0.5, PI = 3.14159265358979323846;
static std::map<long long, LatticeFrame*> nodes;
static AcceleratorModel* model;
static LatticeFrame* copyOf;
static double num(const J& p) { return (p[0].D() + p[1].D() * PI / 2) * U; }
static J T(const Transform3D& t)
{
	J o = J::obj(), x = J::arr(), r = J::arr();
	x.push(J(q(t.X().x, U))).push(J(q(t.X().y, U))).push(J(q(t.X().z, U)));
	Vector3D c[3] = { t(Vector3D(1, 0, 0)), t(Vector3D(0, 1, 0)), t(Vector3D(0, 0, 1)) };
	for(int i = 0; i < 3; i++)
	{
		J row = J::arr();
		for(int j = 0; j < 3; j++) row.push(J(q(i == 0 ? c[j].x : i == 1 ? c[j].y : c[j].z)));
		r.push(row);
	}
	o.set("x", x).set("r", r); return o;
}
template<class F> static void ops(F& f, const J& os)
{
	for(auto& o : os.a)
	{
		std::string t = o["t"].S();
		if(t == "shift") f.Translate(o["v"][0].D() * U, o["v"][1].D() * U, o["v"][2].D() * U);
		else if(t == "x") f.RotateX(o["k"].D() * PI / 2);
		else if(t == "y") f.RotateY(o["k"].D() * PI / 2);
		else f.RotateZ(o["k"].D() * PI / 2);
	}
}
static Transform3D tf(const J& os) // composed outside the frame
{
	Transform3D r;
	for(auto& o : os.a)
	{
		std::string t = o["t"].S();
		Transform3D s = t == "shift" ? Transform3D::translation(o["v"][0].D() * U, o["v"][1].D() * U, o["v"][2].D() * U) :
			t == "x" ? Transform3D::rotationX(o["k"].D() * PI / 2) : t == "y" ? Transform3D::rotationY(o["k"].D() * PI / 2) :
			Transform3D::rotationZ(o["k"].D() * PI / 2);
		r = s * r;
	}
	return r;
}
static LatticeFrame* mk(const J& arr, long long id)
{
	const J& n = arr[(size_t) id - 1];
	std::string k = n["k"].S(), nm = "n" + std::to_string(id);
	LatticeFrame* f;
	if(k == "rect") f = new TComponentFrame<Drift>(*new Drift(nm, n["len"].D() * U));
	else if(k == "arc")
	{
		double rho = n["rho"].D() * U;
		f = new TComponentFrame<SectorBend>(*new SectorBend(nm, std::fabs(rho) * PI, 1 / rho, 1.0));
	}
	else if(k == "patch") { GeometryPatch* g = new GeometryPatch; ops(*g, n["ops"]); f = new PatchFrame(g, nm); }
	else
	{
		SequenceFrame* s;
		if(k == "seq") { long long o = n["org"].I(); s = new SequenceFrame(nm, o == 0 ? SequenceFrame::originAtEntrance : o == 1 ? SequenceFrame::originAtCenter : SequenceFrame::originAtExit); }
		else if(k == "mover") s = new MagnetMover(nm);
		else if(k == "simple") s = new SimpleMount(nm);
		else s = new GirderMount(nm);
		for(auto& c : n["kids"].a) s->AppendFrame(*mk(arr, c.I()));
		f = s;
	}
	nodes[id] = f;
	return f;
}
static LatticeFrame* N(const J& e) { return nodes.at(e["n"].I()); }
static MagnetMover* M(const J& e) { return static_cast<MagnetMover*>(N(e)); }
static AcceleratorSupportList sups(const J& e)
{
	AcceleratorSupportList l; static_cast<SupportStructure*>(N(e))->ExportSupports(l); return l;
}
static void all(J& o)
{
	J a = J::arr();
	for(auto& p : nodes) if(p.first != 1) a.push(T(p.second->GetPhysicalTransform()));
	o.set("phys", a);
}
static Point3D at(LatticeFrame* f, AcceleratorGeometry::BoundaryPlane p) { return (f->GetGeometryTransform(p) * f->GetPhysicalTransform()).X(); }

int main(int argc, char** argv)
{
	Driver d;
	d.reset = [] { nodes.clear(); model = nullptr; copyOf = nullptr; };
	d.ops["tree"] = [](const J& e, J& o) {
		AcceleratorModelConstructor c;
		for(auto& k : e["nodes"][(size_t) 0]["kids"].a)
		{
			LatticeFrame* f = mk(e["nodes"], k.I());
			if(auto s = dynamic_cast<SequenceFrame*>(f)) c.AppendFrame(s);
			else c.AppendComponentFrame(static_cast<ComponentFrame*>(f));
		}
		model = c.GetModel();
		nodes[1] = &model->GetGlobalFrame(); };
	d.ops["geo"] = [](const J& e, J& o) { LatticeFrame* f = e["copy"].B() ? copyOf : N(e); o.set("T", T(f->GetGeometryTransform(num(e["a"]), num(e["b"])))); };
	d.ops["to"] = [](const J& e, J& o) { o.set("T", T(N(e)->GetGeometryTransform(num(e["b"])))); };
	d.ops["planes"] = [](const J& e, J& o) {
		LatticeFrame* f = e["copy"].B() ? copyOf : N(e);
		o.set("in", T(f->GetGeometryTransform(AcceleratorGeometry::entrance))).set("out", T(f->GetGeometryTransform(AcceleratorGeometry::exit)))
		.set("total", T(f->GetTotalGeometryTransform())).set("len", J((long long) std::llround(f->GetGeometryLength() / U * 10000))); };
	d.ops["copy"] = [](const J& e, J& o) { copyOf = static_cast<LatticeFrame*>(N(e)->Copy()); o.set("T", T(copyOf->GetLocalFrameTransform())); };
	d.ops["phys"] = [](const J& e, J& o) { o.set("T", T(N(e)->GetPhysicalTransform(nodes.at(e["anc"].I())))); };
	d.ops["frame"] = [](const J& e, J& o) { o.set("T", T(N(e)->GetFrameTransform(nodes.at(e["anc"].I())))); };
	d.ops["pos"] = [](const J& e, J& o) { o.set("v", J((long long) std::llround(N(e)->GetPosition(nodes.at(e["anc"].I())) / U * 10000))); };
	d.ops["edges"] = [](const J& e, J& o) { o.set("in", T(N(e)->GetEntrancePlaneTransform())).set("out", T(N(e)->GetExitPlaneTransform())); };
	// accumulated changes of coordinates along the beamline, at the entrance of each component
	d.ops["walk"] = [](const J& e, J& o) {
		Transform3D cum; J a = J::arr();
		AcceleratorModel::Beamline b = model->GetBeamline();
		for(auto i = b.begin(); i != b.end(); ++i)
		{
			cum = (*i)->GetEntrancePlaneTransform() * cum;
			if((*i)->IsComponent()) a.push(T(cum));
			cum = (*i)->GetExitPlaneTransform() * ((*i)->GetTotalGeometryTransform() * cum);
		}
		o.set("cum", a).set("end", T(cum)); };
	auto loc = [](const J& e, J& o) { o.set("T", T(N(e)->GetLocalFrameTransform())); };
	d.ops["apply"] = [](const J& e, J& o) { ops(*N(e), e["ops"]); };
	d.ops["applyT"] = [](const J& e, J& o) { N(e)->ApplyLocalFrameTransform(tf(e["ops"])); };
	d.ops["setT"] = [](const J& e, J& o) { N(e)->SetLocalFrameTransform(tf(e["ops"])); };
	d.ops["clear"] = [](const J& e, J& o) { N(e)->ClearLocalFrameTransform(); };
	d.ops["move"] = [](const J& e, J& o) {
		std::string w = e["w"].S(); MagnetMover* m = M(e);
		if(w == "x") m->SetX(e["v"].D() * U); else if(w == "y") m->SetY(e["v"].D() * U);
		else if(w == "roll") m->SetRoll(e["v"].D() * PI / 2); else m->Reset();
		o.set("x", q(m->GetX(), U)).set("y", q(m->GetY(), U)).set("k", q(m->GetRoll(), PI / 2)); };
	d.ops["errors"] = [](const J& e, J& o) {
		AcceleratorErrors ae; const J& v = e["v"]; double s = e["rot"].B() ? PI / 2 : U;
		if(e["clear"].B()) ae.SetErrors(0, 0, 0, v[0].D() * s, v[1].D() * s, v[2].D() * s);
		else ae.AddErrors(0, 0, 0, v[0].D() * s, v[1].D() * s, v[2].D() * s);
		AcceleratorModel::Beamline b = model->GetBeamline(e["first"].I(), e["last"].I());
		if(e["rot"].B()) ae.ApplyRotations(b, e["pat"].S()); else ae.ApplyShifts(b, e["pat"].S()); };
	d.ops["all"] = [](const J& e, J& o) { all(o); };
	d.ops["offset"] = [](const J& e, J& o) {
		AcceleratorSupportList l = sups(e); AcceleratorSupport* s = l.at(e["i"].I() - 1);
		Vector3D v(e["v"][0].D() * U, e["v"][1].D() * U, e["v"][2].D() * U);
		if(e["inc"].B()) s->IncrementOffset(v); else s->SetOffset(v);
		o.set("ns", l.size()); };
	d.ops["offreset"] = [](const J& e, J& o) { for(auto s : sups(e)) s->Reset(); };
	// every support of the model: arc position and location
	d.ops["supports"] = [](const J& e, J& o) {
		AcceleratorSupportList l; size_t n = model->GetAcceleratorSupports(l);
		J a = J::arr();
		for(auto s : l)
		{
			J x = J::obj(); x.set("s", J((long long) std::llround(s->GetArcPosition() / U * 10000)));
			x.set("x", q(s->GetLocation().x, U)).set("z", q(s->GetLocation().y, U)); a.push(x);
		}
		o.set("n", n).set("list", a); };
	// ground motion: the same seed twice
	d.ops["atl"] = [](const J& e, J& o) {
		AcceleratorSupportList l; model->GetAcceleratorSupports(l);
		RandomNG::init(12345);
		SimpleATL gm(1.0, l, e["vib"].D());
		double t = 0;
		auto run = [&](bool other) {
			std::vector<double> y;
			for(auto& d : e["dts"].a) { t = gm.DoStep(d.D()); for(auto s : l) { y.push_back(s->GetOffset().x); y.push_back(s->GetOffset().y); y.push_back(s->GetOffset().z); } }
			return y; };
		gm.SetRandomSeed(e["seed"].I());
		std::vector<double> a = run(false);
		o.set("time", q(t)).set("time2", q(gm.GetTime()));
		J grp = J::arr(); bool vert = true, moved = false; // index of the first support with the same offset
		size_t n = l.size();
		for(size_t i = 0; i < n; i++)
		{
			size_t j = 0; while(std::fabs(l[j]->GetOffset().y - l[i]->GetOffset().y) > 1e-6) ++j;
			grp.push(J((long long) j + 1));
		}
		for(size_t i = 0; i < a.size(); i++) if(i % 3 == 1) moved = moved || a[i] != 0; else vert = vert && a[i] == 0;
		gm.Reset(); bool zero = gm.GetTime() == 0;
		for(auto s : l) zero = zero && s->GetOffset().x == 0 && s->GetOffset().y == 0 && s->GetOffset().z == 0;
		gm.ResetRandomSeed(); bool same = run(false) == a;
		gm.Reset(); bool differ = run(false) != a;
		gm.Reset(); gm.SetRandomSeed(e["seed"].I()); bool again = run(false) == a;
		gm.Reset();
		o.set("groups", grp).set("vertical", vert).set("moved", moved).set("zero", zero).set("same", same).set("again", again).set("differ", differ); };
	d.ops["local"] = loc;
	// tilt of a girder: displacements of its ends, in units of 1e-9, for small motion of its two supports
	d.ops["tilt"] = [](const J& e, J& o) {
		AcceleratorSupportList l = sups(e); LatticeFrame* f = N(e); const double u = 1e-9;
		for(auto s : l) s->Reset();
		Point3D a1 = at(f, AcceleratorGeometry::entrance), a2 = at(f, AcceleratorGeometry::exit);
		J r = J::arr();
		for(auto& m : e["moves"].a)
		{
			l.at(m["i"].I() - 1)->SetOffset(m["v"][0].D() * u, m["v"][1].D() * u, m["v"][2].D() * u);
			Point3D b1 = at(f, AcceleratorGeometry::entrance), b2 = at(f, AcceleratorGeometry::exit);
			J x = J::arr();
			auto p = [&](double v) { x.push(J(q(v, u, 0.05))); };
			p(b1.x - a1.x); p(b1.y - a1.y); p(b1.z - a1.z); p(b2.x - a2.x); p(b2.y - a2.y); p(b2.z - a2.z);
			r.push(x);
		}
		for(auto s : l) s->Reset();
		o.set("res", r); };
	// algebra of rotations
	d.ops["rots"] = [](const J& e, J& o) {
		Rotation3D r; J a = J::arr();
		auto mat = [](const Rotation3D& r) {
			J m = J::arr(); Vector3D c[3] = { r(Vector3D(1, 0, 0)), r(Vector3D(0, 1, 0)), r(Vector3D(0, 0, 1)) };
			for(int i = 0; i < 3; i++) { J row = J::arr(); for(int j = 0; j < 3; j++) row.push(J(q(i == 0 ? c[j].x : i == 1 ? c[j].y : c[j].z))); m.push(row); }
			return m; };
		for(auto& x : e["seq"].a)
		{
			double k = x["k"].D() * PI / 2; std::string t = x["t"].S();
			Rotation3D s = t == "x" ? Rotation3D::rotationX(k) : t == "y" ? Rotation3D::rotationY(k) : Rotation3D::rotationZ(k);
			r = s * r;
			J p = J::obj(); p.set("m", mat(r)).set("i", mat(r.inv())).set("u", mat(r * r.inv())); a.push(p);
		}
		o.set("res", a); };
	return d.main(argc, argv);
}
