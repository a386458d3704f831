// Conformance driver: accelerator model construction, queries, iteration, insertion, name patterns.
#include "vh.h"
#include <cstring>
#include <memory>
#include <set>
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "SequenceFrame.h"
#include "ComponentFrame.h"
#include "TComponentFrame.h"
#include "PatchFrame.h"
#include "GeometryPatch.h"
#include "Drift.h"
#include "StandardMultipoles.h"
#include "SectorBend.h"
#include "Marker.h"
#include "BPM.h"
#include "StringPattern.h"
#include "Collimator.h"
using namespace vh;
typedef AcceleratorModel AM;

static std::unique_ptr<AcceleratorModelConstructor> ctor;
static AM* model = nullptr; // leaked on reset (ownership is not under test)
static std::vector<SequenceFrame*> frames;
static AcceleratorComponent* mk(const std::string& type, const std::string& name, double len)
{
	if(type == "Drift") return new Drift(name, len);
	if(type == "Quadrupole") return new Quadrupole(name, len, 1.0);
	if(type == "Sextupole") return new Sextupole(name, len, 1.0);
	if(type == "Marker") return new Marker(name);
	if(type == "BPM") return new BPM(name, len);
	if(type == "SectorBend") return new SectorBend(name, len, 0.125, 1.0);
	throw std::runtime_error("json type " + type);
}
template<class T> static ComponentFrame* frm(AcceleratorComponent* c) { return new TComponentFrame<T>(*static_cast<T*>(c)); }
static ComponentFrame* mkframe(const std::string& type, AcceleratorComponent* c)
{
	if(type == "Drift") return frm<Drift>(c);
	if(type == "Quadrupole") return frm<Quadrupole>(c);
	if(type == "Sextupole") return frm<Sextupole>(c);
	if(type == "Marker") return frm<Marker>(c);
	if(type == "BPM") return frm<BPM>(c);
	return frm<SectorBend>(c);
}
template<class T> static void app(const std::string& n, double l, double d) { ctor->AppendComponent(new T(n, l), d); }
static PatchFrame* patch(const std::string& name)
{
	GeometryPatch* g = new GeometryPatch; g->RotateZ(0.25); return new PatchFrame(g, name);
}
static void append(const std::string& type, const std::string& name, double len, double gap)
{
	if(type == "Patch") { if(gap != 0) ctor->AppendDrift(gap); ctor->AppendComponentFrame(patch(name)); return; }
	AcceleratorComponent* c = mk(type, name, len);
	if(type == "Drift") ctor->AppendComponent(static_cast<Drift*>(c), gap);
	else if(type == "Quadrupole") ctor->AppendComponent(static_cast<Quadrupole*>(c), gap);
	else if(type == "Sextupole") ctor->AppendComponent(static_cast<Sextupole*>(c), gap);
	else if(type == "Marker") ctor->AppendComponent(static_cast<Marker*>(c), gap);
	else if(type == "BPM") ctor->AppendComponent(*static_cast<BPM*>(c), gap);
	else ctor->AppendComponent(*static_cast<SectorBend*>(c), gap);
}
static SequenceFrame::Origin org(long long o)
{
	return o == 0 ? SequenceFrame::originAtEntrance : o == 1 ? SequenceFrame::originAtCenter : SequenceFrame::originAtExit;
}
static SequenceFrame* tree(const J& t)
{
	SequenceFrame* f = new SequenceFrame(t["name"].S(), org(t["org"].I()));
	frames.push_back(f);
	for(auto& k : t["kids"].a)
	{
		if(k.has("kids")) f->AppendFrame(*tree(k));
		else if(k["type"].S() == "Patch") f->AppendFrame(*patch(k["name"].S()));
		else f->AppendFrame(*mkframe(k["type"].S(), mk(k["type"].S(), k["name"].S(), k["len"].D())));
	}
	return f;
}
static J describe(ComponentFrame* cf)
{
	J o = J::obj();
	auto ext = cf->GetGeometryExtent();
	if(!cf->IsComponent())
	{
		o.set("type", "Patch").set("name", cf->GetName()).set("fname", cf->GetName()).set("idx", cf->GetBeamlineIndex()).set("cidx", cf->GetBeamlineIndex());
		o.set("len", 0).set("flen", q(cf->GetGeometryLength())).set("start", q(ext.first)).set("end", q(ext.second));
		return o;
	}
	o.set("type", cf->GetComponent().GetType()).set("name", cf->GetComponent().GetName());
	o.set("fname", cf->GetName());
	o.set("idx", cf->GetBeamlineIndex()).set("cidx", cf->GetComponent().GetBeamlineIndex());
	o.set("len", q(cf->GetComponent().GetLength())).set("flen", q(cf->GetGeometryLength()));
	o.set("start", q(ext.first)).set("end", q(ext.second));
	return o;
}
static J lattice()
{
	J a = J::arr();
	AM::Beamline b = model->GetBeamline();
	for(auto i = b.begin(); i != b.end(); ++i) a.push(describe(*i));
	return a;
}
static size_t indexOf(ComponentFrame* cf)
{
	AM::Beamline b = model->GetBeamline();
	size_t n = 0;
	for(auto i = b.begin(); i != b.end(); ++i, ++n) if(*i == cf) return n;
	return 999999;
}
static J beam(AM::Beamline& b)
{
	J o = J::obj();
	o.set("bad", false).set("fi", b.first_index()).set("li", b.last_index());
	o.set("first", indexOf(&b.First())).set("last", indexOf(&b.Last())).set("rev", b.IsReversed());
	J v = J::arr();
	if(!b.IsReversed()) for(auto i = b.begin(); i != b.end(); ++i) v.push(J(indexOf(*i)));
	o.set("visit", v);
	J t = J::arr();
	if(!b.IsReversed())
	{
		struct Tr { J* j; void operator()(ComponentFrame* f) { j->push(J(indexOf(f))); } } tr; tr.j = &t;
		b.Track(tr);
	}
	o.set("track", t);
	return o;
}
static J badbeam()
{
	J o = J::obj();
	o.set("bad", true).set("fi", 0).set("li", 0).set("first", 0).set("last", 0).set("rev", false).set("visit", J::arr()).set("track", J::arr());
	return o;
}
static J counts(std::vector<std::string> v)
{
	std::sort(v.begin(), v.end());
	J a = J::arr();
	for(size_t i = 0; i < v.size();)
	{
		size_t k = i; while(k < v.size() && v[k] == v[i]) ++k;
		J e = J::arr(); e.push(J(v[i])).push(J(k - i)); a.push(e); i = k;
	}
	return a;
}
static std::vector<ComponentFrame*> reuseC;
static std::vector<ModelElement*> reuseE;
static std::vector<AM::Index> reuseI;
template<class T> static J exttyped(const std::string& pat)
{
	std::vector<TComponentFrame<T>*> r; int n = model->ExtractTypedComponents(r, pat);
	J a = J::arr(); for(auto f : r) a.push(J(indexOf(f)));
	J o = J::obj(); o.set("n", n).set("list", a); return o;
}
template<class T> static J eltyped(const std::string& pat)
{
	std::vector<T*> r; int n = model->ExtractTypedElements(r, pat);
	std::vector<std::string> v; for(auto e : r) v.push_back(e->GetQualifiedName());
	J o = J::obj(); o.set("n", n).set("list", counts(v)); return o;
}

int main(int argc, char** argv)
{
	Driver d;
	d.reset = [] { ctor.reset(new AcceleratorModelConstructor()); model = nullptr; frames.clear();
		reuseC.clear(); reuseE.clear(); reuseI.clear(); };
	d.ops["comp"] = [](const J& e, J&) { append(e["type"].S(), e["name"].S(), e["len"].D(), e["gap"].D()); };
	d.ops["drift"] = [](const J& e, J&) { ctor->AppendDrift(e["len"].D()); };
	d.ops["newframe"] = [](const J& e, J&) {
		SequenceFrame* f = new SequenceFrame(e["name"].S(), org(e["org"].I()));
		frames.push_back(f); ctor->NewFrame(f); };
	d.ops["endframe"] = [](const J&, J& o) { ctor->EndFrame(); o.set("depth", ctor->GetCurrentFrameDepth()); };
	d.ops["appendframe"] = [](const J& e, J&) { ctor->AppendFrame(tree(e["tree"])); };
	d.ops["newmodel"] = [](const J&, J&) { ctor->NewModel(); frames.clear(); };
	d.ops["build"] = [](const J&, J& o) {
		std::ostringstream os; ctor->ReportStatistics(os);
		model = ctor->GetModel();
		o.set("lat", lattice());
		J fs = J::arr();
		for(auto f : frames)
		{
			J j = J::obj(); auto x = f->GetGeometryExtent();
			std::vector<size_t> iv; f->AppendBeamlineIndexes(iv);
			j.set("name", f->GetName()).set("start", q(x.first)).set("end", q(x.second)).set("len", q(f->GetGeometryLength())).set("idx", J::list(iv));
			fs.push(j);
		}
		o.set("frames", fs);
		SequenceFrame& g = static_cast<SequenceFrame&>(model->GetGlobalFrame());
		o.set("total", q(g.GetGeometryLength()));
		std::vector<size_t> iv; g.AppendBeamlineIndexes(iv);
		o.set("gidx", J::list(iv));
		std::string s = os.str();
		long nc = -1, ne = -1; size_t p = s.find("Total number of components:");
		if(p != std::string::npos) nc = atol(s.c_str() + p + 28);
		p = s.find("Total number of elements:"); if(p != std::string::npos) ne = atol(s.c_str() + p + 25);
		o.set("nc", nc).set("ne", ne);
	};
	d.ops["beamline"] = [](const J&, J& o) { AM::Beamline b = model->GetBeamline(); o.set("res", beam(b)); };
	d.ops["reversed"] = [](const J&, J& o) { AM::Beamline b = model->GetReversedBeamline(); o.set("res", beam(b)); };
	d.ops["range"] = [](const J& e, J& o) {
		try { AM::Beamline b = model->GetBeamline((AM::Index) e["a"].I(), (AM::Index) e["b"].I()); o.set("res", beam(b)); }
		catch(AM::BadRange&) { o.set("res", badbeam()); } };
	d.ops["rangepat"] = [](const J& e, J& o) {
		try { AM::Beamline b = model->GetBeamline(e["p1"].S(), e["p2"].S(), e["n1"].I(), e["n2"].I()); o.set("res", beam(b)); }
		catch(AM::BadRange&) { o.set("res", badbeam()); } };
	d.ops["ring"] = [](const J& e, J& o) {
		AM::RingIterator r = model->GetRing(e["n"].I());
		AM::RingIterator start = r;
		J a = J::arr(), m = J::arr(); long k = e["k"].I();
		for(long i = 0; i < k; i++) { a.push(J(indexOf(*r))); if(i % 2) ++r; else r++; m.push(J(r == start)); }
		J b = J::arr();
		for(long i = 0; i < k; i++) { if(i % 2) --r; else r--; b.push(J(indexOf(*r))); }
		o.set("fwd", a).set("back", b).set("home", m); };
	d.ops["ext"] = [](const J& e, J& o) {
		std::vector<ComponentFrame*> fresh; auto& v = e["reuse"].B() ? reuseC : fresh;
		int n = model->ExtractComponents(e["pat"].S(), v);
		J a = J::arr(); for(auto f : v) a.push(J(indexOf(f)));
		o.set("n", n).set("list", a); };
	d.ops["idx"] = [](const J& e, J& o) {
		std::vector<AM::Index> fresh; auto& v = e["reuse"].B() ? reuseI : fresh;
		size_t n = model->GetIndexes(e["pat"].S(), v);
		o.set("n", n).set("list", J::list(v)).set("list2", J::list(model->GetIndexes(e["pat"].S()))); };
	d.ops["idxsub"] = [](const J& e, J& o) {
		std::vector<AM::Index> fresh; auto& v = e["reuse"].B() ? reuseI : fresh;
		AM::Beamline b = model->GetBeamline((AM::Index) e["a"].I(), (AM::Index) e["b"].I());
		size_t n = model->GetIndexes(b, e["pat"].S(), v);
		o.set("n", n).set("list", J::list(v)); };
	d.ops["elems"] = [](const J& e, J& o) {
		std::vector<ModelElement*> fresh; auto& v = e["reuse"].B() ? reuseE : fresh;
		int n = model->ExtractModelElements(e["pat"].S(), v);
		std::vector<std::string> names; for(auto m : v) names.push_back(m->GetQualifiedName());
		o.set("n", n).set("list", counts(names)); };
	d.ops["exttyped"] = [](const J& e, J& o) {
		std::string t = e["type"].S(), p = e["pat"].S();
		J r = t == "Drift" ? exttyped<Drift>(p) : t == "Quadrupole" ? exttyped<Quadrupole>(p) : t == "Marker" ? exttyped<Marker>(p) :
			t == "BPM" ? exttyped<BPM>(p) : exttyped<Sextupole>(p);
		o.set("n", r["n"]).set("list", r["list"]); };
	d.ops["eltyped"] = [](const J& e, J& o) {
		std::string t = e["type"].S(), p = e["pat"].S();
		J r = t == "Drift" ? eltyped<Drift>(p) : t == "Quadrupole" ? eltyped<Quadrupole>(p) : t == "Marker" ? eltyped<Marker>(p) :
			t == "BPM" ? eltyped<BPM>(p) : t == "RectMultipole" ? eltyped<RectMultipole>(p) : t == "Monitor" ? eltyped<Monitor>(p) :
			t == "AcceleratorComponent" ? eltyped<AcceleratorComponent>(p) : eltyped<Sextupole>(p);
		o.set("n", r["n"]).set("list", r["list"]); };
	d.ops["install"] = [](const J& e, J& o) {
		model->InstallModelElement(mk(e["type"].S(), e["name"].S(), 0), e["at"].D());
		o.set("lat", lattice());
		// design positions of the inserted element and of the drifts around it
		J lp = J::arr();
		AM::Beamline b = model->GetBeamline();
		for(auto i = b.begin(); i != b.end(); ++i)
			if((*i)->IsComponent() && (*i)->GetComponent().GetName() == e["name"].S() && i != b.begin())
			{
				for(int k = -1; k < 2; k++) lp.push(J(q((*(i + k))->GetComponent().GetComponentLatticePosition())));
				break;
			}
		o.set("lpos", lp); };
	d.ops["match"] = [](const J& e, J& o) {
		StringPattern p(e["pat"].S()); J a = J::arr();
		StringPattern p2(p);
		for(auto& s : e["strs"].a) a.push(J(p(s.S())));
		J b = J::arr(); for(auto& s : e["strs"].a) b.push(J(p2.Match(s.S())));
		o.set("res", a).set("res2", b).set("back", (std::string) p); };
	return d.main(argc, argv);
}
