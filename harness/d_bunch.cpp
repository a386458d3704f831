// Bunches: bookkeeping, slices, files, beams, macroparticles (B01-B05)
#include "vh.h"
#include "rat.h"
#include <memory>
#include <cstring>
#include <iomanip>
#include "ParticleBunch.h"
#include "ParticleBunchUtilities.h"
#include "ParticleDistributionGenerator.h"
#include "BeamData.h"
#include "BunchFilter.h"
#include "NormalTransform.h"
#include "SMPBunch.h"
#include "PSTypes.h"
#include "RMap.h"
#include "Transform3D.h"
using namespace vh;
using namespace std;
using namespace ParticleTracking;

static PSvector part(const J& e)
{
	PSvector p(0); for(int i = 0; i < 6; i++) p[i] = num(e["v"][i]); p.id() = e["id"].I(); return p;
}
static J vec(const PSvector& p) { J r = J::arr(); for(int i = 0; i < 6; i++) r.push(rat(p[i])); return r; }
static J jpart(const PSvector& p) { J o = J::obj(); o.set("v", vec(p)).set("id", J((long long) p.id())); return o; }

static vector<unique_ptr<ParticleBunch> > bs;
static ParticleBunch& B(const J& e, const char* k = "b") { return *bs.at(e[k].I() - 1); }
static J jbunch(const ParticleBunch& b)
{
	J o = J::obj(), ps = J::arr(); for(auto& p : b) ps.push(jpart(p));
	// the particles by every other way
	bool same = b.size() == b.GetParticles().size(); if(same && b.size()) same = b.FirstParticle() == b.GetParticles()[0];
	o.set("P0", rat(b.GetReferenceMomentum())).set("T", rat(b.GetReferenceTime())).set("sg", J((int) b.GetChargeSign()))
	.set("Q", rat(b.size() ? b.GetTotalCharge() : 0)).set("p", ps).set("same", J(same && b.size() == ps.size()));
	return o;
}
static void dump(J& o) { J r = J::arr(); for(auto& b : bs) r.push(jbunch(*b)); o.set("bs", r); }
static J sig(const PSmoments& S)
{
	J m = J::arr(), c = J::arr(); for(int i = 0; i < 6; i++) { m.push(rat(S.mean(i))); J row = J::arr(); for(int j = 0; j <= i; j++) row.push(rat(S(i, j))); c.push(row); }
	J o = J::obj(); o.set("m", m).set("c", c); return o;
}
static J sig2(const PSmoments2D& S) { J r = J::arr(); r.push(rat(S.mean(0))); r.push(rat(S.mean(1))); r.push(rat(S(0, 0))); r.push(rat(S(0, 1))); r.push(rat(S(1, 1))); return r; }
static PSmoments S6; static PSmoments2D S2; // reused for every question

// ---- files: numbers are what they are written as
static string tok(double v) { char b[64]; snprintf(b, 64, "%a", v); return b; }
static double val(const J& s) { return strtod(s.S().c_str(), nullptr); }
static J jtok(const ParticleBunch& b, bool ids)
{
	J ps = J::arr();
	for(auto& p : b) { J v = J::arr(); for(int i = 0; i < 6; i++) v.push(J(tok(p[i]))); if(ids) v.push(J((long long) p.id())); ps.push(v); }
	J o = J::obj(); o.set("P0", J(tok(b.GetReferenceMomentum()))).set("T", J(tok(b.GetReferenceTime()))).set("p", ps).set("Q", rat(b.size() ? b.GetTotalCharge() : 0)); return o;
}
static string text; static unique_ptr<ParticleBunch> fb;

// ---- beams
struct Given : public ParticleDistributionGenerator
{
	vector<PSvector> ps; mutable size_t k = 0;
	PSvector GenerateFromDistribution() const override { return ps.at(k++ % ps.size()); }
};
struct Odd : public ParticleBunchFilter { bool Apply(const PSvector& v) const override { return v.x() > 0; } };
static double angle(const J& c) // c: <<cosine, sine, kind>>: of a rotation or hyperbolic
{
	return c[2].S() == "cos" ? atan2(num(c[1]), num(c[0])) : asinh(num(c[1]));
}
static BeamData beam(const J& e)
{
	BeamData b; b.beta_x = num(e["bx"]) * num(e["bx"]); b.beta_y = num(e["by"]) * num(e["by"]); b.alpha_x = num(e["ax"]); b.alpha_y = num(e["ay"]);
	b.emit_x = num(e["ex"]) * num(e["ex"]); b.emit_y = num(e["ey"]) * num(e["ey"]); b.sig_dp = num(e["sdp"]); b.sig_z = num(e["sz"]);
	b.x0 = num(e["c"][0]); b.xp0 = num(e["c"][1]); b.y0 = num(e["c"][2]); b.yp0 = num(e["c"][3]); b.ct0 = num(e["c"][4]); b.p0 = num(e["P0"]); b.charge = num(e["Q"]);
	b.Dx = num(e["D"][0]); b.Dxp = num(e["D"][1]); b.Dy = num(e["D"][2]); b.Dyp = num(e["D"][3]);
	double t = angle(e["cs"]); b.c_xy = t * num(e["C"][0]); b.c_xyp = t * num(e["C"][1]); b.c_xpy = t * num(e["C"][2]); b.c_xpyp = t * num(e["C"][3]);
	return b;
}

// ---- macroparticles
using SMPTracking::SMPBunch; using SMPTracking::SliceMacroParticle;
static unique_ptr<SMPBunch> sb;
static SliceMacroParticle mkslice(const J& e)
{
	PSmoments S; for(int i = 0; i < 4; i++) { S[i] = num(e["m"][i]); for(int j = 0; j <= i; j++) S(i, j) = num(e["c"][i][j]); }
	return SliceMacroParticle(S, num(e["m"][4]), num(e["m"][5]), num(e["q"]));
}
static J jslice(const SliceMacroParticle& s)
{
	J o = J::obj(), m = J::arr(), c = J::arr(); for(int i = 0; i < 6; i++) m.push(rat(s.mean(i)));
	for(int i = 0; i < 4; i++) { J row = J::arr(); for(int j = 0; j <= i; j++) row.push(rat(s(i, j))); c.push(row); }
	o.set("q", rat(s.Q())).set("m", m).set("c", c); return o;
}
static void sdump(J& o)
{
	J r = J::arr(); for(auto& s : *sb) r.push(jslice(s));
	o.set("P0", rat(sb->GetReferenceMomentum())).set("T", rat(sb->GetReferenceTime())).set("Q", rat(sb->GetTotalCharge())).set("sg", J((int) sb->GetChargeSign())).set("s", r).set("n", J(sb->Size()));
}

int main(int argc, char** argv)
{
	Driver d;
	d.reset = []() { bs.clear(); S6 = PSmoments(); S2 = PSmoments2D(); fb.reset(); text = ""; sb.reset(); };
	d.ops["reset"] = [](const J&, J&) {};
	d.ops["make"] = [=](const J& e, J& o)
	{
		if(e["how"].S() == "array")
		{
			PSvectorArray a; for(size_t i = 0; i < e["p"].size(); i++) a.push_back(part(e["p"][i]));
			bs.emplace_back(new ParticleBunch(num(e["P0"]), num(e["Q"]), a)); o.set("left", J(a.size()));
		}
		else if(e["how"].S() == "default") { bs.emplace_back(new ParticleBunch(num(e["P0"]))); o.set("left", J(0)); }
		else { bs.emplace_back(new ParticleBunch(num(e["P0"]), num(e["Q"]))); o.set("left", J(0)); }
		dump(o);
	};
	d.ops["copy"] = [=](const J& e, J& o) { bs.emplace_back(new ParticleBunch(B(e))); dump(o); };
	d.ops["assign"] = [=](const J& e, J& o) { B(e, "to") = B(e); dump(o); };
	d.ops["add"] = [=](const J& e, J& o)
	{
		if(e["how"].S() == "add") o.set("n", J(B(e).AddParticle(part(e["p"])))); else { B(e).push_back(part(e["p"])); o.set("n", J(B(e).size())); }
		dump(o);
	};
	d.ops["erase"] = [=](const J& e, J& o) { auto it = B(e).erase(B(e).begin() + (e["i"].I() - 1)); o.set("next", J((int) (it - B(e).begin()) + 1)); dump(o); };
	d.ops["clear"] = [=](const J& e, J& o) { B(e).clear(); dump(o); };
	d.ops["swap"] = [=](const J& e, J& o) { B(e).swap(B(e, "to")); dump(o); };
	d.ops["sort"] = [=](const J& e, J& o) { B(e).SortByCT(); dump(o); };
	d.ops["charge"] = [=](const J& e, J& o) { B(e).SetMacroParticleCharge(num(e["q"])); dump(o); };
	d.ops["ref"] = [=](const J& e, J& o)
	{
		double x = num(e["x"]), r = 0; string w = e["what"].S();
		if(w == "P0") { B(e).SetReferenceMomentum(x); r = x; } else if(w == "T") { B(e).SetReferenceTime(x); r = x; }
		else if(w == "dP0") r = B(e).IncrReferenceMomentum(x); else r = B(e).IncrReferenceTime(x);
		o.set("ret", rat(r)); dump(o);
	};
	d.ops["adjust"] = [=](const J& e, J& o)
	{
		string w = e["what"].S();
		double r = w == "mean" ? B(e).AdjustRefMomentumToMean() : w == "time" ? B(e).AdjustRefTimeToMean() : B(e).AdjustRefMomentum(num(e["d"]));
		o.set("ret", rat(r)); dump(o);
	};
	d.ops["centre"] = [=](const J& e, J& o) { if(e["given"].B()) B(e).SetCentroid(part(e["p"])); else B(e).SetCentroid(); dump(o); };
	d.ops["moments"] = [=](const J& e, J& o)
	{
		ParticleBunch& b = B(e); int u = e["u"].I(), v = e["v"].I();
		o.set("all", sig(b.GetMoments(S6))).set("fresh", sig(static_cast<Bunch&>(b).GetMoments()));
		b.GetProjectedMoments(u, v, S2); o.set("proj", sig2(S2));
		PSvector c(7); b.GetCentroid(c); o.set("centroid", vec(c)); Point2D p = b.GetProjectedCentroid(u, v); J q = J::arr(); q.push(rat(p.x)); q.push(rat(p.y)); o.set("pc", q);
		pair<double, double> m = b.GetMoments(u); J s = J::arr(); s.push(rat(m.first)); s.push(rat(m.second * m.second)); o.set("one", s);
		dump(o);
	};
	d.ops["slices"] = [=](const J& e, J& o)
	{
		ParticleBunch& b = B(e); double z0 = num(e["from"]), z1 = num(e["to"]);
		if(e["edge"].B()) { PSvector p(0); p.ct() = nextafter(z1, -1e9); p.id() = 999; b.AddParticle(p); }
		vector<ParticleBunch::iterator> bins; vector<double> h(3, 9), hp(2, 9), c; for(size_t i = 0; i < e["c"].size(); i++) c.push_back(num(e["c"][i]));
		size_t lost = ParticleBinList(b, z0, z1, e["n"].I(), bins, h, hp, c.empty() ? nullptr : &c);
		J k = J::arr(), a = J::arr(), ap = J::arr(); for(auto& i : bins) k.push(J((int) (i - b.begin()))); for(double x : h) a.push(rat(x)); for(double x : hp) ap.push(rat(x));
		o.set("lost", J(lost)).set("bins", k).set("h", a).set("hp", ap); dump(o);
	};
	d.ops["histogram"] = [=](const J& e, J& o)
	{
		vector<double> h(2, 9); size_t lost = ParticleBunchDistribution(B(e), e["u"].I(), num(e["from"]), num(e["to"]), num(e["du"]), h, e["norm"].B(), e["cut"].B());
		J a = J::arr(); for(double x : h) a.push(rat(x)); o.set("lost", J(lost)).set("h", a); dump(o);
	};

	// ---- files
	d.ops["fmake"] = [=](const J& e, J& o)
	{
		PSvectorArray a; for(size_t i = 0; i < e["p"].size(); i++) { PSvector p(0); for(int k = 0; k < 6; k++) p[k] = val(e["p"][i][k]); p.id() = e["p"][i][6].I(); a.push_back(p); }
		fb.reset(a.empty() ? new ParticleBunch(val(e["P0"]), num(e["Q"])) : new ParticleBunch(val(e["P0"]), num(e["Q"]), a)); fb->SetReferenceTime(val(e["T"])); o.set("got", jtok(*fb, true));
	};
	d.ops["fwrite"] = [=](const J& e, J& o) // appended to the text
	{
		ostringstream os; if(e["fmt"].B()) { os << fixed << setprecision(3) << showpos; }
		auto f = os.flags(); auto p = os.precision(); string w = e["how"].S();
		if(w == "plain") fb->Output(os); else if(w == "header") fb->Output(os, true); else if(w == "bare") fb->Output(os, false);
		else if(w == "index") fb->OutputIndexParticle(os, e["i"].I() - 1); else for(auto& q : *fb) os << q;
		int nl = 0; for(char c : os.str()) nl += c == '\n';
		text += os.str(); o.set("lines", J(nl)).set("kept", J(w == "vectors" || (f == os.flags() && p == os.precision())));
	};
	d.ops["ftext"] = [=](const J& e, J& o) { text += e["s"].S(); };
	d.ops["fnew"] = [=](const J& e, J& o) { text = ""; };
	d.ops["fread"] = [=](const J& e, J& o)
	{
		istringstream is(text); string w = e["how"].S();
		if(w == "input") { if(!e["append"].B() || !fb) fb.reset(new ParticleBunch(7, 3)); fb->Input(num(e["Q"]), is); }
		else fb.reset(new ParticleBunch(val(e["P0"]), num(e["Q"]), is)); // vectors
		o.set("got", jtok(*fb, w != "input" ? true : false));
		J ids = J::arr(); for(auto& p : *fb) ids.push(J((long long) p.id())); o.set("ids", ids);
	};

	// ---- beams
	d.ops["generate"] = [=](const J& e, J& o)
	{
		Given g; for(size_t i = 0; i < e["p"].size(); i++) g.ps.push_back(part(e["p"][i]));
		BeamData bd = beam(e["beam"]); unique_ptr<ParticleBunchFilter> f; string w = e["filter"].S();
		if(w == "odd") f.reset(new Odd); else if(w == "x") { auto h = new HorizontalHaloParticleBunchFilter; f.reset(h); h->SetHorizontalLimit(num(e["lim"])); h->SetHorizontalOrbit(num(e["orb"])); }
		else if(w == "y") { auto h = new VerticalHaloParticleBunchFilter; f.reset(h); h->SetVerticalLimit(num(e["lim"])); }
		ParticleBunch b(e["n"].I(), g, bd, f.get()); o.set("got", jbunch(b)).set("drawn", J(g.k));
	};
	d.ops["sigma"] = [=](const J& e, J& o)
	{
		BeamData bd = beam(e["beam"]); BeamDataToSigmaMtrx(bd, S6); o.set("got", sig(S6));
		// from the moments of a bunch at that matrix back to the beam
		BeamData r; SigmaMatrixToBeamData(S6, r); J b = J::arr();
		for(double x : {r.beta_x, r.beta_y, r.alpha_x, r.alpha_y, r.emit_x, r.emit_y, r.sig_dp, r.sig_z, r.x0, r.xp0, r.y0, r.yp0, r.ct0, r.Dx, r.Dxp, r.Dy, r.Dyp}) b.push(rat(x));
		o.set("back", b); PSmoments again; BeamDataToSigmaMtrx(r, again); o.set("again", sig(again));
		pair<double, double> ne = NormalModeEmittance(S6); J n = J::arr(); n.push(rat(ne.first)); n.push(rat(ne.second)); o.set("emit", n);
		J s = J::arr(); for(double x : {bd.sigma_x(), bd.sigma_y(), bd.sigma_xp(), bd.sigma_yp()}) s.push(rat(x * x)); o.set("size", s);
		J pe = J::arr(); double a = ProjectedEmittance(S6, ps_X, ps_XP), q = ProjectedEmittance(S6, ps_Y, ps_YP); pe.push(rat(a * a)); pe.push(rat(q * q)); o.set("pemit", pe);
	};

	// ---- macroparticles
	d.ops["smake"] = [=](const J& e, J& o) { sb.reset(new SMPBunch(num(e["ref"]), num(e["charge"]))); sdump(o); };
	d.ops["sadd"] = [=](const J& e, J& o) { sb->AddParticle(mkslice(e["given"]), e["sort"].B()); sdump(o); };
	d.ops["ssort"] = [=](const J& e, J& o) { sb->SortByCT(); sdump(o); };
	d.ops["sshift"] = [=](const J& e, J& o) { sb->AdjustCentroid(part(e["p"])); sdump(o); };
	d.ops["sref"] = [=](const J& e, J& o) { if(e["what"].S() == "P0") sb->SetReferenceMomentum(num(e["x"])); else sb->SetReferenceTime(num(e["x"])); sdump(o); };
	d.ops["sadjust"] = [=](const J& e, J& o) { double r = e["what"].S() == "mean" ? sb->AdjustRefMomentumToMean() : sb->AdjustRefTimeToMean(); o.set("ret", rat(r)); sdump(o); };
	d.ops["sturn"] = [=](const J& e, J& o) { sb->ApplyTransformation(Transform3D(Point3D(num(e["x"]), num(e["y"]), 0), Rotation3D::rotationZ(atan2(num(e["u"][1]), num(e["u"][0]))))); sdump(o); };
	d.ops["smoments"] = [=](const J& e, J& o)
	{
		int u = e["u"].I(), v = e["v"].I(); o.set("all", sig(sb->GetMoments(S6))); sb->GetProjectedMoments(u, v, S2); o.set("proj", sig2(S2));
		PSvector c(7); sb->GetCentroid(c); o.set("centroid", vec(c)); Point2D p = sb->GetProjectedCentroid(u, v); J q = J::arr(); q.push(rat(p.x)); q.push(rat(p.y)); o.set("pc", q); sdump(o);
	};
	d.ops["sfile"] = [=](const J& e, J& o)
	{
		char n[] = "/tmp/vh_smp_XXXXXX"; int fd = mkstemp(n); if(fd < 0) throw runtime_error("json: no scratch file"); fclose(fdopen(fd, "w"));
		{ ofstream f(n); sb->Output(f); }
		sb.reset(new SMPBunch(string(n))); remove(n); sdump(o);
	};
	return d.main(argc, argv);
}
