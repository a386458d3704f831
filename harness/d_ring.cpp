// Conformance driver: the optics of rings.
#include "elems.h"
#include <sys/stat.h>
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "ClosedOrbit.h"
#include "TransferMatrix.h"
#include "Dispersion.h"
#include "LatticeFunctions.h"
#include "PhaseAdvance.h"
#include "BetatronTunes.h"
static std::unique_ptr<AcceleratorModel> M;
static std::unique_ptr<LatticeFunctionTable> T;
static double P0 = 1;
static J six(const PSvector& p) { J a = J::arr(); for(int k = 0; k < 6; k++) a.push(out(p[k])); return a; }
static PSvector vec(const J& j) { PSvector p(0); for(int k = 0; k < 6; k++) p[k] = D(j[k]); return p; }
static J columns(const RealMatrix& m) { J c = J::arr(); for(int k = 0; k < 6; k++) { J r = J::arr(); for(int i = 0; i < 6; i++) r.push(out(m(i, k))); c.push(r); } return c; }
static J turn(double q) { J a = J::arr(); a.push(out(std::cos(2 * M_PI * q))).push(out(std::sin(2 * M_PI * q))); return a; }
int main(int argc, char** argv)
{
	mkdir("DataFiles", 0777); // tables write files where they are: the scratch directory of the run
	Driver d;
	d.reset = [] { T.reset(); M.reset(); };
	d.ops["ring"] = [](const J& e, J&) {
		T.reset(); M.reset(); P0 = e["P0"].D();
		AcceleratorModelConstructor c; c.NewModel(); int n = 0;
		for(auto& el : e["els"].a) { AcceleratorComponent* x = make(el, P0); x->SetName("e" + std::to_string(n++)); c.AppendComponent(*x); }
		M.reset(c.GetModel()); };
	d.ops["orbit"] = [](const J& e, J& o) {
		ClosedOrbit co(M.get(), P0); co.TransverseOnly(!e["six"].b); PSvector p(0); p.dp() = D(e["dp"]);
		co.FindClosedOrbit(p, (int) e["n"].I()); o.set("got", six(p)); };
	d.ops["tm"] = [](const J& e, J& o) {
		TransferMatrix tm(M.get(), P0); tm.SetObservationPoint((int) e["n"].I()); RealMatrix m(6); PSvector p(0);
		if(e["only"].b) { tm.FindTM(m); ClosedOrbit co(M.get(), P0); co.FindClosedOrbit(p, (int) e["n"].I()); }
		else tm.FindClosedOrbitTM(m, p);
		o.set("z", six(p)).set("M", columns(m)); };
	d.ops["part"] = [](const J& e, J& o) {
		TransferMatrix tm(M.get(), P0); RealMatrix m(6); PSvector p = vec(e["z"]); tm.FindTM(m, p, (int) e["n1"].I(), (int) e["n2"].I()); o.set("M", columns(m)); };
	d.ops["between"] = [](const J& e, J& o) {
		LatticeFunctionTable t(M.get(), P0); PhaseAdvance pa(M.get(), &t, P0); RealMatrix m = pa.TransferMapBetween((int) e["n1"].I(), (int) e["n2"].I());
		PSvector p(0); ClosedOrbit co(M.get(), P0); co.FindClosedOrbit(p, (int) e["n1"].I()); o.set("z", six(p)).set("M", columns(m)); };
	auto disp = [](int n, J& o) {
		Dispersion x(M.get(), P0); x.SetDelta(1e-7); x.FindDispersion(n); ClosedOrbit co(M.get(), P0); co.TransverseOnly(true); PSvector p(0); co.FindClosedOrbit(p, n);
		J v = J::arr(); v.push(out(x.Dx)).push(out(x.Dxp)).push(out(x.Dy)).push(out(x.Dyp)); o.set("z", six(p)).set("d", v); };
	d.ops["disp"] = [disp](const J& e, J& o) { disp((int) e["n"].I(), o); };
	d.ops["rms"] = [disp](const J& e, J& o) {
		disp(0, o); Dispersion x(M.get(), P0); x.SetDelta(1e-7); std::stringstream f; x.FindRMSDispersion(&f);
		J g = J::arr(); g.push(out(x.DxRMS)).push(out(x.DyRMS)); o.set("rms", g);
		J t = J::arr(); std::string line; while(std::getline(f, line)) { std::istringstream s(line); double v; J w = J::arr(); while(s >> v) w.push(out(v)); t.push(w); }
		o.set("file", t); };
	d.ops["rmsorbit"] = [](const J& e, J& o) { ClosedOrbit co(M.get(), P0); PSvector p = vec(e["z"]); co.FindRMSOrbit(p); o.set("rms", six(p)); };
	d.ops["orbits"] = [](const J& e, J& o) {
		T.reset(new LatticeFunctionTable(M.get(), P0)); T->UseOrbitFunctions(); T->Calculate(); J rows = J::arr();
		for(int n = 0; n < T->NumberOfRows(); n++) { J z = J::arr(); for(int k = 1; k < 5; k++) z.push(out(T->Value(k, 0, 0, n))); J x = J::obj(); x.set("s", out(T->Value(0, 0, 0, n))).set("z", z); rows.push(x); }
		ClosedOrbit co(M.get(), P0); PSvector p(0); co.SetDelta(1e-8); co.FindClosedOrbit(p); o.set("rows", rows).set("dp", out(p.dp())); };
	d.ops["twiss"] = [](const J& e, J& o) {
		T.reset(new LatticeFunctionTable(M.get(), P0)); bool third = e["third"].b;
		for(int k = 1; k < 3; k++) { for(int i = 1; i < 5; i++) for(int j = 1; j <= i; j++) if(!(i == j && i == 2 * k - 1)) T->AddFunction(i, j, k); T->AddFunction(0, 0, k); }
		if(third) T->SetForceLongitudinalStability(true);
		else { T->RemoveAllFunctions(); for(int k = 1; k < 7; k++) T->AddFunction(k, 0, 0); for(int k = 1; k < 3; k++) { for(int i = 1; i < 5; i++) for(int j = 1; j <= i; j++) T->AddFunction(i, j, k); T->AddFunction(0, 0, k); } }
		if(e["sym"].b) T->MakeTMSymplectic(true);
		T->Calculate(); J rows = J::arr();
		for(int n = 0; n < T->NumberOfRows(); n++)
		{
			J x = J::obj(), z = J::arr(), mu = J::arr(), cs = J::arr(), dd = J::arr();
			for(int k = 1; k < 7; k++) z.push(out(T->Value(k, 0, 0, n)));
			for(int k = 1; k < 3; k++)
			{
				J s = J::arr(); for(int i = 1; i < 5; i++) for(int j = 1; j <= i; j++) s.push(out(T->Value(i, j, k, n) / 10));
				x.set(k == 1 ? "s1" : "s2", s); double m = T->Value(0, 0, k, n); mu.push(out(m)); cs.push(turn(m));
			}
			if(third) for(int i = 1; i < 5; i++) dd.push(out(T->Value(i, 6, 3, n) / T->Value(6, 6, 3, n)));
			x.set("s", out(T->Value(0, 0, 0, n))).set("z", z).set("mu", mu).set("cs", cs).set("d", dd); rows.push(x);
		}
		int nr, nc; T->Size(nr, nc); J sz = J::arr(); sz.push(J(nr)).push(J(nc)); o.set("rows", rows).set("size", sz); };
	d.ops["stats"] = [](const J& e, J& o) {
		int i = (int) e["f"][0].I(), j = (int) e["f"][1].I(), k = (int) e["f"][2].I(), n1 = (int) e["n1"].I(), n2 = (int) e["n2"].I(); J t = J::arr();
		for(int n = 0; n < T->NumberOfRows(); n++) { J x = J::arr(); x.push(out(T->Value(0, 0, 0, n))).push(out(T->Value(i, j, k, n))); t.push(x); }
		o.set("table", t).set("mean", out(T->Mean(i, j, k, n1, n2))).set("rms", out(T->RMS(i, j, k, n1, n2))); };
	d.ops["at"] = [](const J& e, J& o) { o.set("got", J(T->GetSPosIndex(D(e["s"])))); };
	d.ops["phase"] = [](const J& e, J& o) {
		PhaseAdvance pa(M.get(), T.get(), P0); int a = (int) e["n1"].I(), b = (int) e["n2"].I(); bool h = e["h"].b; std::string by = e["by"].S(); double v = 0;
		if(by == "index") v = pa.PhaseAdvanceBetween(a, b, h); else if(by == "start") v = pa.PhaseAdvanceBetween(b, h);
		else if(by == "get") v = h ? pa.GetPhaseAdvanceX(b, a) : pa.GetPhaseAdvanceY(b, a);
		else v = pa.PhaseAdvanceBetween(std::string("e" + std::to_string(a)), std::string("e" + std::to_string(b)), h);
		J mu = J::arr(); for(int n = 0; n < T->NumberOfRows(); n++) { J x = J::arr(); x.push(out(T->Value(0, 0, 1, n))).push(out(T->Value(0, 0, 2, n))); mu.push(x); }
		o.set("got", out(v)).set("mu", mu); };
	d.ops["tunes"] = [](const J& e, J& o) {
		BetatronTunes bt(M.get(), P0); PSvector p = vec(e["z"]); bt.FindTunes(p, (int) e["N"].I(), e["diff"].b);
		o.set("x", turn(bt.Qx)).set("y", turn(bt.Qy)).set("dx", out(bt.dQx)).set("dy", out(bt.dQy)); };
	return d.main(argc, argv);
}
