// Elements for the drivers of maps and rings. Numbers are integers in units of 1e-6.
#pragma once
#include "vh.h"
#include <memory>
#include "ParticleBunch.h"
#include "ParticleTracker.h"
#include "Drift.h"
#include "StandardMultipoles.h"
#include "CorrectorDipoles.h"
#include "SectorBend.h"
#include "Solenoid.h"
#include "Marker.h"
#include "Monitor.h"
#include "TWRFStructure.h"
#include "SWRFStructure.h"
#include "TransverseRFStructure.h"
#include "StdIntegrators.h"
#include "SymplecticIntegrators.h"
#include "SMPBunch.h"
#include "SMPTracker.h"
#include "SMPStdIntegrators.h"
#include "SMPComponentTracker.h"
#include "PhysicalConstants.h"
#include "PhysicalUnits.h"
using namespace vh;
using namespace ParticleTracking;
static const double U = 1e-6;
static double D(const J& j) { return j.I() * U; }
static J out(double v) { return std::isfinite(v) && std::fabs(v) < 2000 ? J((long long) std::llround(v / U)) : J(2100000000LL); }
static double angle(const J& cs) { return std::atan2((double) cs[1].I(), (double) cs[0].I()); }

static MultipoleField& terms(MultipoleField& f, const J& fs)
{
	for(auto& t : fs.a) f.SetCoefficient((size_t) t[0].I(), Complex(D(t[1]), D(t[2])));
	return f;
}
static SectorBend::PoleFace* face(const J& p) { return p.size() == 0 ? nullptr : new SectorBend::PoleFace(angle(p[0]), D(p[1]), D(p[2])); }
static AcceleratorComponent* make(const J& e, double P0)
{
	std::string k = e["k"].S(); double L = D(e["L"]);
	double brho = P0 / PhysicalUnits::eV / PhysicalConstants::SpeedOfLight;
	if(k == "drift") return new Drift("d", L);
	if(k == "marker") return new Marker("m");
	if(k == "monitor") return new Monitor("m", L, D(e["at"]));
	if(k == "sol") return new Solenoid("s", L, D(e["ks"]) * brho);
	if(k == "mult") // the coefficients of the field, for the rigidity of the beam
	{
		RectMultipole* m = new Quadrupole("m", L, 1.0);
		m->GetField() = MultipoleField(brho, 0);
		terms(m->GetField(), e["f"]);
		return m;
	}
	if(k == "pure") // by its class
	{
		std::string ty = e["ty"].S(); double g = D(e["g"]) * brho;
		if(ty == "Quadrupole") return new Quadrupole("q", L, g);
		if(ty == "SkewQuadrupole") return new SkewQuadrupole("q", L, g);
		if(ty == "Sextupole") return new Sextupole("q", L, g);
		if(ty == "SkewSextupole") return new SkewSextupole("q", L, g);
		if(ty == "Octupole") return new Octupole("q", L, g);
		if(ty == "XCor") return new XCor("q", L, g);
		if(ty == "YCor") return new YCor("q", L, g);
		if(ty == "QuadR") return new Quadrupole("q", L, g * D(e["r0"]), D(e["r0"]));
		if(ty == "SextR") return new Sextupole("q", L, g * D(e["r0"]) * D(e["r0"]) / 2, D(e["r0"]));
	}
	if(k == "bend")
	{
		SectorBend* b = new SectorBend("b", L, D(e["h"]), D(e["b0"]) * brho);
		for(auto& t : e["f"].a) b->GetField().SetCoefficient((size_t) t[0].I(), Complex(D(t[1]), D(t[2])) / D(e["b0"]));
		b->GetGeometry().SetTilt(angle(e["tilt"]));
		if(e["faces"].S() == "both") b->SetPoleFaceInfo(face(e["in"]), face(e["out"]));
		else if(e["faces"].S() == "same") b->SetPoleFaceInfo(face(e["in"]));
		return b;
	}
	if(k == "tw")
	{
		TWRFStructure* c = new TWRFStructure("c", L, D(e["wk"]) * PhysicalConstants::SpeedOfLight / 6.283185307179586477, D(e["g"]) * P0, angle(e["phi"]));
		if(e["full"].I() != 2) c->GetField().SetFullAcceleration(e["full"].I() == 1);
		return c;
	}
	if(k == "sw")
	{
		return new SWRFStructure("c", (int) e["n"].I(), D(e["wk"]) * PhysicalConstants::SpeedOfLight / 6.283185307179586477, D(e["g"]) * P0, angle(e["phi"]));
	}
	if(k == "trf") return new TransverseRFStructure("c", L, D(e["wk"]) * PhysicalConstants::SpeedOfLight / 6.283185307179586477, D(e["g"]) * P0, angle(e["phi"]), angle(e["th"]));
	throw std::runtime_error("json: kind " + k);
}
