// exact fractions to and from the real numbers of the library
#pragma once
#include "vh.h"
#include <complex>
namespace vh
{
inline double num(const J& v) { return (double) v[0].I() / (double) v[1].I(); }
inline J pair2(long long a, long long b) { J r = J::arr(); r.push(J(a)); r.push(J(b)); return r; }
// the simplest fraction within rounding, or <<0, 0>>
inline J rat(double v)
{
	if(!std::isfinite(v) || fabs(v) > 30000) return pair2(0, 0);
	double tol = 1e-11 * std::max(1.0, fabs(v)), x = fabs(v);
	long long p0 = 0, q0 = 1, p1 = 1, q1 = 0; double y = x;
	for(int k = 0; k < 40; k++)
	{
		long long a = (long long) floor(y), p = a * p1 + p0, q = a * q1 + q0;
		if(q > 30000) break;
		p0 = p1; q0 = q1; p1 = p; q1 = q;
		if(fabs((double) p / q - x) <= tol) return pair2(v < 0 && p ? -p : p, q);
		// rounding may leave y just below an integer: then the next convergent would do
		double f = y - a;
		if(f < 1e-13) break;
		y = 1 / f;
	}
	return pair2(0, 0);
}
inline J rat(const std::complex<double>& z) { J r = J::arr(); r.push(rat(z.real())); r.push(rat(z.imag())); return r; }
}
