// BOUNDS: all angles in [-25,25] radians (three turns either way) for range reduction, all degrees in [0,360] for degree-minute-second conversion; all points with coordinates in [-8,8]; radii in [0,8]
// OUTSIDE: rounding (range reduction is exact up to the stated tolerance), values of atan2/acos beyond their defining identities
#include "h.h"
#include "mml/base/Geometry/Geometry.h"
#include "mml/base/BaseUtils/AngleCoordUtils.h"
static const double PI = 3.14159265358979323846;
CASE(deg) { double d = sym::real("d", -720, 720); sym::obs("d", d); sym::eq(Utils::DegToRad(d), d * PI / 180, "degrees to radians"); sym::eq(Utils::RadToDeg(Utils::DegToRad(d)), d, "round trip"); }
CASE(dms) { double a = sym::real("a", 0, 6), g, m, s; Utils::AngleDegToExplicit(a, g, m, s); sym::obs("g", g); sym::eq(Utils::ExplicitToAngleDeg(g, m, s), a, "degrees, minutes, seconds recombine"); sym::check(g >= 0 && m >= 0 && m < 60 && s >= -1e-6 && s < 60 + 1e-6, "minutes and seconds in range"); sym::check(g == std::floor(g) && m == std::floor(m), "whole degrees and minutes"); sym::eq(Utils::ExplicitToAngleRad(g, m, s), a * PI / 180, "radian form"); }
CASE(dmsr) { double g = sym::real("g", 0, 6), m = sym::real("m", 0, 60), s = sym::real("s", 0, 60); sym::eq(Utils::ExplicitToAngleDeg(g, m, s) * 3600, g * 3600 + m * 60 + s, "recombination"); sym::obs("s", s); }
CASE(range) { double a = sym::real("a", -25, 25), r = Utils::AngleTo2PiRange(a), q = Utils::AngleToPiPiRange(a); sym::obs("r", r); sym::check(r >= 0 && r < 2 * PI, "[0,2pi)"); sym::check(q >= -PI && q < PI, "[-pi,pi)"); double t = r - a; bool ok = false, ok2 = false; double u = q - a; for (int k = -5; k <= 5; k++) { double e = t - k * 2 * PI, f = u - k * 2 * PI; if (e < 1e-9 && e > -1e-9) ok = true; if (f < 1e-9 && f > -1e-9) ok2 = true; } sym::check(ok && ok2, "differs by whole turns"); sym::eq(std::sin(r), std::sin(a), "same sine"); sym::eq(std::cos(q), std::cos(a), "same cosine"); }
CASE(rangeidem) { double a = sym::real("a", 0, 2 * PI); sym::assume(a < 2 * PI); sym::eq(Utils::AngleTo2PiRange(a), a, "identity inside the range"); double b = a - PI; sym::assume(b >= -PI && b < PI); sym::eq(Utils::AngleToPiPiRange(b), b, "identity inside the symmetric range"); sym::obs("a", a); }
CASE(p2) { double x = sym::real("x"), y = sym::real("y"), u = sym::real("u"), v = sym::real("v"), s = sym::real("s"); Pnt2Cart a(x, y), b(u, v); sym::obs("x", x); sym::check((a + b) == Pnt2Cart(x + u, y + v) && (a - b) == Pnt2Cart(x - u, y - v) && (a * s) == Pnt2Cart(x * s, y * s) && s * a == a * s, "point arithmetic"); Pnt2Cart c = a; c += b; sym::check(c == a + b, "+="); c -= b; sym::check(c == a, "-="); c *= s; sym::check(c == a * s, "*="); c = a; c += c; sym::check(c == a * 2, "+= itself"); c = a; c *= c.Y(); sym::check(c == a * y, "*= own coordinate"); if (s != 0) { c = a; c /= s; sym::check(c == a / s && (a / s) * s == a, "/="); } double d = a.Dist(b); sym::check(d >= 0, "distance nonnegative"); sym::eq(d * d, (x - u) * (x - u) + (y - v) * (y - v), "distance"); sym::eq(b.Dist(a), d, "distance symmetric"); sym::check((a == b) == (x == u && y == v) && (a != b) == !(a == b), "equality"); sym::check(a.IsEqualTo(b, 0.5) == (d < 0.5), "approximate equality"); }
CASE(p3) { double x = sym::real("x"), y = sym::real("y"), z = sym::real("z"), u = sym::real("u"), v = sym::real("v"), w = sym::real("w"), s = sym::real("s"); Pnt3Cart a(x, y, z), b(u, v, w); sym::obs("x", x); sym::check((a + b) == Pnt3Cart(x + u, y + v, z + w) && (a - b) == Pnt3Cart(x - u, y - v, z - w) && (a * s) == Pnt3Cart(x * s, y * s, z * s) && s * a == a * s, "point arithmetic"); Pnt3Cart c = a; c += b; sym::check(c == a + b, "+="); c -= b; sym::check(c == a, "-="); c *= s; sym::check(c == a * s, "*="); c = a; c -= c; sym::check(c == Pnt3Cart(), "-= itself"); if (s != 0) { c = a; c /= s; sym::check(c == a / s && (a / s) * s == a, "/="); } double d = a.Dist(b); sym::check(d >= 0, "distance nonnegative"); sym::eq(d * d, (x - u) * (x - u) + (y - v) * (y - v) + (z - w) * (z - w), "distance"); sym::check((a == b) == (x == u && y == v && z == w) && (a != b) == !(a == b), "equality"); sym::check(a.IsEqualTo(b, 0.5) == (d < 0.5), "approximate equality"); }
CASE(polar) { double x = sym::real("x"), y = sym::real("y"); Pnt2Cart a(x, y); Pnt2Pol p(a); Pnt2Cart b = p.TransfToCart(); sym::obs("x", x); sym::eq(b.X(), x, "polar round trip x"); sym::eq(b.Y(), y, "polar round trip y"); sym::check(p.R() >= 0 && p.Phi() >= -PI && p.Phi() <= PI, "polar ranges"); double r, f, u, v; Utils::CartesianToPolar(x, y, r, f); Utils::PolarToCartesian(r, f, u, v); sym::eq(u, x, "utility round trip x"); sym::eq(v, y, "utility round trip y"); sym::eq(r, p.R(), "same radius"); sym::eq(f, p.Phi(), "same angle"); }
CASE(sph) { double x = sym::real("x"), y = sym::real("y"), z = sym::real("z"); Pnt3Sph p(Pnt3Cart(x, y, z)); Pnt3Cart b = p.TransfToCart(); sym::obs("x", x); sym::eq(b.X(), x, "spherical round trip x"); sym::eq(b.Y(), y, "spherical round trip y"); sym::eq(b.Z(), z, "spherical round trip z"); sym::check(p.R() >= 0 && p.Theta() >= 0 && p.Theta() <= PI && p.Phi() >= -PI && p.Phi() <= PI, "spherical ranges"); }
CASE(sphutil) { double x = sym::real("x"), y = sym::real("y"), z = sym::real("z"); double r, t, f, u, v, w; Utils::CartesianToSpherical(x, y, z, r, t, f); Utils::SphericalToCartesian(r, t, f, u, v, w); sym::obs("x", x); sym::eq(u, x, "utility round trip x"); sym::eq(v, y, "utility round trip y"); sym::eq(w, z, "utility round trip z"); sym::check(r >= 0 && t >= 0 && t <= PI, "ranges"); }
CASE(cyl) { double x = sym::real("x"), y = sym::real("y"), z = sym::real("z"); Pnt3Cyl p(Pnt3Cart(x, y, z)); Pnt3Cart b = p.TransfToCart(); sym::obs("x", x); sym::eq(b.X(), x, "cylindrical round trip x"); sym::eq(b.Y(), y, "cylindrical round trip y"); sym::eq(b.Z(), z, "cylindrical round trip z"); double r, f, zz, u, v, w; Utils::CartesianToCylindrical(x, y, z, r, f, zz); Utils::CylindricalToCartesian(r, f, zz, u, v, w); sym::eq(u, x, "utility round trip x"); sym::eq(v, y, "utility round trip y"); sym::eq(w, z, "utility round trip z"); sym::eq(r, p.R(), "same radius"); }
CASEN(dist, 0, 2, 2) { double r = sym::real("r", 0, 8), s = n == 2 ? 2.0 : sym::real("s", 0, 8), f = sym::real("f", -3, 3), g = sym::real("g", -3, 3), t = sym::real("t", 0, 3), q = sym::real("q", 0, 3); sym::obs("r", r); double d, e; if (n == 0) { Pnt2Pol a(r, f), b(s, g); d = a.Dist(b); e = a.TransfToCart().Dist(b.TransfToCart()); } else if (n == 1) { Pnt3Cyl a(r, f, t), b(s, g, q); d = a.Dist(b); e = a.TransfToCart().Dist(b.TransfToCart()); } else { Pnt3Sph a(r, t, f), b(s, q, g); Pnt3Cart A = a.TransfToCart(), B = b.TransfToCart(); double cg = std::cos(t) * std::cos(q) + std::sin(t) * std::sin(q) * std::cos(g - f); sym::assume(cg <= 1 && cg >= -1); d = a.Dist(b); e = A.Dist(B); } sym::eq(d * d, e * e, "distance agrees with Cartesian distance"); sym::check(d >= 0, "distance nonnegative"); }
