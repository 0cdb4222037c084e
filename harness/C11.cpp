// BOUNDS: every pair of the nine interval kinds (bounded, half-infinite, R; open/closed ends) with arbitrary real bounds in [-8,8] (lower <= upper, degenerate ones closed) and an arbitrary test point; covering sizes -1..5
// OUTSIDE: reversed bounds; intervals with periodic holes beyond membership; formatted output; rounding in coverings
#include "h.h"
#include <memory>
#include "mml/base/Intervals.h"
typedef std::unique_ptr<BaseInterval> I;
struct Ref { double l, u; int lo, uo; bool in(double x) const { return (lo == 2 || (lo == 1 ? x >= l : x > l)) && (uo == 2 || (uo == 1 ? x <= u : x < u)); } bool empty() const { return lo != 2 && uo != 2 && (l > u || (l == u && !(lo == 1 && uo == 1))); } };
static I mk(int k, const char *n, Ref &r) { double l = sym::real(n, 0, -8, 8), u = sym::real(n, 1, -8, 8); if (k < 4) sym::assume(k == 3 ? l <= u : l < u); r = Ref{l, u, 0, 0}; switch (k) { case 0: r.lo = 0; r.uo = 0; return I(new OpenInterval(l, u)); case 1: r.lo = 0; r.uo = 1; return I(new OpenClosedInterval(l, u)); case 2: r.lo = 1; r.uo = 0; return I(new ClosedOpenInterval(l, u)); case 3: r.lo = r.uo = 1; return I(new ClosedInterval(l, u)); case 4: r.lo = 2; r.uo = 0; return I(new NegInfToOpenInterval(u)); case 5: r.lo = 2; r.uo = 1; return I(new NegInfToClosedInterval(u)); case 6: r.lo = 0; r.uo = 2; return I(new OpenToInfInterval(l)); case 7: r.lo = 1; r.uo = 2; return I(new ClosedToInfInterval(l)); default: r.lo = r.uo = 2; return I(new CompleteRInterval()); } }
CASE(member) { int k = sym::pick(0, 8, "k"); Ref r; I a = mk(k, "a", r); double x = sym::real("x", -20, 20); sym::obs("x", x); sym::check(a->contains(x) == r.in(x), "membership by definition"); if (k < 4) { sym::eq(a->getLowerBound(), r.l, "lower bound"); sym::eq(a->getUpperBound(), r.u, "upper bound"); sym::eq(a->getLength(), r.u - r.l, "length"); } sym::check(a->isContinuous(), "continuous"); }
CASEN(setops, 0, 8, 8) { int k = sym::pick(0, 8, "k"); Ref ra, rb; I a = mk(n, "a", ra), b = mk(k, "b", rb); double x = sym::real("x", -20, 20); sym::obs("x", x); bool ia = ra.in(x), ib = rb.in(x); sym::check(Interval::Intersection(*a, *b).contains(x) == (ia && ib), "intersection membership"); sym::check(Interval::Union(*a, *b).contains(x) == (ia || ib), "union membership"); sym::check(Interval::Difference(*a, *b).contains(x) == (ia && !ib), "difference membership"); if (k == 0) sym::check(Interval::Complement(*a).contains(x) == !ia, "complement membership"); Interval c; c.AddInterval(OpenInterval(30, 31)); sym::check(!c.contains(x), "composite of another place"); }
CASEN(chain, 0, 8, 8) { // operands of composed operations keep their infinite ends
  int k = sym::pick(0, 8, "k"); Ref ra, rb; I a = mk(n, "a", ra), b = mk(k, "b", rb); Ref q = ra; auto meet = [](const Ref &p, const Ref &s) { Ref r; if (p.lo == 2) { r.lo = s.lo; r.l = s.l; } else if (s.lo == 2) { r.lo = p.lo; r.l = p.l; } else { r.l = p.l > s.l ? p.l : s.l; r.lo = p.l > s.l ? p.lo : s.l > p.l ? s.lo : std::min(p.lo, s.lo); } if (p.uo == 2) { r.uo = s.uo; r.u = s.u; } else if (s.uo == 2) { r.uo = p.uo; r.u = p.u; } else { r.u = p.u < s.u ? p.u : s.u; r.uo = p.u < s.u ? p.uo : s.u < p.u ? s.uo : std::min(p.uo, s.uo); } return r; }; q = meet(ra, rb); Interval c = Interval::Intersection(*a, *b); Interval comp; bool inter = !q.empty(); Interval holder; sym::obs("l", ra.l); if (n == 0) { holder.AddInterval(*static_cast<OpenInterval *>(a.get())); } else if (n == 3) holder.AddInterval(*static_cast<ClosedInterval *>(a.get())); else if (n == 2) holder.AddInterval(*static_cast<ClosedOpenInterval *>(a.get())); else if (n == 1) holder.AddInterval(*static_cast<OpenClosedInterval *>(a.get())); else if (n == 4) holder.AddInterval(*static_cast<NegInfToOpenInterval *>(a.get())); else if (n == 5) holder.AddInterval(*static_cast<NegInfToClosedInterval *>(a.get())); else if (n == 6) holder.AddInterval(*static_cast<OpenToInfInterval *>(a.get())); else if (n == 7) holder.AddInterval(*static_cast<ClosedToInfInterval *>(a.get())); else holder.AddInterval(*static_cast<CompleteRInterval *>(a.get())); sym::check(holder.intersects(*b) == inter, "intersects by definition"); double x = sym::real("x", -20, 20); if (k < 4 && holder.contains(*b)) sym::check(!rb.in(x) || ra.in(x), "contained intervals are subsets"); }
CASE(measure) { double a = sym::real("a"), b = sym::real("b"), c = sym::real("c"), d = sym::real("d"); sym::assume(a < b && c < d); ClosedInterval p(a, b); OpenInterval q(c, d); double lo = a > c ? a : c, hi = b < d ? b : d, ov = hi > lo ? hi - lo : 0; sym::obs("a", a); sym::eq(Interval::Intersection(p, q).getMeasure(), ov, "measure of the intersection"); Interval u = Interval::Union(p, q); sym::eq(u.getMeasure(), b - a + d - c - ov, "measure of the union"); sym::eq(Interval::Difference(p, q).getMeasure(), b - a - ov, "measure of the difference"); sym::eq(u.getLowerBound(), a < c ? a : c, "hull lower bound"); sym::eq(u.getUpperBound(), b > d ? b : d, "hull upper bound"); sym::eq(u.getLength(), (b > d ? b : d) - (a < c ? a : c), "hull length"); sym::check(Interval().getMeasure() == 0 && Interval().getLength() == 0 && !Interval().contains(a), "empty set"); }
CASE(cover) { int k = sym::pick(0, 3, "k"), m = sym::pick(-1, 5, "m"); Ref r; I a = mk(k, "a", r); if (k == 3) sym::assume(r.l < r.u); std::vector<Real> p(3, 1.0); a->GetEquidistantCovering(m, p); sym::obs("l", r.l); sym::check((int)p.size() == std::max(m, 0), "number of points"); for (int i = 0; i < (int)p.size(); i++) { sym::check(r.in(p[i]), "points lie inside"); if (i) sym::check(p[i] > p[i - 1], "points increase"); } double h = r.u - r.l; for (int i = 1; i + 1 < m; i++) sym::eq(p[i], r.l + i * h / (m - 1), "equidistant"); if (m == 1) sym::eq(p[0], (r.l + r.u) / 2, "single point is the midpoint"); if (m > 1) { double d = h / (m - 1); sym::eq(p[0], r.l + (r.lo ? 0 : d * 0.001), "first point"); sym::eq(p[m - 1], r.u - (r.uo ? 0 : d * 0.001), "last point"); } }
CASE(coverinf) { int k = sym::pick(4, 8, "k"); Ref r; I a = mk(k, "a", r); std::vector<Real> p; a->GetEquidistantCovering(3, p); sym::check(p.size() == 3, "number of points"); double L = r.lo == 2 ? -1e10 : r.l, U = r.uo == 2 ? 1e10 : r.u; sym::eq(p[1], (L + U) / 2, "practical limits"); sym::obs("l", r.l); for (double x : p) sym::check(a->contains(x), "points lie inside"); }
CASE(holes) { double l = sym::real("l", -4, 0), u = sym::real("u", 0, 4), h = sym::real("h", -1, 1), d = sym::real("d", 1, 2); int j = sym::pick(-2, 2, "j"); ClosedIntervalWithReccuringPointHoles a(l, u, h, d); CompleteRWithReccuringPointHoles b(h, d); double x = h + j * d; sym::obs("x", x); sym::check(!a.contains(x) && !b.contains(x), "holes are excluded"); double f = sym::real("f", 0.01, 0.99), y = h + (j + f) * d; sym::check(b.contains(y), "points between holes are included"); sym::check(a.contains(y) == (y >= l && y <= u), "bounded with holes"); sym::check(!a.isContinuous() && !b.isContinuous(), "not continuous"); }
CASE(composite) { Ref r, s, t; I a = mk(3, "a", r), b = mk(0, "b", s), c = mk(1, "c", t); Interval q; q.AddInterval(*static_cast<ClosedInterval *>(a.get())).AddInterval(*static_cast<OpenInterval *>(b.get())).AddInterval(*static_cast<OpenClosedInterval *>(c.get())); double x = sym::real("x", -20, 20); sym::obs("x", x); sym::check(q.contains(x) == (r.in(x) || s.in(x) || t.in(x)), "composite is the union of its parts"); sym::eq(q.getMeasure(), r.u - r.l + s.u - s.l + t.u - t.l, "measure adds the parts"); }
