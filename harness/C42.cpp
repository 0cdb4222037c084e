// BOUNDS: every sequence of 2 operations (thorough 3) on 3 frames started from a chain, a fork or separate frames, with or without destruction of one; any velocity, period, radius, axis direction from 5 shapes with a symbolic length, time, angle and position
// OUTSIDE: copying frames, the unimplemented orbit inclination and SphericalRotatingFrame::GetPositionAtTime stub, rounding
#include "h.h"
#include "mml/core/CoordSystem.h"
typedef VectorN<Real, 3> P;
struct Model { int par[3] = {-1, -1, -1}; bool live[3] = {true, true, true}; bool anc(int a, int of) const { for (int i = of; i >= 0; i = par[i]) if (i == a) return true; return false; } };
static void same(const Model &m, ReferenceFrame3D **f) { for (int i = 0; i < 3; i++) if (m.live[i]) { sym::check(f[i]->GetParentFrame() == (m.par[i] < 0 ? nullptr : f[m.par[i]]), "parent"); int kids = 0; for (int j = 0; j < 3; j++) if (m.live[j] && m.par[j] == i) { kids++; int c = 0; for (auto *k : f[i]->GetChildFrames()) c += k == f[j]; sym::check(c == 1, "every child is listed once by its parent"); } sym::check((int)f[i]->GetChildFrames().size() == kids, "no other children"); } }
static void ops(int steps, int start, bool kill) { Model m; ReferenceFrame3D *f[3]; f[0] = new ReferenceFrame3D(); f[1] = start ? new ReferenceFrame3D(f[0]) : new ReferenceFrame3D((ReferenceFrame3D *)nullptr); f[2] = start == 1 ? new ReferenceFrame3D(f[1]) : start == 2 ? (ReferenceFrame3D *)new InertialFrame3D(f[0]) : new NonInertialFrame3D(); if (start) m.par[1] = 0; if (start == 1) m.par[2] = 1; if (start == 2) m.par[2] = 0; double x = sym::real("x"); sym::obs("x", x); same(m, f);
  for (int s = 0; s < steps; s++) { int op = sym::pick(0, 2, "op"), a = sym::pick(0, 2, "frame"), b = sym::pick(op == 2 ? 0 : -1, 2, "with"); ReferenceFrame3D *g = b < 0 ? nullptr : f[b]; if (op == 0) { bool ok = b == m.par[a] || b < 0 || !m.anc(a, b); sym::check(f[a]->SetParentFrame(g) == ok, "a parent that would make a cycle is refused"); if (ok) m.par[a] = b; } else if (op == 1) { bool ok = b >= 0 && !m.anc(b, a); sym::check(f[a]->AddChildFrame(g) == ok, "a child that would make a cycle is refused"); if (ok) m.par[b] = a; } else { bool ok = m.par[b] == a; sym::check(f[a]->RemoveChildFrame(g) == ok, "only a child is removed"); if (ok) m.par[b] = -1; } same(m, f); }
  if (kill) { int k = sym::pick(0, 2, "kill"); delete f[k]; m.live[k] = false; for (int j = 0; j < 3; j++) if (m.par[j] == k) m.par[j] = -1; same(m, f); } for (int i = 0; i < 3; i++) if (m.live[i]) delete f[i]; }
CASEN(frames, 0, 2, 2) { ops(2, n, false); }
CASEN(framesone, 0, 2, 2) { ops(1, n, true); }
CASET(frames3) { ops(3, 1, false); }
CASE(inertial) { ReferenceFrame3D root; Vec3Cart v{sym::real("v", -4, 4), sym::real("v", -4, 4), sym::real("v", -4, 4)}, o{sym::real("o", -4, 4), sym::real("o", -4, 4), sym::real("o", -4, 4)}; P p = sVecN<3>("p", -4, 4); double t = sym::real("t", -4, 4), h = sym::real("h", -4, 4); InertialFrame3D f(&root, v, o), g(&f, v, o), z(&root); sym::obs("t", t); sym::check(f.GetParentFrame() == &root && g.GetParentFrame() == &f, "hierarchy"); auto a = f.GetOriginPositionAtTime(t), b = f.GetOriginPositionAtTime(t + h), c = f.GetLocalPosInParentFrameAtTime(p, t), d = f.GetLocalPosInParentFrameAtTime(g.GetLocalPosInParentFrameAtTime(p, t), t); auto r = root.GetLocalPosInParentFrameAtTime(p, t), q = root.GetOriginPositionAtTime(t), y = z.GetLocalPosInParentFrameAtTime(p, t); for (int i = 0; i < 3; i++) sym::eq(a[i], o[i] + t * v[i], "origin moves uniformly"), sym::eq(b[i] - a[i], h * v[i], "velocity"), sym::eq(c[i], a[i] + p[i], "origin plus offset"), sym::eq(d[i], p[i] + 2 * a[i], "motions of nested frames add"), sym::eq(r[i], p[i], "fixed frame"), sym::eq(q[i], 0, "fixed frame"), sym::eq(y[i], p[i], "frame at rest"); }
CASE(orbit) { ReferenceFrame3D root; double R = sym::real("R", 0.5, 4), T = sym::real("T", 0.5, 4), t = sym::real("t", -4, 4), a0 = sym::real("a", -3, 3); P p = sVecN<3>("p", -4, 4); sym::obs("t", t); CircleOrbitingFrame3DCartesian f(&root, R, T), g(&root, R, T, a0); for (int k = 0; k < 2; k++) { auto &h = k ? g : f; auto o = h.GetOriginPositionAtTime(t), l = h.GetLocalPosInParentFrameAtTime(p, t); double an = (k ? a0 : 0) + 2 * Constants::PI * t / T; sym::eq(o[0] * o[0] + o[1] * o[1], R * R, "stays on the orbit"); sym::eq(o[0], R * std::cos(an), "angle grows uniformly"); sym::eq(o[1], R * std::sin(an), "angle grows uniformly"); sym::eq(o[2], 0, "stays in the plane"); for (int i = 0; i < 3; i++) sym::eq(l[i], o[i] + p[i], "fixed orientation"); sym::check(h.GetParentFrame() == &root, "parent"); } auto s = f.GetOriginPositionAtTime(0); sym::eq(s[0], R, "starts on the x axis"); }
static const double AX[][3] = {{0, 0, 1}, {1, 0, 0}, {0, -1, 0}, {3, 0, 4}, {2, -1, 2}};
CASEN(rotating, 0, 4, 4) { ReferenceFrame3D root; double l = sym::real("l", 0.25, 4), T = sym::real("T", 0.5, 4), t = sym::real("t", 0, 4); P ax; for (int i = 0; i < 3; i++) ax[i] = l * AX[n][i]; double nn = std::sqrt(AX[n][0] * AX[n][0] + AX[n][1] * AX[n][1] + AX[n][2] * AX[n][2]); P k; for (int i = 0; i < 3; i++) k[i] = AX[n][i] / nn; P p = sVecN<3>("p", -4, 4), q = sVecN<3>("q", -4, 4); sym::obs("t", t); RotatingFrame3D f(&root, T, ax); f._angle_at_t0 = sym::real("a", -3, 3); auto r = f.GetLocalPosInParentFrameAtTime(p, t), s = f.GetLocalPosInParentFrameAtTime(q, t); double an = f._angle_at_t0 + std::fmod(2 * Constants::PI / T * t, 2 * Constants::PI), c = std::cos(an), si = std::sin(an), d0 = 0, d1 = 0, a0 = 0, a1 = 0, kp = 0; for (int i = 0; i < 3; i++) kp = kp + k[i] * p[i]; for (int i = 0; i < 3; i++) { d0 = d0 + p[i] * q[i]; d1 = d1 + r[i] * s[i]; a1 = a1 + k[i] * r[i]; int u = (i + 1) % 3, w = (i + 2) % 3; sym::eq(r[i], c * p[i] + si * (k[u] * p[w] - k[w] * p[u]) + (1 - c) * kp * k[i], "right-handed rotation about the axis"); } sym::eq(d0, d1, "lengths and angles are kept"); sym::eq(a1, kp, "the component along the axis is kept"); auto o = f.GetOriginPositionAtTime(t); for (int i = 0; i < 3; i++) sym::eq(o[i], 0, "the origin is fixed"); }
CASEN(period, 0, 1, 4) { ReferenceFrame3D root; static const double TT[] = {1, 2, 0.5, 8, 24}; double T = TT[n], t = sym::real("t", 0, 4); P p = sVecN<3>("p", -4, 4); sym::obs("t", t); RotatingFrame3D f(&root, T, P{0., 0., 1.}); auto a = f.GetLocalPosInParentFrameAtTime(p, 0), b = f.GetLocalPosInParentFrameAtTime(p, T), c = f.GetLocalPosInParentFrameAtTime(p, T / 4), h = f.GetLocalPosInParentFrameAtTime(p, -T / 2); for (int i = 0; i < 3; i++) sym::eq(a[i], p[i], "starts aligned"), sym::eq(b[i], p[i], "aligned again after one period"); sym::eq(c[0], -p[1], "quarter turn"); sym::eq(c[1], p[0], "quarter turn"); sym::eq(h[0], -p[0], "half turn back"); sym::eq(h[1], -p[1], "half turn back"); }
CASE(sphere) { ReferenceFrame3D root; double R = sym::real("R", 0.5, 8), T = sym::real("T", 0.5, 4), t = sym::real("t", 0, 4), la = sym::real("lat", -85, 85), lo = sym::real("lon", -175, 175), h = sym::real("h", 0, 4); HardSphereRotatingFrame f(&root, R, T, P{0., 0., 1.}); sym::obs("t", t); auto r = f.GetLocalPosInParentFrameAtTime(P{la, lo, h}, t); double th = Utils::DegToRad(90 - la), ph = Utils::DegToRad(lo), an = std::fmod(2 * Constants::PI / T * t, 2 * Constants::PI), c = std::cos(an), s = std::sin(an), x = (R + h) * std::sin(th) * std::cos(ph), y = (R + h) * std::sin(th) * std::sin(ph); sym::eq(r[0], c * x - s * y, "rotated"); sym::eq(r[1], s * x + c * y, "rotated"); sym::eq(r[2], (R + h) * std::cos(th), "height along the axis"); sym::eq(r[0] * r[0] + r[1] * r[1] + r[2] * r[2], (R + h) * (R + h), "distance from the centre"); auto o = f.GetOriginPositionAtTime(t); for (int i = 0; i < 3; i++) sym::eq(o[i], 0, "the centre is fixed"); }
CASEN(localframe, 0, 2, 4) { static const double LA[] = {0, 45, -60, 80, 30}; ReferenceFrame3D root; double R = sym::real("R", 0.5, 8000), lo = sym::real("lon", -90, 90); HardSphereRotatingFrame f(&root, R, 24., P{0., 0., 1.}); RotatingSphereLocalCartesian l(f, LA[n], lo); P p = sVecN<3>("p", -4, 4); sym::obs("R", R); auto r = l.GetLocalPosInParentFrameAtTime(p, sym::real("t", 0, 4)); double d = Constants::PI / 180; sym::eq((r[0] - LA[n]) * d * R, p[1], "north moves along the meridian by that distance"); sym::eq((r[1] - lo) * d * R * std::cos(LA[n] * Constants::PI / 180), p[0], "east moves along the parallel by that distance"); sym::eq(r[2], p[2], "up is altitude"); }
