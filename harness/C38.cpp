// BOUNDS: every complex sample of 1-9, 12 and 16 points (thorough 32), every real sample of up to 16 points (fast cosine transform 32); windows of 1-64 points with every shape parameter in range
// OUTSIDE: rounding growth for long transforms, sizes above 32
#include "cplx.h"
#include "h.h"
#include "mml/algorithms/Fourier.h"
#include "mml/algorithms/FourierRealFFT.h"
#include "mml/algorithms/FourierWindowing.h"
using namespace MML::Fourier;
typedef Vector<Complex> C; typedef Vector<Real> V;
static C sC(const char *nm, int n) { C v(n); V a = sVec(nm, 2 * n, -4, 4); for (int i = 0; i < n; i++) v[i] = Complex(a[2 * i], a[2 * i + 1]); return v; }
static void eqC(const C &a, const C &b, const char *l) { sym::check(a.size() == b.size(), "size"); if (a.size() != b.size()) return; for (int i = 0; i < (int)a.size(); i++) sym::eq(a[i].real(), b[i].real(), l), sym::eq(a[i].imag(), b[i].imag(), l); }
static double tw(long k, long n, bool s) { const double P = 3.14159265358979323846; k %= n; return s ? std::sin(2 * P * k / n) : std::cos(2 * P * k / n); }
// the definition: sum of x[j] exp(-+ 2 pi i j k / n)
static C def(const C &x, int sg) { int n = x.size(); C r(n); for (int k = 0; k < n; k++) { double a = 0, b = 0; for (int j = 0; j < n; j++) { double c = tw((long)j * k, n, 0), s = -sg * tw((long)j * k, n, 1), u = x[j].real(), v = x[j].imag(); a = a + c * u - s * v; b = b + s * u + c * v; } r[k] = Complex(a, b); } return r; }
static C scaled(const C &x, double f) { C r(x.size()); for (int i = 0; i < (int)x.size(); i++) r[i] = Complex(f * x[i].real(), f * x[i].imag()); return r; }
static C cx(const V &x) { C r(x.size()); for (int i = 0; i < (int)x.size(); i++) r[i] = Complex(x[i], 0); return r; }
template <class T> static void meta(const T &d, const char *alg, int n) { sym::check(d.status == AlgorithmStatus::Success && d.algorithm_name == alg && d.input_size == n, "detailed result"); }
CASEN(dft, 1, 9, 16) { C x = sC("x", n), f = def(x, 1); sym::obs("x", x[0].real()); C F = DFT::Forward(x); eqC(F, f, "forward transform"); C b = scaled(def(x, -1), 1. / n); eqC(DFT::Inverse(x), b, "inverse transform"); eqC(DFT::Inverse(F), x, "the inverse undoes the forward transform"); eqC(DFT::Forward(DFT::Inverse(x)), x, "the forward undoes the inverse transform"); for (int k = 0; k < n; k++) { Complex c = DFT::ComputeBin(x, k); sym::eq(c.real(), f[k].real(), "single bin"); sym::eq(c.imag(), f[k].imag(), "single bin"); } sym::check(THROWS(std::invalid_argument, DFT::ComputeBin(x, -1)) && THROWS(std::invalid_argument, DFT::ComputeBin(x, n)), "bins out of range are refused"); V re(n); for (int i = 0; i < n; i++) re[i] = x[i].real(); eqC(DFT::Forward(re), def(cx(re), 1), "real input"); eqV(DFT::InverseReal(DFT::Forward(re)), re, n, "real samples are recovered"); auto d = DFT::ForwardDetailed(x); meta(d, "DFT::Forward", n); eqC(d.value, f, "detailed"); auto e = DFT::InverseDetailed(x); meta(e, "DFT::Inverse", n); eqC(e.value, b, "detailed"); auto g = DFT::ForwardDetailed(re); meta(g, "DFT::Forward", n); eqC(g.value, def(cx(re), 1), "detailed"); auto h = DFT::InverseRealDetailed(x); meta(h, "DFT::InverseReal", n); for (int i = 0; i < n; i++) sym::eq(h.value[i], b[i].real(), "detailed"); }
CASEN(fft, 0, 4, 5) { int N = 1 << n; C x = sC("x", N), f = def(x, 1), b = def(x, -1); sym::obs("x", x[0].real()); C F = FFT::Forward(x); eqC(F, f, "forward transform"); eqC(FFT::Inverse(x), scaled(b, 1. / N), "inverse transform"); eqC(FFT::Inverse(F), x, "the inverse undoes the forward transform"); C t = x; FFT::Transform(t); eqC(t, f, "in place"); t = x; FFT::Transform(t, -1); eqC(t, b, "in place, unnormalised inverse"); auto d = FFT::ForwardDetailed(x); meta(d, "FFT::Forward", N); eqC(d.value, f, "detailed"); auto e = FFT::InverseDetailed(x); meta(e, "FFT::Inverse", N); eqC(e.value, scaled(b, 1. / N), "detailed"); eqC(FFT::ZeroPad(x), x, "no padding is needed"); }
CASEN(energy, 0, 3, 4) { int N = 1 << n; C x = sC("x", N), F = FFT::Forward(x), D = DFT::Forward(x); sym::obs("x", x[0].real()); double a = 0, b = 0, c = 0; for (int i = 0; i < N; i++) a = a + x[i].real() * x[i].real() + x[i].imag() * x[i].imag(), b = b + F[i].real() * F[i].real() + F[i].imag() * F[i].imag(), c = c + D[i].real() * D[i].real() + D[i].imag() * D[i].imag(); sym::eq(b, N * a, "the energy is kept", 1e-6); sym::eq(c, N * a, "the energy is kept", 1e-6); C s(N), w = C(N); for (int i = 0; i < N; i++) s[i] = x[(i + 1) % N]; C S = FFT::Forward(s); for (int k = 0; k < N; k++) { double p = tw(k, N, 0), q = tw(k, N, 1); w[k] = Complex(p * F[k].real() - q * F[k].imag(), q * F[k].real() + p * F[k].imag()); } eqC(S, w, "a shift in time is a phase in frequency"); }
CASEN(real, 1, 4, 5) { int N = 1 << n, h = N / 2; V x = sVec("x", N, -4, 4); C f = def(cx(x), 1), F = RealFFT::Forward(x); sym::obs("x", x[0]); sym::check((int)F.size() == h + 1, "half spectrum"); if ((int)F.size() != h + 1) return; for (int k = 0; k <= h; k++) sym::eq(F[k].real(), f[k].real(), "half spectrum"), sym::eq(F[k].imag(), f[k].imag(), "half spectrum"); V b = RealFFT::Inverse(F); sym::check((int)b.size() == N, "size"); eqV(b, x, N, "the inverse undoes the forward transform"); C s = sC("s", h + 1); s[0] = Complex(s[0].real(), 0); s[h] = Complex(s[h].real(), 0); C full(N); for (int k = 0; k < N; k++) full[k] = k <= h ? s[k] : Complex(s[N - k].real(), -s[N - k].imag()); C y = scaled(def(full, -1), 1. / N); V z = RealFFT::Inverse(s); for (int i = 0; i < N; i++) sym::eq(z[i], y[i].real(), "inverse of any half spectrum");
  V p = x; RealFFT::Transform(p); sym::eq(p[0], f[0].real(), "packed: mean"); sym::eq(p[1], f[h].real(), "packed: alternating sum"); for (int k = 1; k < h; k++) sym::eq(p[2 * k], f[k].real(), "packed spectrum"), sym::eq(p[2 * k + 1], f[k].imag(), "packed spectrum"); V q = p; RealFFT::Transform(q, -1); eqV(q, x, N, "the packed inverse undoes the packed transform"); V r(N); for (int k = 1; k < h; k++) r[2 * k] = s[k].real(), r[2 * k + 1] = s[k].imag(); r[0] = s[0].real(); r[1] = s[h].real(); RealFFT::Transform(r, -1); eqV(r, z, N, "packed inverse of any half spectrum"); }
static V dct(const V &x) { int n = x.size(); V r(n); for (int k = 0; k < n; k++) { double s = 0; for (int j = 0; j < n; j++) s = s + x[j] * tw((long)k * (2 * j + 1), 4 * n, 0); r[k] = 2 * s / n; } return r; }
static V idct(const V &x) { int n = x.size(); V r(n); for (int j = 0; j < n; j++) { double s = x[0] / 2; for (int k = 1; k < n; k++) s = s + x[k] * tw((long)k * (2 * j + 1), 4 * n, 0); r[j] = s; } return r; }
CASEN(dct, 1, 8, 13) { V x = sVec("x", n, -4, 4), F = dct(x), b = idct(x); sym::obs("x", x[0]); V f = DCT::ForwardII(x); eqV(f, F, n, "cosine transform"); eqV(DCT::InverseII(x), b, n, "inverse cosine transform"); eqV(DCT::InverseII(f), x, n, "the inverse undoes the cosine transform"); eqV(DCT::ForwardII_Reference(x), F, n, "reference"); eqV(DCT::InverseII_Reference(x), b, n, "reference"); if (FFT::IsPowerOfTwo(n)) { eqV(DCT::ForwardII_Fast(x), F, n, "fast"); eqV(DCT::InverseII_Fast(x), b, n, "fast"); sym::check(DCT::VerifyFastMatchesReference(x), "self test"); } else sym::check(THROWS(std::invalid_argument, DCT::ForwardII_Fast(x)) && THROWS(std::invalid_argument, DCT::InverseII_Fast(x)), "other sizes are refused"); sym::check(DCT::VerifyRoundTrip(x), "self test"); auto d = DCT::ForwardIIDetailed(x); meta(d, "DCT::ForwardII", n); eqV(d.value, F, n, "detailed"); auto e = DCT::InverseIIDetailed(x); meta(e, "DCT::InverseII", n); eqV(e.value, b, n, "detailed"); }
CASEN(large, 0, 1, 3) { int N = n < 2 ? 32 : 64; V x = sVec("x", N, -4, 4); sym::obs("x", x[0]); if (n % 2) { eqV(DCT::InverseII(x), idct(x), N, "inverse cosine transform"); return; } eqV(DCT::ForwardII(x), dct(x), N, "cosine transform"); }
CASEN(dst, 1, 8, 16) { V x = sVec("x", n, -4, 4), f = DCT::ForwardDST(x); sym::obs("x", x[0]); for (int k = 0; k < n; k++) { double s = 0; for (int j = 0; j < n; j++) s = s + x[j] * tw((long)(k + 1) * (j + 1), 2 * (n + 1), 1); sym::eq(f[k], std::sqrt(2. / (n + 1)) * s, "sine transform"); } eqV(DCT::InverseDST(f), x, n, "the inverse undoes the sine transform"); auto d = DCT::ForwardDSTDetailed(x), e = DCT::InverseDSTDetailed(f); meta(d, "DCT::ForwardDST", n); meta(e, "DCT::InverseDST", n); eqV(d.value, f, n, "detailed"); eqV(e.value, x, n, "detailed"); }
CASE(sizes) { int n = sym::integer("n", -8, 100); bool p = false; int next = 1; for (int k = 0; k < 8; k++) if (n == (1 << k)) p = true; for (int k = 0; k < 8; k++) if (next < n) next *= 2; sym::check(FFT::NextPowerOfTwo(n) == next, "the smallest power of two that is large enough"); sym::check(FFT::IsPowerOfTwo(n) == p && FourierValidation::IsPowerOfTwo(n) == p, "powers of two"); }
CASE(huge) { int b = 1 << 30, k = sym::pick(0, 3, "k"); if (k < 2) { sym::check(FFT::NextPowerOfTwo(b - k) == b, "largest power"); return; } sym::check(THROWS(std::invalid_argument, FFT::NextPowerOfTwo(k == 2 ? b + 1 : 2147483647)), "no power is large enough"); }
CASEN(pad, 1, 9, 17) { C x = sC("x", n), z = FFT::ZeroPad(x); int m = 1; while (m < n) m *= 2; sym::check((int)z.size() == m, "padded size"); if ((int)z.size() != m) return; for (int i = 0; i < m; i++) sym::eq(z[i].real(), i < n ? x[i].real() : 0, "padding"), sym::eq(z[i].imag(), i < n ? x[i].imag() : 0, "padding"); int l = 0; while ((1 << l) < m) l++; sym::check(FFT::Log2(m) == l, "logarithm"); if (m == n) return; sym::check(THROWS(std::invalid_argument, FFT::Forward(x)) && THROWS(std::invalid_argument, FFT::Inverse(x)) && THROWS(std::invalid_argument, FFT::Transform(x)), "sizes that are not powers of two are refused"); V r(n, 1.); sym::check(THROWS(std::invalid_argument, RealFFT::Forward(r)) && THROWS(std::invalid_argument, RealFFT::Transform(r)) && THROWS(std::invalid_argument, RealFFT::Inverse(C(n + 1))), "sizes that are not powers of two are refused"); FourierConfig c; c.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto d = FFT::ForwardDetailed(x, c); sym::check(d.status == AlgorithmStatus::InvalidInput && !d.error_message.empty(), "failure is reported"); sym::check(FFT::InverseDetailed(x, c).status == AlgorithmStatus::InvalidInput, "failure is reported"); }
CASE(refused) { C e(0); V r(0), o(1, sym::real("x")); sym::check(THROWS(std::invalid_argument, DFT::Forward(e)) && THROWS(std::invalid_argument, DFT::Forward(r)) && THROWS(std::invalid_argument, DFT::Inverse(e)) && THROWS(std::invalid_argument, FFT::Forward(e)) && THROWS(std::invalid_argument, FFT::Inverse(e)) && THROWS(std::invalid_argument, RealFFT::Forward(r)) && THROWS(std::invalid_argument, RealFFT::Inverse(e)) && THROWS(std::invalid_argument, RealFFT::Inverse(C(1))) && THROWS(std::invalid_argument, RealFFT::Forward(o)) && THROWS(std::invalid_argument, DCT::ForwardII(r)) && THROWS(std::invalid_argument, DCT::InverseII(r)) && THROWS(std::invalid_argument, DCT::ForwardDST(r)) && THROWS(std::invalid_argument, DCT::InverseDST(r)), "empty input is refused"); FourierConfig c; c.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; sym::check(DFT::ForwardDetailed(e, c).status == AlgorithmStatus::InvalidInput && DFT::InverseDetailed(e, c).status == AlgorithmStatus::InvalidInput && DCT::ForwardIIDetailed(r, c).status == AlgorithmStatus::InvalidInput && DCT::InverseIIDetailed(r, c).status == AlgorithmStatus::InvalidInput && DCT::ForwardDSTDetailed(r, c).status == AlgorithmStatus::InvalidInput, "failure is reported"); for (int n = -1; n <= 0; n++) sym::check(THROWS(std::invalid_argument, Windows::Rectangular(n)) && THROWS(std::invalid_argument, Windows::Hann(n)) && THROWS(std::invalid_argument, Windows::Hamming(n)) && THROWS(std::invalid_argument, Windows::Blackman(n)) && THROWS(std::invalid_argument, Windows::Bartlett(n)) && THROWS(std::invalid_argument, Windows::Welch(n)) && THROWS(std::invalid_argument, Windows::Kaiser(n, 1)) && THROWS(std::invalid_argument, Windows::Gaussian(n, 1)), "empty windows are refused"); double b = sym::real("b", 0.001, 4); sym::check(THROWS(std::invalid_argument, Windows::Kaiser(4, -b)) && THROWS(std::invalid_argument, Windows::Gaussian(4, -b)) && THROWS(std::invalid_argument, Windows::Gaussian(4, 0)), "bad shapes are refused"); }
// windows of every size: their formula, symmetry and peak
CASE(windows) { int n = sym::pick(1, 64, "n"); sym::obs("n", n); V w[6] = {Windows::Rectangular(n), Windows::Hann(n), Windows::Hamming(n), Windows::Blackman(n), Windows::Bartlett(n), Windows::Welch(n)}; for (int k = 0; k < 6; k++) { sym::check((int)w[k].size() == n, "size"); if ((int)w[k].size() != n) return; for (int i = 0; i < n; i++) { double u = n == 1 ? 0.5 : (double)i / (n - 1), c = std::cos(6.283185307179586 * u), c2 = 2 * c * c - 1, x = 2 * u - 1; double f[6] = {1, (1 - c) / 2, 0.54 - 0.46 * c, 0.42 - 0.5 * c + 0.08 * c2, 1 - std::abs(x), 1 - x * x}; sym::eq(w[k][i], f[k], "window formula", 1e-12); sym::eq(w[k][i], w[k][n - 1 - i], "windows are symmetric", 1e-12); } } }
CASEN(gauss, 1, 9, 16) { double s = sym::real("s", 0.1, 2); sym::obs("s", s); V w = Windows::Gaussian(n, s); sym::check((int)w.size() == n, "size"); for (int i = 0; i < n; i++) { double x = n == 1 ? 0 : (2 * i - (n - 1)) / (s * (n - 1)); sym::eq(w[i], std::exp(-x * x / 2), "window formula"); sym::eq(w[i], w[n - 1 - i], "windows are symmetric"); } if (n % 2) sym::eq(w[n / 2], 1, "peak"); }
// Kaiser: the ratio of the two series, for every shape parameter
CASEN(kaiser, 1, 7, 12) { double b = sym::real("b", 0, n < 4 ? 4 : 1), top = 1; sym::obs("b", b); V w = Windows::Kaiser(n, b); sym::check((int)w.size() == n, "size"); auto I0 = [](double q) { double s = 1, t = 1; for (int k = 1; k <= 9; k++) t = t * q / 4 / (k * k), s = s + t; return s; }; (void)top; for (int i = 0; i < n; i++) { double x = n == 1 ? 0 : 2. * i / (n - 1) - 1, q = b * b * (1 - x * x); sym::eq(w[i], w[n - 1 - i], "windows are symmetric"); if (n > 4) sym::check((w[i] * I0(b * b) < I0(q) + 1e-8) & (w[i] * I0(b * b) > I0(q) - 1e-8), "window formula"); sym::check((w[i] > 0) & (w[i] <= 1 + 1e-9), "between zero and one"); } if (n % 2) sym::eq(w[n / 2], 1, "peak"); }
