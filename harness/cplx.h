// complex library calls for the symbolic build (the native replay uses the real ones)
#pragma once
#include <cmath>
#include <complex>
#ifndef SYM_NATIVE
extern "C" {
__complex__ double csqrt(__complex__ double z) {
  double x = __real__ z, y = __imag__ z, re, im;
  if (y == 0) { if (x >= 0) { re = std::sqrt(x); im = y; } else { re = 0; im = std::sqrt(-x); } } // the branch on a negative axis is taken at +0
  else { double r = std::sqrt(x * x + y * y); re = std::sqrt((r + x) / 2); im = y / (2 * re); }
  __complex__ double o; __real__ o = re; __imag__ o = im; return o;
}
__complex__ double cexp(__complex__ double z) { double r = std::exp(__real__ z), y = __imag__ z; __complex__ double o; __real__ o = r * std::cos(y); __imag__ o = r * std::sin(y); return o; }
double cabs(__complex__ double z) { double x = __real__ z, y = __imag__ z; return std::sqrt(x * x + y * y); }
__complex__ double __divdc3(double a, double b, double c, double d) { double q = c * c + d * d; __complex__ double o; __real__ o = (a * c + b * d) / q; __imag__ o = (b * c - a * d) / q; return o; }
}
#endif
