#include "pbt.h"
#include <msf_core/falsecolor.h>
#include <algorithm>
typedef palette::palettetypes T;
struct RGB { double r, g, b; };
static double jet(double t, double centre) {  // Matlab jet: trapezoid of half width 3/8 and plateau 1/8 around the centre
  double d = std::fabs(t - centre);
  return d <= 0.125 ? 1 : d >= 0.375 ? 0 : (0.375 - d) / 0.25;
}
static RGB reference(T p, int i) {
  double x = i / 255.0, lg = std::log10(9 * x + 1) * 255, deg = M_PI / 180;
  auto s = [&](double ph) { return (std::sin((x * 360 + ph) * deg) * 0.5 + 0.5) * 255; };
  switch (p) {
    case palette::Linear_red_palettes: return {(double)i, 0, 0};
    case palette::GammaLog_red_palettes: return {lg, 0, 0};
    case palette::Inversion_red_palette: return {255.0 - i, 0, 0};
    case palette::Linear_palettes: return {(double)i, (double)i, (double)i};
    case palette::GammaLog_palettes: return {lg, lg, lg};
    case palette::Inversion_palette: return {255.0 - i, 255.0 - i, 255.0 - i};
    case palette::False_color_palette1: return {(std::sin(std::max(x * 360 - 120, 0.0) * deg) * 0.5 + 0.5) * 255, s(60), s(140)};
    case palette::False_color_palette2: return {s(120), s(240), s(0)};
    case palette::False_color_palette3: return {s(240), s(0), s(120)};
    default: return {255 * jet(x, 0.75), 255 * jet(x, 0.5), 255 * jet(x, 0.25)};
  }
}
PBT_TARGET(palettes, "palette kind, colour index and a scalar to map; non-trivial: index away from both ends") {
  T p = static_cast<T>(c.i(0, 9));
  if (c.boolean()) GetPalette(static_cast<T>(c.i(0, 9)));  // earlier requests leave nothing behind
  palette a = GetPalette(p);
  int i = c.i(0, 255);
  c.note() << "palette " << p << " index " << i;
  bool is_jet = p == palette::False_color_palette4;
  auto near = [&](int k) {
    RGB e = reference(p, k);
    double tol = is_jet ? 12 : 1.01;
    return std::fabs(a.colors[k].rgbRed - e.r) <= tol && std::fabs(a.colors[k].rgbGreen - e.g) <= tol && std::fabs(a.colors[k].rgbBlue - e.b) <= tol;
  };
  for (int k : {i, 0, 255}) {
    RGB e = reference(p, k);
    PBT_REQUIRE(near(k), "palette " << p << " colour " << k << " is (" << (int)a.colors[k].rgbRed << "," << (int)a.colors[k].rgbGreen << "," << (int)a.colors[k].rgbBlue << "), expected about (" << e.r << "," << e.g << "," << e.b << ")");
  }
  if (i > 0) {  // neighbouring values get neighbouring colours
    int lim = (p == palette::GammaLog_red_palettes || p == palette::GammaLog_palettes) ? 5 : is_jet ? 5 : 4;
    int d = std::max(std::abs(a.colors[i].rgbRed - a.colors[i - 1].rgbRed), std::max(std::abs(a.colors[i].rgbGreen - a.colors[i - 1].rgbGreen), std::abs(a.colors[i].rgbBlue - a.colors[i - 1].rgbBlue)));
    PBT_REQUIRE(d <= lim, "palette " << p << " jumps by " << d << " between colours " << i - 1 << " and " << i);
    int m = a.colors[i].rgbRed - a.colors[i - 1].rgbRed;
    if (p <= palette::Inversion_palette) PBT_REQUIRE(p == palette::Inversion_red_palette || p == palette::Inversion_palette ? m <= 0 : m >= 0, "palette " << p << " is not monotone at " << i);
  }
  c.evals(3);
  c.nontrivial(i > 1 && i < 254);
}
