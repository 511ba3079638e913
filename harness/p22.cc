// False-colour tables: the program is closed (no input but the map's name), so
// every obligation is ground and the ten maps x 256 entries are all of them.
#include "vc.h"
#include <quadmath.h>
#include <msf_core/src/lib/falsecolor.cc>
using namespace vc;
typedef __float128 Q;
static std::string nm(const char* p, const char* c, int i) { return std::string(p) + "." + c + "[" + std::to_string(i) + "]"; }
// the byte obtained by truncating the exact value; where single precision may round across an integer, either side
static void chan(const std::string& n, int got, Q exact, Q eps) {
  int lo = (int)floorq(exact - eps), hi = (int)floorq(exact + eps); if (lo < 0) lo = 0; if (hi > 255) hi = 255;
  ensure(n, got >= lo && got <= hi, "got " + std::to_string(got) + " expected " + std::to_string((double)exact)); }
static const Q kD = 0.01745329Q;
static Q wave(Q deg) { return (sinq(deg * kD) * 0.5Q + 0.5Q) * 255.0Q; }
static void table(const char* n, palette::palettetypes t, Q (*r)(int), Q (*g)(int), Q (*b)(int), Q eps) {
  palette p = GetPalette(t);
  for (int i = 0; i < 256; ++i) {
    chan(nm(n, "red", i), p.colors[i].rgbRed, r(i), eps);
    chan(nm(n, "green", i), p.colors[i].rgbGreen, g(i), eps);
    chan(nm(n, "blue", i), p.colors[i].rgbBlue, b(i), eps); } }
static Q zero(int) { return 0; }
static Q lin(int i) { return i; }
static Q inv(int i) { return 255 - i; }
static Q gam(int i) { return log10q(i / 255.0Q * 9.0Q + 1.0Q) * 255.0Q; }
static Q f1r(int i) { Q d = i / 255.0Q * 360.0Q - 120.0Q; return wave(d > 0 ? d : 0); }
static Q f1g(int i) { return wave(i / 255.0Q * 360.0Q + 60.0Q); }
static Q f1b(int i) { return wave(i / 255.0Q * 360.0Q + 140.0Q); }
static Q s0(int i) { return wave(i / 255.0Q * 360.0Q); }
static Q s120(int i) { return wave(i / 255.0Q * 360.0Q + 120.0Q); }
static Q s240(int i) { return wave(i / 255.0Q * 360.0Q + 240.0Q); }
// Matlab jet with 64-step ramps: a trapezoid 0..63/64, 1 x 64, 63/64..0, green at
// offset 31, red 64 later, blue 64 earlier (its right end kept)
static Q trap(int k) { if (k < 0 || k > 191) return 0; Q v = k < 64 ? k / 64.0Q : k < 128 ? 1 : (191 - k) / 64.0Q; return v * 255.0Q; }
static Q jr(int i) { return trap(i - 95); }
static Q jg(int i) { return trap(i - 31); }
static Q jb(int i) { return i <= 158 ? trap(i + 32) : 0; }
VC_CASE(linear_red) { table("linear_red", palette::Linear_red_palettes, lin, zero, zero, 0); }
VC_CASE(gamma_red) { table("gamma_red", palette::GammaLog_red_palettes, gam, zero, zero, 1e-3); }
VC_CASE(inverse_red) { table("inverse_red", palette::Inversion_red_palette, inv, zero, zero, 0); }
VC_CASE(linear) { table("linear", palette::Linear_palettes, lin, lin, lin, 0); }
VC_CASE(gamma) { table("gamma", palette::GammaLog_palettes, gam, gam, gam, 1e-3); }
VC_CASE(inverse) { table("inverse", palette::Inversion_palette, inv, inv, inv, 0); }
VC_CASE(false1) { table("false1", palette::False_color_palette1, f1r, f1g, f1b, 1e-3); }
VC_CASE(false2) { table("false2", palette::False_color_palette2, s120, s240, s0, 1e-3); }
VC_CASE(false3) { table("false3", palette::False_color_palette3, s240, s0, s120, 1e-3); }
VC_CASE(jet) { table("jet", palette::False_color_palette4, jr, jg, jb, 1e-9); }
VC_CASE(repeatable) {  // each call builds the same table, whatever was built before
  for (int a = 0; a < 10; ++a) for (int b = 0; b < 10; ++b) {
    palette p = GetPalette((palette::palettetypes)a); GetPalette((palette::palettetypes)b); palette q = GetPalette((palette::palettetypes)a);
    bool eq = true; for (int i = 0; i < 256; ++i) eq = eq && p.colors[i].rgbRed == q.colors[i].rgbRed && p.colors[i].rgbGreen == q.colors[i].rgbGreen && p.colors[i].rgbBlue == q.colors[i].rgbBlue;
    ensure("same table again", eq); } }
VC_MAIN
