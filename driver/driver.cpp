// Conformance driver: executes a script of API calls against the real library
// and records, for every call, its arguments, its outcome and the observable
// state of the objects involved as one JSON line.  It judges nothing: the
// recorded history is checked against the TLA+ specification.
#include "stdafx.h"
#include "manipulation/color_converter.h"
#include "manipulation/color_blend.h"
#include "manipulation/porter_duff.h"
#include "manipulation/color_calculation.h"
#include "manipulation/color_distance.h"
#include "manipulation/color_combinations.h"
#include "manipulation/color_adjustments.h"
#include "manipulation/chromatic_adaptation.h"
#include "utils/matrix.h"
#include "utils/colors.h"
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>

using namespace color_space;
namespace cm = color_manipulation;
typedef rgb_color_space_definition rgbdef;

static const char* TYPES[15] = { "RGB_TRUE","RGB_DEEP","GREY_TRUE","GREY_DEEP","CMYK","HSI","HSV","HSL","HCY","XYZ","XYY","CIELUV","LAB","LCH_AB","LCH_UV" };
static int type_no(const std::string& s) { for (int i = 0; i < 15; ++i) if (s == TYPES[i]) return i; throw std::runtime_error("driver: type " + s); }

// ---- heap ----------------------------------------------------------------
static const int SLOTS = 64;
static color_base* slot[SLOTS + 1];
static bool isbase[SLOTS + 1];
static std::map<void*, int> ids;
static int oid(void* p) { if (!p) return 0; auto it = ids.find(p); if (it != ids.end()) return it->second; int n = (int)ids.size() + 1; ids[p] = n; return n; }
static std::vector<white_point*> wps(1, nullptr);
static std::vector<gamma*> gms(1, nullptr);
static std::vector<gamma_part*> parts(1, nullptr);
static std::vector<rgbdef*> defs(1, nullptr);
static std::vector<int> newdefs;
// objects the script did not make itself are numbered from FOREIGN on
static const int FOREIGN = 1000;
static std::map<void*, std::vector<void*>> foreign;
static std::vector<void*>& fl(void* v) { return foreign[v]; }
template<class T> static int idx(std::vector<T*>& v, T* p)
{
	for (size_t i = 0; i < v.size(); ++i) if (v[i] == p) return (int)i;
	auto& f = fl(&v);
	for (size_t i = 0; i < f.size(); ++i) if (f[i] == p) return FOREIGN + (int)i;
	f.push_back(p); return FOREIGN + (int)f.size() - 1;
}
template<class T> static T* at(std::vector<T*>& v, int i) { return i >= FOREIGN ? (T*)fl(&v)[i - FOREIGN] : v[i]; }
static int defid(rgbdef* d) { size_t n = fl(&defs).size(); int i = idx(defs, d); if (fl(&defs).size() > n) newdefs.push_back(i); return i; }

// gamma hands out copies of its part lists only, but its remove functions want
// iterators into the list itself, which a class derived from gamma can reach.
template<class G> struct gamma_list : G
{
	template<class T> static auto f(int) -> decltype(&T::m_gamma_curve_parts) { return &T::m_gamma_curve_parts; }
	template<class T> static auto i(int) -> decltype(&T::m_inverse_gamma_curve_parts) { return &T::m_inverse_gamma_curve_parts; }
	template<class T> static std::nullptr_t f(...) { return nullptr; }
	template<class T> static std::nullptr_t i(...) { return nullptr; }
};
static bool gremove(gamma* g, int k, bool inverse, std::vector<gamma_part*> gamma::* m)
{
	auto at = (g->*m).begin() + std::min<size_t>(k, (g->*m).size());
	return inverse ? g->remove_inverse_gamma_curve_part(at) : g->remove_gamma_curve_part(at);
}
static bool gremove(gamma* g, int k, bool inverse, std::nullptr_t)   // no access: same effect through the list
{
	auto v = inverse ? g->get_inverse_gamma_curve_parts() : g->get_gamma_curve_parts();
	if (k >= (int)v.size()) return false;
	v.erase(v.begin() + k);
	if (inverse) g->set_inverse_gamma_curve_parts(v); else g->set_gamma_curve_parts(v);
	return true;
}

// ---- encoding ------------------------------------------------------------
static long micro(double v)
{
	if (v != v) return 2000000001L;
	double m = v * 1e6;
	if (m >= 2e9) return 2000000000L;
	if (m <= -2e9) return -2000000000L;
	return (long)(m >= 0 ? std::floor(m + 0.5) : -std::floor(-m + 0.5));
}
// numbers other than zero below the unit of the encoding stay apart from zero
static long microz(double v) { long m = micro(v); return m || !v ? m : v > 0 ? 1 : -1; }
static int32_t bits(float f) { if (f != f) return 2143289344; int32_t i; std::memcpy(&i, &f, 4); return i; }

static std::ostringstream out;
static std::string js(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
template<class V, class F> static std::string arr(const V& v, F f) { std::ostringstream o; o << '['; bool first = true; for (auto& x : v) { if (!first) o << ','; first = false; o << f(x); } o << ']'; return o.str(); }
static std::string micros(const std::vector<float>& v) { return arr(v, [](float x) { return micro(x); }); }
static std::string bitss(const std::vector<float>& v) { return arr(v, [](float x) { return bits(x); }); }

static std::string objson(int s)
{
	color_base* c = slot[s];
	std::ostringstream o;
	auto v = c->get_component_vector();
	float a = c->color_base::alpha();
	o << "{\"sl\":" << s << ",\"id\":" << oid(c) << ",\"t\":\"" << (c->get_color_type() < 15 ? TYPES[c->get_color_type()] : "UNDEFINED") << "\",\"bs\":" << (isbase[s] ? 1 : 0)
		<< ",\"c\":" << micros(v) << ",\"b\":" << bitss(v) << ",\"a\":" << micro(a) << ",\"ab\":" << bits(a) << ",\"d\":" << defid(c->get_rgb_color_space()) << "}";
	return o.str();
}
static std::string defjson(int d)
{
	rgbdef* p = at(defs, d);
	std::ostringstream o;
	auto r = p->get_red_chromaticity_coordinate(), g = p->get_green_chromaticity_coordinate(), b = p->get_blue_chromaticity_coordinate();
	std::vector<float> prim{ r[0],r[1],r[2],g[0],g[1],g[2],b[0],b[1],b[2] };
	std::vector<float> acc{ p->get_red_x(),p->get_red_y(),p->get_red_z(),p->get_green_x(),p->get_green_y(),p->get_green_z(),p->get_blue_x(),p->get_blue_y(),p->get_blue_z() };
	auto m = p->get_transform_matrix(), im = p->get_inverse_transform_matrix();
	std::vector<float> mv, iv;
	for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.columns(); ++j) mv.push_back(m(i, j));
	for (int i = 0; i < im.rows(); ++i) for (int j = 0; j < im.columns(); ++j) iv.push_back(im(i, j));
	white_point* w = p->get_white_point();
	std::vector<float> wv;
	if (w) { auto t = w->get_tristimulus(); auto c = w->get_chromaticity_coordinate(); wv = { t[0],t[1],t[2],c[0],c[1],c[2] }; }
	o << "{\"d\":" << d << ",\"w\":" << idx(wps, w) << ",\"g\":" << idx(gms, p->get_gamma_curve()) << ",\"prim\":" << micros(prim) << ",\"pb\":" << bitss(prim) << ",\"acc\":" << bitss(acc)
		<< ",\"m\":" << micros(mv) << ",\"im\":" << micros(iv) << ",\"mb\":" << bitss(mv) << ",\"imb\":" << bitss(iv) << ",\"wt\":" << micros(wv) << ",\"wb\":" << bitss(wv) << "}";
	return o.str();
}
static std::string wpjson(int w)
{
	white_point* p = at(wps, w);
	auto t = p->get_tristimulus(); auto c = p->get_chromaticity_coordinate();
	std::vector<float> v{ t[0],t[1],t[2],c[0],c[1],c[2] };
	std::vector<float> u{ p->get_tristimulus_x(),p->get_tristimulus_y(),p->get_tristimulus_z(),p->get_chromaticity_x(),p->get_chromaticity_y(),p->get_chromaticity_z() };
	std::ostringstream o;
	o << "{\"w\":" << w << ",\"v\":" << micros(v) << ",\"b\":" << bitss(v) << ",\"u\":" << bitss(u) << "}";
	return o.str();
}
static std::string gmjson(int g)
{
	std::ostringstream o;
	o << "{\"g\":" << g << ",\"f\":" << arr(at(gms, g)->get_gamma_curve_parts(), [](gamma_part* p) { return idx(parts, p); })
		<< ",\"i\":" << arr(at(gms, g)->get_inverse_gamma_curve_parts(), [](gamma_part* p) { return idx(parts, p); }) << "}";
	return o.str();
}

// ---- matrices --------------------------------------------------------------
struct mat_any { virtual ~mat_any() {} };
static std::map<int, matrix<float>> mf;
static std::map<int, matrix<int>> mi;
static std::map<int, matrix<double>> md;
static std::map<int, char> mkind;
template<class T> static std::string matval(int s, matrix<T>& m)
{
	std::ostringstream o, e;
	auto v = m.values();
	int rows = (int)v.size(); bool rect = rows == m.rows() && m.size() == m.rows() * m.columns();
	e << '['; bool first = true;
	for (auto& r : v) { if ((int)r.size() != m.columns()) rect = false; for (auto x : r) { if (!first) e << ','; first = false; e << microz((double)x); } }
	e << ']';
	o << "{\"s\":" << s << ",\"k\":\"" << mkind[s] << "\",\"r\":" << m.rows() << ",\"c\":" << m.columns() << ",\"ok\":" << (rect ? 1 : 0) << ",\"v\":" << e.str() << "}";
	return o.str();
}
static std::string matjson(int s) { return mkind[s] == 'f' ? matval(s, mf[s]) : mkind[s] == 'i' ? matval(s, mi[s]) : matval(s, md[s]); }

struct skipped {};   // an operand is missing because the call that makes it failed

// ---- command ---------------------------------------------------------------
struct cmd { std::string op, f; std::vector<int> s, n; std::vector<float> p; std::string str; };
static std::vector<long> res;          // integer results
static std::vector<float> fres;        // float results
static std::vector<int> outs;          // slots written
static std::vector<int> inv;           // slots, definitions, ... to record afterwards
static std::vector<int> dinv, winv, ginv, minv;

static void put(int s, color_base* c, bool base = false) { slot[s] = c; isbase[s] = base; outs.push_back(s); }
static color_base* S(int s) { return s == 0 ? nullptr : slot[s]; }

template<class T> static T* as(color_base* c) { return static_cast<T*>(c); }

static color_base* make(int t, const std::vector<float>& p, rgbdef* d, bool grey)
{
	switch (t)
	{
	case 0: return grey ? new rgb_truecolor(p[0], p[1], d) : new rgb_truecolor(p[0], p[1], p[2], p[3], d);
	case 1: return grey ? new rgb_deepcolor(p[0], p[1], d) : new rgb_deepcolor(p[0], p[1], p[2], p[3], d);
	case 2: return new grey_truecolor(p[0], p[1], d);
	case 3: return new grey_deepcolor(p[0], p[1], d);
	case 4: return new cmyk(p[0], p[1], p[2], p[3], p[4], d);
	case 5: return new hsi(p[0], p[1], p[2], p[3], d);
	case 6: return new hsv(p[0], p[1], p[2], p[3], d);
	case 7: return new hsl(p[0], p[1], p[2], p[3], d);
	case 8: return new hcy(p[0], p[1], p[2], p[3], d);
	case 9: return new xyz(p[0], p[1], p[2], p[3], d);
	case 10: return new xyy(p[0], p[1], p[2], p[3], d);
	case 11: return new cieluv(p[0], p[1], p[2], p[3], d);
	case 12: return new lab(p[0], p[1], p[2], p[3], d);
	case 13: return new lch_ab(p[0], p[1], p[2], p[3], d);
	default: return new lch_uv(p[0], p[1], p[2], p[3], d);
	}
}
#define EACH(X) X(0, rgb_truecolor, rgb_true) X(1, rgb_deepcolor, rgb_deep) X(2, grey_truecolor, grey_true) X(3, grey_deepcolor, grey_deep) X(4, cmyk, cmyk) X(5, hsi, hsi) X(6, hsv, hsv) X(7, hsl, hsl) X(8, hcy, hcy) X(9, xyz, xyz) X(10, xyy, xyy) X(11, cieluv, cieluv) X(12, lab, lab) X(13, lch_ab, lch_ab) X(14, lch_uv, lch_uv)

static color_base* copy_of(color_base* c)
{
	switch (c->get_color_type())
	{
#define X(n, T, f) case n: return new T(*as<T>(c));
		EACH(X)
#undef X
	default: return new color_base(*c);
	}
}
static color_base* from_base(int t, const color_base& c)
{
	switch (t)
	{
#define X(n, T, f) case n: return new T(c);
		EACH(X)
#undef X
	}
	return nullptr;
}
static void assign(color_base* a, color_base* b)
{
	switch (a->get_color_type())
	{
#define X(n, T, f) case n: *as<T>(a) = *as<T>(b); break;
		EACH(X)
#undef X
	default: break;
	}
}
static void named_set(color_base* c, int i, float v)
{
#define S1(n, T, A) case n: if (i == 0) as<T>(c)->A(v); break;
#define S3(n, T, A, B, C) case n: if (i == 0) as<T>(c)->A(v); else if (i == 1) as<T>(c)->B(v); else as<T>(c)->C(v); break;
	switch (c->get_color_type())
	{
	S3(0, rgb_truecolor, red, green, blue) S3(1, rgb_deepcolor, red, green, blue)
	S1(2, grey_truecolor, grey) S1(3, grey_deepcolor, grey)
	case 4: if (i == 0) as<cmyk>(c)->cyan(v); else if (i == 1) as<cmyk>(c)->magenta(v); else if (i == 2) as<cmyk>(c)->yellow(v); else as<cmyk>(c)->black(v); break;
	S3(5, hsi, hue, saturation, intensity) S3(6, hsv, hue, saturation, value) S3(7, hsl, hue, saturation, lightness) S3(8, hcy, hue, chroma, luma)
	S3(9, xyz, x, y, z) S3(10, xyy, x, y, Y) S3(11, cieluv, L, u, v) S3(12, lab, luminance, a, b)
	S3(13, lch_ab, luminance, chroma, hue) S3(14, lch_uv, luminance, chroma, hue)
	default: break;
	}
}
static std::vector<float> named_get(color_base* c)
{
	switch (c->get_color_type())
	{
#define G3(n, T, A, B, C) case n: { auto x = as<T>(c); return { x->A(), x->B(), x->C() }; }
	G3(0, rgb_truecolor, red, green, blue) G3(1, rgb_deepcolor, red, green, blue)
	case 2: return { as<grey_truecolor>(c)->grey() };
	case 3: return { as<grey_deepcolor>(c)->grey() };
	case 4: { auto x = as<cmyk>(c); return { x->cyan(), x->magenta(), x->yellow(), x->black() }; }
	G3(5, hsi, hue, saturation, intensity) G3(6, hsv, hue, saturation, value) G3(7, hsl, hue, saturation, lightness) G3(8, hcy, hue, chroma, luma)
	G3(9, xyz, x, y, z) G3(10, xyy, x, y, Y) G3(11, cieluv, L, u, v) G3(12, lab, luminance, a, b)
	G3(13, lch_ab, luminance, chroma, hue) G3(14, lch_uv, luminance, chroma, hue)
	default: return {};
	}
}
static color_base* conv_fn(color_base* c, int t)
{
	switch (t)
	{
#define X(n, T, f) case n: return cm::color_converter::to_##f(c);
		EACH(X)
#undef X
	}
	return nullptr;
}

// functions for custom blending
static float cf(int k, float s, float d)
{
	switch (k) { case 0: return s; case 1: return d; case 2: return s * d; case 3: return (s + d) / 2.f; case 4: return 1.f - s; case 5: return s - d; default: return 2.f; }
}

static color_base* blend(const cmd& c)
{
	color_base* a = S(c.s[1]); color_base* b = S(c.s[2]);
	if (c.f == "custom") { int k = c.n[2]; return cm::color_blend::custom_componentwise_blend(a, b, c.n[0] != 0, c.n[1] != 0, [k](float s, float d) { return cf(k, s, d); }); }
	bool dflt = c.n[0] == 2;
#define B(x) if (c.f == #x) return dflt ? cm::color_blend::x(a, b) : cm::color_blend::x(a, b, c.n[0] != 0, c.n[1] != 0);
	B(normal) B(dissolve) B(multiply) B(screen) B(overlay) B(darken) B(lighten) B(color_dodge) B(linear_dodge) B(color_burn) B(linear_burn)
	B(hard_light) B(soft_light) B(vivid_light) B(linear_light) B(pin_light) B(hard_mix) B(difference) B(subtract) B(divide) B(plus_lighter)
	B(plus_darker) B(exclusion) B(hue) B(saturation) B(color) B(luminosity)
	throw std::runtime_error("driver: blend " + c.f);
}
static color_base* pd(const cmd& c)
{
	color_base* a = S(c.s[1]); color_base* b = S(c.s[2]);
#define P(x) if (c.f == #x) return cm::porter_duff::x(a, b);
	P(src) P(dest) P(atop) P(dest_atop) P(over) P(dest_over) P(in) P(dest_in) P(out) P(dest_out) P(x_or) P(clear)
	throw std::runtime_error("driver: pd " + c.f);
}
static color_base* arith(const cmd& c)
{
	color_base* a = S(c.s[1]); color_base* b = S(c.s[2]);
	bool inc = c.n[0] == 1, dflt = c.n[0] == 2;
	typedef cm::color_calculation K;
	if (c.f == "base")
	{
		if (c.op == "add") return dflt ? K::add(a, b) : K::add(a, b, c.p[0], c.p[1], inc);
		if (c.op == "mix") return dflt ? K::mix(a, b) : K::mix(a, b, c.p[0], inc);
		return dflt ? K::subtract(a, b) : K::subtract(a, b, c.p[0], inc);
	}
	switch (a->get_color_type())
	{
#define X(n, T, f) case n: if (c.op == "add") return dflt ? K::add(as<T>(a), as<T>(b)) : K::add(as<T>(a), as<T>(b), c.p[0], c.p[1], inc); \
	if (c.op == "mix") return dflt ? K::mix(as<T>(a), as<T>(b)) : K::mix(as<T>(a), as<T>(b), c.p[0], inc); \
	return dflt ? K::subtract(as<T>(a), as<T>(b)) : K::subtract(as<T>(a), as<T>(b), c.p[0], inc);
		EACH(X)
#undef X
	default: return nullptr;
	}
}
static color_base* average(const cmd& c)
{
	bool inc = c.n[0] == 1;
	switch (type_no(c.f))
	{
#define X(n, T, f) case n: { std::vector<T*> v; for (size_t i = 1; i < c.s.size(); ++i) v.push_back(as<T>(S(c.s[i]))); return cm::color_calculation::average_##f(v, inc); }
		EACH(X)
#undef X
	}
	return nullptr;
}
static float distance(const cmd& c)
{
	color_base* a = S(c.s[0]); color_base* b = S(c.s[1]);
	typedef cm::color_distance D;
	auto& p = c.p; size_t n = p.size();
	if (c.f == "euclid2") return c.n.empty() ? D::euclidean_distance_squared(a, b) : D::euclidean_distance_squared(a, b, (color_type)c.n[0]);
	if (c.f == "euclid") return c.n.empty() ? D::euclidean_distance(a, b) : D::euclidean_distance(a, b, (color_type)c.n[0]);
	if (c.f == "weighted") return D::euclidean_distance_weighted(a, b);
	if (c.f == "cie76") return D::cielab_delta_e_cie76(a, b);
	if (c.f == "cie94") return n == 5 ? D::cielab_delta_e_cie94(a, b, p[0], p[1], p[2], p[3], p[4]) : D::cielab_delta_e_cie94(a, b);
	if (c.f == "cie00" || c.f == "cie00_published") return n == 5 ? D::cielab_delta_e_cie00(a, b, p[0], p[1], p[2], p[3], p[4]) : D::cielab_delta_e_cie00(a, b);
	if (c.f == "cmc") return n == 2 ? D::cmc_delta_e_lc84(a, b, p[0], p[1]) : D::cmc_delta_e_lc84(a, b);
	throw std::runtime_error("driver: distance " + c.f);
}
static void combo(const cmd& c)
{
	color_base* a = S(c.s[0]);
	typedef cm::color_combinations C;
	std::vector<color_base*> v;
	if (c.f == "complimentary") v.push_back(C::create_complimentary(a));
	else if (c.f == "triplet") v = C::create_triplet(a);
	else if (c.f == "quartet") v = C::create_quartet(a);
	else if (c.f == "quintet") v = C::create_quintet(a);
	else if (c.f == "combination") v = C::create_combination(a, c.n[0]);
	else if (c.f == "analogous") v = C::create_analogous(a, c.p[0]);
	else if (c.f == "monochromatic") v = C::create_monochromatic(a, c.n[0], c.p[0], c.n[1]);
	else if (c.f == "split") v = C::create_complimentary_split(a, c.p[0]);
	else throw std::runtime_error("driver: combination " + c.f);
	res.push_back((long)v.size());
	int first = c.s[1];
	// record at most the slots available: every k-th color when there are more
	size_t room = SLOTS + 1 - first, n = v.size();
	if (n <= room) for (size_t i = 0; i < n; ++i) { res.push_back((long)i); put(first + (int)i, v[i]); }
	else for (size_t i = 0; i < room; ++i) { size_t j = i * (n - 1) / (room - 1); res.push_back((long)j); put(first + (int)i, v[j]); }
}
static color_base* adjust(const cmd& c, color_base* a)
{
	typedef cm::color_adjustments A;
	if (c.f == "sat_rgb") return A::saturate_in_rgb_space(a, c.p[0]);
	if (c.f == "sat_hsl") return A::saturate_in_hsl_space(a, c.p[0]);
	if (c.f == "lum_rgb") return A::luminate_in_rgb_space(a, c.p[0]);
	return A::luminate_in_hsl_space(a, c.p[0]);
}
static void adjust_ref(const cmd& c, color_base* a)
{
	typedef cm::color_adjustments A;
	if (c.f == "sat_rgb") A::saturate_in_rgb_space(*a, c.p[0]);
	else if (c.f == "sat_hsl") A::saturate_in_hsl_space(*a, c.p[0]);
	else if (c.f == "lum_rgb") A::luminate_in_rgb_space(*a, c.p[0]);
	else A::luminate_in_hsl_space(*a, c.p[0]);
}
static color_base* adapt(const cmd& c)
{
	typedef cm::chromatic_adaptation A;
	color_base* a = S(c.s[1]); white_point* w = at(wps, c.n[0]);
	size_t n = c.p.size();
	if (c.f == "von_kries") return A::von_kries_adaptation(a, w);
	if (c.f == "bradford") return A::bradford_adaptation(a, w);
	if (c.f == "bradford_s") return A::bradford_adaptation_simplified(a, w);
	if (c.f == "xyz_scale") return A::xyz_scale_adaptation(a, w);
	if (c.f == "sharp") return A::sharp_adaptation(a, w);
	if (c.f == "cmccat97_s") return A::cmccat97_adaptation_simplified(a, w);
	if (c.f == "cmccat97") return n == 1 ? A::cmccat97_adaptation(a, w, c.p[0]) : A::cmccat97_adaptation(a, w, c.p[0], c.p[1]);
	if (c.f == "cmccat2000_s") return A::cmccat2000_adaptation_simplified(a, w);
	if (c.f == "cmccat2000") return n == 1 ? A::cmccat2000_adaptation(a, w, c.p[0]) : n == 2 ? A::cmccat2000_adaptation(a, w, c.p[0], c.p[1]) : A::cmccat2000_adaptation(a, w, c.p[0], c.p[1], c.p[2]);
	if (c.f == "cat02_s") return A::cat02_adaptation_simplified(a, w);
	if (c.f == "cat02") return n == 1 ? A::cat02_adaptation(a, w, c.p[0]) : A::cat02_adaptation(a, w, c.p[0], c.p[1]);
	throw std::runtime_error("driver: adapt " + c.f);
}
static rgbdef* def_preset(const std::string& f)
{
	rgb_color_space_definition_presets p;
#define D(x) if (f == #x) return p.x();
	D(sRGB) D(adobeRGB) D(pal_secam) D(americaNTSC) D(oldNTSC) D(appleRGB) D(dci_p3) D(uhdtv) D(adobeWideGammutRGB) D(rommRGB) D(bestRGB) D(betaRGB) D(bruceRGB)
	D(colorMatchRGB) D(donRGB4) D(ektaSpacePS5) D(ProPhotoRGB) D(SMPTE_C_RGB) D(cieRGB) D(cieXYZ)
	throw std::runtime_error("driver: definition " + f);
}
static white_point* wp_preset(const std::string& f)
{
	white_point_presets p;
#define W(x) if (f == #x "_2") return p.x##_2Degree(); if (f == #x "_10") return p.x##_10Degree();
	W(D50) W(D55) W(D65) W(D75) W(A) W(B) W(C) W(E) W(F1) W(F2) W(F3) W(F4) W(F5) W(F6) W(F7) W(F8) W(F9) W(F10) W(F11) W(F12)
	throw std::runtime_error("driver: white point " + f);
}
static gamma* gm_preset(const std::string& f)
{
	gamma_presets p;
#define G(x) if (f == #x) return p.x();
	G(gamma1_8) G(gamma2_2) G(gamma2_6) G(gamma2_8) G(sRGB) G(gammaAdobe) G(gammaRomm) G(gammaUHDTV)
	throw std::runtime_error("driver: gamma " + f);
}
static gamma_part* part_of(int k, float border)
{
	switch (k)
	{
	case 0: { auto p = new gamma_part(); p->set_upper_border(border); return p; }
	case 1: return new gamma_part([](float x) { return x * 2.f; }, border);
	case 2: return new gamma_part([](float x) { return x * 0.5f; }, border);
	case 3: return new gamma_part([](float x) { return x * x; }, border);
	case 4: return new gamma_part([](float x) { return 1.f - x; }, border);
	case 5: { auto p = new gamma_part(); p->set_gamma_function([](float x) { return x + 0.25f; }); p->set_upper_border(border); return p; }
	default: return new gamma_part([](float x) { return 3.f * x - 1.f; }, border);
	}
}

#define NAMED(X) X(AliceBlue) X(AntiqueWhite) X(Aqua) X(Aquamarine) X(Azure) X(Beige) X(Bisque) X(Black) X(BlanchedAlmond) X(Blue) X(BlueViolet) X(Brown) X(BurlyWood) X(CadetBlue) X(Chartreuse) X(Chocolate) X(Coral) X(CornflowerBlue) X(Cornsilk) X(Crimson) X(Cyan) X(DarkBlue) X(DarkCyan) X(DarkGoldenrod) X(DarkGray) X(DarkGreen) X(DarkKhaki) X(DarkMagenta) X(DarkOliveGreen) X(DarkOrange) X(DarkOrchid) X(DarkRed) X(DarkSalmon) X(DarkSeaGreen) X(DarkSlateBlue) X(DarkSlateGray) X(DarkTurquoise) X(DarkViolet) X(DeepPink) X(DeepSkyBlue) X(DimGray) X(DodgerBlue) X(Firebrick) X(FloralWhite) X(ForestGreen) X(Fuchsia) X(Gainsboro) X(GhostWhite) X(Gold) X(Goldenrod) X(Gray) X(Green) X(GreenYellow) X(Honeydew) X(HotPink) X(IndianRed) X(Indigo) X(Ivory) X(Khaki) X(Lavender) X(LavenderBlush) X(LawnGreen) X(LemonChiffon) X(LightBlue) X(LightCoral) X(LightCyan) X(LightGoldenrodYellow) X(LightGray) X(LightGreen) X(LightPink) X(LightSalmon) X(LightSeaGreen) X(LightSkyBlue) X(LightSlateGray) X(LightSteelBlue) X(LightYellow) X(Lime) X(LimeGreen) X(Linen) X(Magenta) X(Maroon) X(MediumAquamarine) X(MediumBlue) X(MediumOrchid) X(MediumPurple) X(MediumSeaGreen) X(MediumSlateBlue) X(MediumSpringGreen) X(MediumTurquoise) X(MediumVioletRed) X(MidnightBlue) X(MintCream) X(MistyRose) X(Moccasin) X(NavajoWhite) X(Navy) X(OldLace) X(Olive) X(OliveDrab) X(Orange) X(OrangeRed) X(Orchid) X(PaleGoldenrod) X(PaleGreen) X(PaleTurquoise) X(PaleVioletRed) X(PapayaWhip) X(PeachPuff) X(Peru) X(Pink) X(Plum) X(PowderBlue) X(Purple) X(Red) X(RosyBrown) X(RoyalBlue) X(SaddleBrown) X(Salmon) X(SandyBrown) X(SeaGreen) X(SeaShell) X(Sienna) X(Silver) X(SkyBlue) X(SlateBlue) X(SlateGray) X(Snow) X(SpringGreen) X(SteelBlue) X(Tan) X(Teal) X(Thistle) X(Tomato) X(Transparent) X(Turquoise) X(Violet) X(Wheat) X(White) X(WhiteSmoke) X(Yellow) X(YellowGreen)
static HexcodeColors named_code(const std::string& f)
{
#define X(n) if (f == #n) return HexcodeColors::n;
	NAMED(X)
#undef X
	throw std::runtime_error("driver: named color " + f);
}

template<class T> static std::vector<T> vals(const cmd& c, size_t from = 0) { std::vector<T> v; for (size_t i = from; i < c.p.size(); ++i) v.push_back((T)c.p[i]); return v; }
template<class T> static void mat_op(const cmd& c, std::map<int, matrix<T>>& m, char kind)
{
	typedef matrix<T> M;
	auto setm = [&](int s, const M& v) { auto it = m.find(s); if (it != m.end()) m.erase(it); m.insert(std::make_pair(s, v)); mkind[s] = kind; minv.push_back(s); };
	const std::string& f = c.f;
	auto& s = c.s;
	static const std::vector<std::string> makers{ "copy", "plus", "minus", "times", "splus", "sminus", "stimes", "sdiv", "transpose", "adjoint", "invert" };
	bool maker = f.substr(0, 3) == "new" || std::find(makers.begin(), makers.end(), f) != makers.end();
	for (size_t i = maker ? 1 : 0; i < s.size(); ++i) { if (!m.count(s[i]) || mkind[s[i]] != kind) throw skipped(); minv.push_back(s[i]); }
	if (f == "new") { setm(s[0], M(c.n[0], c.n[1]));}
	else if (f == "newd") { setm(s[0], M(c.n[0], c.n[1], vals<T>(c)));}
	else if (f == "newi") { setm(s[0], M(c.n[0], c.n[1], (T)c.p[0]));}
	else if (f == "newsq") { setm(s[0], M(c.n[0]));}
	else if (f == "newsqd") { setm(s[0], M(c.n[0], vals<T>(c)));}
	else if (f == "newid") { setm(s[0], M::create_idendity(c.n[0]));}
	else if (f == "copy") setm(s[0], M(m.at(s[1])));
	else if (f == "assign") m.at(s[0]) = m.at(s[1]);
	else if (f == "get") fres.push_back((float)m.at(s[0])(c.n[0], c.n[1]));
	else if (f == "cget") { const M& k = m.at(s[0]); fres.push_back((float)k(c.n[0], c.n[1])); }
	else if (f == "set") m.at(s[0])(c.n[0], c.n[1]) = (T)c.p[0];
	else if (f == "eq") { const M& k = m.at(s[0]); res.push_back(m.at(s[0]) == m.at(s[1]) ? 1 : 0); res.push_back(k == m.at(s[1]) ? 1 : 0); }
	else if (f == "plus") setm(s[0], m.at(s[1]) + m.at(s[2]));
	else if (f == "minus") setm(s[0], m.at(s[1]) - m.at(s[2]));
	else if (f == "times") setm(s[0], m.at(s[1]) * m.at(s[2]));
	else if (f == "pluseq") m.at(s[0]) += m.at(s[1]);
	else if (f == "minuseq") m.at(s[0]) -= m.at(s[1]);
	else if (f == "timeseq") m.at(s[0]) *= m.at(s[1]);
	else if (f == "splus") setm(s[0], m.at(s[1]) + (T)c.p[0]);
	else if (f == "sminus") setm(s[0], m.at(s[1]) - (T)c.p[0]);
	else if (f == "stimes") setm(s[0], m.at(s[1]) * (T)c.p[0]);
	else if (f == "sdiv") setm(s[0], m.at(s[1]) / (T)c.p[0]);
	else if (f == "vec") { for (T x : m.at(s[0]) * vals<T>(c)) fres.push_back((float)x); }
	else if (f == "transpose") setm(s[0], m.at(s[1]).transpose());
	else if (f == "adjoint") setm(s[0], m.at(s[1]).adjoint());
	else if (f == "invert") setm(s[0], m.at(s[1]).invert());
	else if (f == "det") { double d = (double)m.at(s[0]).determinante(); res.push_back((long)(d >= 0 ? d + 0.5 : d - 0.5)); fres.push_back((float)d); }
	else if (f == "fill") m.at(s[0]).fill((T)c.p[0]);
	else if (f == "insert") { auto v = vals<T>(c); m.at(s[0]).insert(v); }
	else if (f == "resize") { if (c.p.empty()) m.at(s[0]).resize(c.n[0], c.n[1]); else m.at(s[0]).resize(c.n[0], c.n[1], (T)c.p[0]); }
	else if (f == "rownull") res.push_back(m.at(s[0]).is_row_null(c.n[0]));
	else if (f == "colnull") res.push_back(m.at(s[0]).is_column_null(c.n[0]));
	else if (f == "roweq") res.push_back(m.at(s[0]).are_rows_equal(c.n[0], c.n[1]));
	else if (f == "coleq") res.push_back(m.at(s[0]).are_columns_equal(c.n[0], c.n[1]));
	else if (f == "shape") { auto& x = m.at(s[0]); res.push_back(x.rows()); res.push_back(x.columns()); res.push_back(x.size()); }
	else throw std::runtime_error("driver: matrix " + f);
}

static void run(const cmd& c)
{
	const std::string& op = c.op;
	auto need = [&](int s) { if (s && !slot[s]) throw skipped(); };
	auto operands = [&](size_t from) { for (size_t i = from; i < c.s.size(); ++i) if (c.s[i]) { need(c.s[i]); inv.push_back(c.s[i]); } };
	if (op == "new") put(c.s[0], make(type_no(c.f), c.p, at(defs, c.n[0]), c.n.size() > 1 && c.n[1] == 1));
	else if (op == "hexs") put(c.s[0], new rgb_truecolor(c.str, at(defs, c.n[0])));
	else if (op == "hexi") put(c.s[0], new rgb_truecolor((int)(((uint32_t)c.n[1] << 16) | (uint32_t)c.n[2]), at(defs, c.n[0])));
	else if (op == "copy") { operands(1); put(c.s[0], isbase[c.s[1]] ? new color_base(*S(c.s[1])) : copy_of(S(c.s[1])), isbase[c.s[1]]); }
	else if (op == "base") { operands(1); put(c.s[0], from_base(type_no(c.f), *S(c.s[1]))); }
	else if (op == "plus") { operands(1); put(c.s[0], new color_base(*S(c.s[1]) + *S(c.s[2])), true); }
	else if (op == "assign") { operands(0); assign(S(c.s[0]), S(c.s[1])); }
	else if (op == "bassign") { operands(0); *S(c.s[0]) = *S(c.s[1]); }
	else if (op == "setc") { operands(0); named_set(S(c.s[0]), c.n[0], c.p[0]); }
	else if (op == "gset") { operands(0); if (c.p.size() == 1) S(c.s[0])->set_component(c.p[0], c.n[0]); else S(c.s[0])->set_component(c.p[0], c.n[0], c.p[1], c.p[2]); }
	else if (op == "alpha") { operands(0); S(c.s[0])->alpha(c.p[0]); }
	else if (op == "amul") { operands(0); S(c.s[0])->alpha_multiply(); }
	else if (op == "adiv") { operands(0); S(c.s[0])->alpha_divide(); }
	else if (op == "cgam") { operands(0); S(c.s[0])->do_gamma_correction(); }
	else if (op == "cigam") { operands(0); S(c.s[0])->do_inverse_gamma_correction(); }
	else if (op == "setdef") { operands(0); S(c.s[0])->set_rgb_color_space(at(defs, c.n[0])); }
	else if (op == "get") { operands(0); fres.push_back(S(c.s[0])->get_component(c.n[0])); }
	else if (op == "read") { operands(0); for (float x : named_get(S(c.s[0]))) fres.push_back(x); fres.push_back(S(c.s[0])->alpha()); fres.push_back(S(c.s[0])->get_component_max()); fres.push_back(S(c.s[0])->get_component_min()); }
	else if (op == "eq") { operands(0); res.push_back(*S(c.s[0]) == *S(c.s[1]) ? 1 : 0); res.push_back(*S(c.s[0]) != *S(c.s[1]) ? 1 : 0); }
	else if (op == "conv") { operands(1); put(c.s[0], c.n[0] == 0 ? cm::color_converter::convertTo(S(c.s[1]), (color_type)type_no(c.f)) : conv_fn(S(c.s[1]), type_no(c.f))); }
	else if (op == "blend") { operands(1); put(c.s[0], blend(c)); }
	else if (op == "dissolve_stat")
	{
		operands(0); long n = 0, all = 0;
		for (int i = 0; i < c.n[0]; ++i) { auto r = cm::color_converter::to_rgb_deep(cm::color_blend::dissolve(S(c.s[0]), S(c.s[1]), false, false)); auto q = cm::color_converter::to_rgb_deep(S(c.s[0])); int m = 0; for (int k = 0; k < 3; ++k) if (fabsf(r->get_component(k) - q->get_component(k)) < 0.01f) ++m; n += m; all += m % 3 == 0; }
		res.push_back(n); res.push_back(all);
	}
	else if (op == "pd") { operands(1); put(c.s[0], pd(c)); }
	else if (op == "add" || op == "mix" || op == "sub") { operands(1); put(c.s[0], arith(c)); }
	else if (op == "avg") { operands(1); put(c.s[0], average(c)); }
	else if (op == "dist") { operands(0); fres.push_back(distance(c)); }
	else if (op == "comb") { need(c.s[0]); inv.push_back(c.s[0]); combo(c); }
	else if (op == "adj") { operands(1); put(c.s[0], adjust(c, S(c.s[1]))); }
	else if (op == "adjr") { operands(0); adjust_ref(c, S(c.s[0])); }
	else if (op == "adapt") { operands(1); winv.push_back(c.n[0]); dinv.push_back(defid(S(c.s[1])->get_rgb_color_space())); put(c.s[0], adapt(c)); }
	else if (op == "adlum") { fres.push_back(c.p.size() == 1 ? cm::chromatic_adaptation::calculate_adapting_luminance(c.p[0]) : cm::chromatic_adaptation::calculate_adapting_luminance(c.p[0], c.p[1])); }
	else if (op == "def")
	{
		rgbdef* d = nullptr;
		if (c.f == "custom") d = new rgbdef(c.p[0], c.p[1], c.p[2], c.p[3], c.p[4], c.p[5], at(wps, c.n[0]), at(gms, c.n[1]));
		else if (c.f == "customa") d = new rgbdef(std::array<float, 2>{{c.p[0], c.p[1]}}, std::array<float, 2>{{c.p[2], c.p[3]}}, std::array<float, 2>{{c.p[4], c.p[5]}}, at(wps, c.n[0]), at(gms, c.n[1]));
		else if (c.f == "copy") { d = new rgbdef(*at(defs, c.n[0])); dinv.push_back(c.n[0]); }
		else d = def_preset(c.f);
		defs.push_back(d); res.push_back((long)defs.size() - 1); dinv.push_back((int)defs.size() - 1);
		winv.push_back(idx(wps, d->get_white_point())); ginv.push_back(idx(gms, d->get_gamma_curve()));
	}
	else if (op == "setwp") { at(defs, c.n[0])->set_white_point(at(wps, c.n[1])); dinv.push_back(c.n[0]); winv.push_back(c.n[1]); }
	else if (op == "setgm") { at(defs, c.n[0])->set_gamma_curve(at(gms, c.n[1])); dinv.push_back(c.n[0]); ginv.push_back(c.n[1]); }
	else if (op == "wp")
	{
		white_point* w = nullptr;
		if (c.f == "full") w = new white_point(c.p[0], c.p[1], c.p[2], c.p[3], c.p[4]);
		else if (c.f == "fulla") w = new white_point(std::array<float, 3>{{c.p[0], c.p[1], c.p[2]}}, std::array<float, 2>{{c.p[3], c.p[4]}});
		else if (c.f == "tri") w = new white_point(c.p[0], c.p[1], c.p[2]);
		else if (c.f == "chr") w = new white_point(c.p[0], c.p[1]);
		else if (c.f == "copy") { w = new white_point(*at(wps, c.n[0])); winv.push_back(c.n[0]); }
		else w = wp_preset(c.f);
		wps.push_back(w); res.push_back((long)wps.size() - 1); winv.push_back((int)wps.size() - 1);
	}
	else if (op == "wpeq") { res.push_back(*at(wps, c.n[0]) == *at(wps, c.n[1]) ? 1 : 0); res.push_back(*at(wps, c.n[0]) != *at(wps, c.n[1]) ? 1 : 0); winv.push_back(c.n[0]); winv.push_back(c.n[1]); }
	else if (op == "t2c") { for (float x : white_point::tristimulus_to_chromaticity_coordinate(std::array<float, 3>{{c.p[0], c.p[1], c.p[2]}})) fres.push_back(x); }
	else if (op == "c2t") { std::array<float, 3> a{ {c.p[0], c.p[1], c.p[2]} }; for (float x : c.p.size() == 3 ? white_point::chromaticity_coordinate_to_tristimulus(a) : white_point::chromaticity_coordinate_to_tristimulus(a, c.p[3])) fres.push_back(x); }
	else if (op == "gpart") { parts.push_back(c.f == "copy" ? new gamma_part(*at(parts, c.n[0])) : part_of(c.n[0], c.p[0])); res.push_back((long)parts.size() - 1); fres.push_back(parts.back()->get_upper_border()); }
	else if (op == "gpborder") { at(parts, c.n[0])->set_upper_border(c.p[0]); fres.push_back(at(parts, c.n[0])->get_upper_border()); }
	else if (op == "gpassign") { *at(parts, c.n[0]) = *at(parts, c.n[1]); fres.push_back(at(parts, c.n[0])->get_upper_border()); }
	else if (op == "gpcmp")
	{
		gamma_part &a = *at(parts, c.n[0]), &b = *at(parts, c.n[1]); const gamma_part &x = a, &y = b;
		for (bool q : { a == b, a != b, a < b, a > b, a <= b, a >= b, x == y, x != y, x < y, x > y, x <= y, x >= y }) res.push_back(q ? 1 : 0);
	}
	else if (op == "gm")
	{
		gamma* g = nullptr;
		if (c.f == "empty") g = new gamma();
		else if (c.f == "list") { std::vector<gamma_part*> a, b; size_t k = c.n[0]; for (size_t i = 1; i < c.n.size(); ++i) (i <= k ? a : b).push_back(at(parts, c.n[i])); g = new gamma(a, b); }
		else if (c.f == "copy") { g = new gamma(*at(gms, c.n[0])); ginv.push_back(c.n[0]); }
		else g = gm_preset(c.f);
		gms.push_back(g); res.push_back((long)gms.size() - 1); ginv.push_back((int)gms.size() - 1);
	}
	else if (op == "gmop")
	{
		gamma* g = c.n[0] < 0 ? at(defs, -c.n[0])->get_gamma_curve() : at(gms, c.n[0]);   // -d: the curve of definition d
		ginv.push_back(idx(gms, g));
		if (c.f == "add") g->add_gamma_curve_part(at(parts, c.n[1]));
		else if (c.f == "iadd") g->add_inverse_gamma_curve_part(at(parts, c.n[1]));
		else if (c.f == "set" || c.f == "iset") { std::vector<gamma_part*> a; for (size_t i = 1; i < c.n.size(); ++i) a.push_back(at(parts, c.n[i])); if (c.f == "set") g->set_gamma_curve_parts(a); else g->set_inverse_gamma_curve_parts(a); }
		else if (c.f == "remove") res.push_back(gremove(g, c.n[1], false, gamma_list<gamma>::f<gamma_list<gamma>>(0)) ? 1 : 0);
		else if (c.f == "iremove") res.push_back(gremove(g, c.n[1], true, gamma_list<gamma>::i<gamma_list<gamma>>(0)) ? 1 : 0);
		else if (c.f == "assign") { *g = *at(gms, c.n[1]); ginv.push_back(c.n[1]); }
		else if (c.f == "eq") { ginv.push_back(c.n[1]); const gamma &x = *g, &y = *at(gms, c.n[1]); res.push_back(x == y); res.push_back(x != y); res.push_back(g->operator==(y)); res.push_back(g->operator!=(y)); }
		else if (c.f == "eval") { fres.push_back(g->gamma_correction(c.p[0])); fres.push_back(g->inverse_gamma_correction(c.p[0])); }
		else if (c.f == "round") { float e = g->gamma_correction(c.p[0]); fres.push_back(e); fres.push_back(g->inverse_gamma_correction(e)); float d = g->inverse_gamma_correction(c.p[0]); fres.push_back(d); fres.push_back(g->gamma_correction(d)); }
		else throw std::runtime_error("driver: gmop " + c.f);
	}
	else if (op == "named")
	{
		predefined_color pc(named_code(c.f), at(defs, c.n[0]));
		int s = c.s[0];
		put(s, pc.get_rgb_true()); put(s + 1, pc.get_rgb_deep()); put(s + 2, pc.get_grey_true()); put(s + 3, pc.get_grey_deep()); put(s + 4, pc.get_cmyk());
		put(s + 5, pc.get_hsv()); put(s + 6, pc.get_hsl()); put(s + 7, pc.get_xyz()); put(s + 8, pc.get_xyy()); put(s + 9, pc.get_lab());
		uint32_t u = (uint32_t)named_code(c.f); res.push_back(u >> 16); res.push_back(u & 0xffff);
	}
	else if (op == "mf") mat_op<float>(c, mf, 'f');
	else if (op == "mi") mat_op<int>(c, mi, 'i');
	else if (op == "md") mat_op<double>(c, md, 'd');
	else if (op == "near") operands(0);
	else if (op == "audit") {
		for (size_t i = 0; i < fl(&defs).size(); ++i) dinv.push_back(FOREIGN + (int)i); for (int i = 1; i <= SLOTS; ++i) if (slot[i]) inv.push_back(i); for (size_t i = 1; i < defs.size(); ++i) dinv.push_back((int)i); for (size_t i = 1; i < wps.size(); ++i) winv.push_back((int)i); for (size_t i = 1; i < gms.size(); ++i) ginv.push_back((int)i); }
	else throw std::runtime_error("driver: operation " + op);
}

static cmd parse(const std::string& line)
{
	cmd c;
	std::vector<std::string> f; size_t b = 0;
	for (int k = 0; k < 4; ++k) { size_t e = line.find('|', b); if (e == std::string::npos) { f.push_back(line.substr(b)); b = line.size(); for (; k < 3; ++k) f.push_back(""); break; } f.push_back(line.substr(b, e - b)); b = e + 1; }
	if (b <= line.size()) c.str = line.substr(b);
	std::istringstream h(f[0]); h >> c.op >> c.f; int i; while (h >> i) c.s.push_back(i);
	std::istringstream n(f[1]); while (n >> i) c.n.push_back(i);
	std::istringstream x(f[2]); std::string t;
	while (x >> t)
	{
		if (t[0] == '#') { uint32_t u = (uint32_t)std::stoul(t.substr(1), nullptr, 16); float v; std::memcpy(&v, &u, 4); c.p.push_back(v); }
		else c.p.push_back(std::strtof(t.c_str(), nullptr));
	}
	if (!f[3].empty()) c.str = f[3] + (c.str.empty() ? "" : "|" + c.str);
	return c;
}

static const char* attempt(const cmd& c)
{
	try { run(c); return "none"; }
	catch (skipped) { return "skip"; }
	catch (std::invalid_argument*) { return "invalid"; }
	catch (const std::invalid_argument&) { return "invalid"; }
	catch (std::out_of_range*) { return "range"; }
	catch (const std::out_of_range&) { return "range"; }
	catch (const std::runtime_error& e) { if (std::strncmp(e.what(), "driver:", 7) == 0) { std::cerr << e.what() << "\n"; std::exit(3); } return "other"; }
	catch (std::exception*) { return "other"; }
	catch (const std::exception&) { return "other"; }
	catch (...) { return "unknown"; }
}

extern "C" const char* __asan_default_options() { return "detect_leaks=0"; }

int main(int argc, char** argv)
{
	if (argc < 3) return 2;
	std::ifstream in(argv[1]);
	FILE* o = std::fopen(argv[2], "w");
	if (!in || !o) return 2;
	std::string line; int n = 0;
	while (std::getline(in, line))
	{
		if (line.empty()) continue;
		cmd c = parse(line);
		res.clear(); fres.clear(); outs.clear(); inv.clear(); dinv.clear(); winv.clear(); ginv.clear(); minv.clear(); newdefs.clear();
		std::vector<std::string> before;
		alarm(20);   // a call that does not return ends the history
		const char* err = attempt(c);
		alarm(0);
		for (int s : outs) inv.push_back(s);
		std::vector<int> uniq; std::string post = "[";
		for (int s : inv) { bool dup = false; for (int u : uniq) dup = dup || u == s; if (dup || !slot[s]) continue; uniq.push_back(s); if (post.size() > 1) post += ","; post += objson(s); }
		post += "]";
		for (int d : newdefs) dinv.push_back(d);
		std::ostringstream w;
		w << "{\"n\":" << ++n << ",\"op\":" << js(c.op) << ",\"f\":" << js(c.f) << ",\"s\":" << arr(c.s, [](int x) { return x; }) << ",\"k\":" << arr(c.n, [](int x) { return x; })
			<< ",\"p\":" << (c.op == "mf" || c.op == "md" ? arr(c.p, [](float x) { return microz(x); }) : micros(c.p)) << ",\"pb\":" << bitss(c.p) << ",\"err\":\"" << err << "\",\"r\":" << arr(res, [](long x) { return x; })
			<< ",\"fr\":" << micros(fres) << ",\"fm\":" << arr(fres, [](float x) { return micro(x / 1000.0); }) << ",\"fb\":" << bitss(fres) << ",\"out\":" << arr(outs, [](int x) { return x; }) << ",\"post\":" << post;
		auto uq = [](std::vector<int>& v) { std::vector<int> r; for (int x : v) if (std::find(r.begin(), r.end(), x) == r.end() && x) r.push_back(x); v = r; };
		uq(dinv); uq(winv); uq(ginv); uq(minv);
		w << ",\"nd\":" << arr(newdefs, [](int x) { return x; });
		w << ",\"defs\":" << arr(dinv, [](int d) { return defjson(d); });
		w << ",\"wps\":" << arr(winv, [](int d) { return wpjson(d); });
		w << ",\"gms\":" << arr(ginv, [](int d) { return gmjson(d); });
		w << ",\"mats\":" << arr(minv, [](int s) { return mkind.count(s) ? matjson(s) : std::string("{\"s\":0}"); });
		if (c.op == "hexs") { std::vector<int> ch; for (unsigned char x : c.str) ch.push_back(x); w << ",\"ch\":" << arr(ch, [](int x) { return x; }); }
		w << "}\n";
		std::fputs(w.str().c_str(), o);
		std::fflush(o);
	}
	std::fclose(o);
	return 0;
}
