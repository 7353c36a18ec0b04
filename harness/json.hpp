// minimal JSON reader (subset produced by TLC's ToJson) + term interpreter
#pragma once
#include <cctype>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

struct J
{
	enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL;
	bool b = false;
	double n = 0;
	std::string s;
	std::vector<J> a;
	std::map<std::string, J> o;
	const J& operator [] (const char* key) const
	{
		auto it = o.find(key);
		if (it == o.end()) throw std::runtime_error(std::string("harness: missing key ") + key);
		return it->second;
	}
	const J& operator [] (size_t i) const
	{
		if (k != ARR || i >= a.size()) throw std::runtime_error("harness: bad index");
		return a[i];
	}
	const J& operator [] (int i) const { return (*this)[(size_t) i]; }
	bool has (const char* key) const { return o.find(key) != o.end(); }
	// TLC prints the empty sequence and empty set as []; an empty function as {}
	size_t size (void) const { return k == ARR ? a.size() : o.size(); }
	long i (void) const { if (k != NUM) throw std::runtime_error("harness: not a number"); return (long) n; }
	const std::string& str (void) const { if (k != STR) throw std::runtime_error("harness: not a string"); return s; }
	bool t (void) const { return k == BOOL ? b : (k == NUM && n != 0); }
	std::vector<size_t> sizes (void) const
	{
		std::vector<size_t> r;
		for (const J& x : a) r.push_back((size_t) x.i());
		return r;
	}
};

struct JParse
{
	const char* p;
	explicit JParse (const char* q) : p(q) {}
	void ws (void) { while (*p && isspace((unsigned char) *p)) p++; }
	[[noreturn]] void bad (void) { throw std::runtime_error(std::string("harness: bad json near ") + std::string(p).substr(0, 40)); }
	J val (void)
	{
		ws();
		J r;
		if (*p == '{')
		{
			r.k = J::OBJ; p++; ws();
			if (*p == '}') { p++; return r; }
			while (true)
			{
				ws(); J key = val(); if (key.k != J::STR) bad();
				ws(); if (*p++ != ':') bad();
				r.o[key.s] = val();
				ws();
				if (*p == ',') { p++; continue; }
				if (*p == '}') { p++; return r; }
				bad();
			}
		}
		if (*p == '[')
		{
			r.k = J::ARR; p++; ws();
			if (*p == ']') { p++; return r; }
			while (true)
			{
				r.a.push_back(val());
				ws();
				if (*p == ',') { p++; continue; }
				if (*p == ']') { p++; return r; }
				bad();
			}
		}
		if (*p == '"')
		{
			r.k = J::STR; p++;
			while (*p && *p != '"') { if (*p == '\\') p++; r.s += *p++; }
			if (*p++ != '"') bad();
			return r;
		}
		if (!strncmp(p, "true", 4)) { p += 4; r.k = J::BOOL; r.b = true; return r; }
		if (!strncmp(p, "false", 5)) { p += 5; r.k = J::BOOL; return r; }
		if (!strncmp(p, "null", 4)) { p += 4; return r; }
		char* e; r.n = strtod(p, &e); if (e == p) bad(); p = e; r.k = J::NUM; return r;
	}
};
inline J jparse (const std::string& s) { JParse p(s.c_str()); return p.val(); }

// a specification scalar over doubles: value, error bound; unk = nothing is claimed
struct SV { double v; double e; bool unk; };
inline SV sv_unk (void) { return {0, 0, true}; }
const double SV_EPS = 4e-16;
inline SV sv_mk (double v, double e)
{
	if (!std::isfinite(v) || !std::isfinite(e)) return sv_unk();
	return {v, e + SV_EPS * std::fabs(v), false};
}
template <typename F> SV sv_f1 (F f, SV x)
{
	double v = f(x.v), a = f(x.v - x.e), b = f(x.v + x.e);
	if (!std::isfinite(v) || !std::isfinite(a) || !std::isfinite(b)) return sv_unk();
	return sv_mk(v, 2 * std::max(std::fabs(a - v), std::fabs(b - v)));
}
inline SV sv_div (SV a, SV b)
{
	if (std::fabs(b.v) <= 4 * b.e || b.v == 0) return sv_unk();
	return sv_mk(a.v / b.v, 2 * (a.e / std::fabs(b.v) + std::fabs(a.v) * b.e / (b.v * b.v)));
}
inline SV sv_cmp (const std::string& f, SV a, SV b)
{
	bool exact = a.e == 0 && b.e == 0;
	if (!exact && std::fabs(a.v - b.v) <= 1e-9 + 4 * (a.e + b.e)) return sv_unk();
	bool r = f == "lt" ? a.v < b.v : f == "gt" ? a.v > b.v : f == "le" ? a.v <= b.v :
		f == "eq" ? a.v == b.v : a.v != b.v;
	return {r ? 1.0 : 0.0, 0, false};
}
inline SV sv (const J& t)
{
	if (t.k == J::NUM) return {t.n, 0, false};
	if (t.k == J::STR) return sv_unk(); // "x": unspecified
	if (t.k == J::ARR) return {t[0].n / t[1].n, 0, false}; // dyadic, exact
	const std::string& f = t["f"].str();
	const J& a = t["a"];
	if (f == "clipn")
	{
		SV x = sv(a[0]), l = sv(a[1]["a"][0]), c = sv(a[1]["a"][1]);
		if (x.unk || l.unk) return sv_unk();
		if (std::fabs(l.v - c.v) <= 1e-9 + 4 * l.e) return sv_mk(x.v, x.e + 1e-6 * std::fabs(x.v));
		if (l.v < c.v) return x;
		return sv_div(sv_mk(x.v * c.v, x.e * std::fabs(c.v)), l);
	}
	SV x = sv(a[0]);
	SV y = a.size() > 1 ? sv(a[1]) : SV{0, 0, false};
	if (x.unk || y.unk) return sv_unk();
	if (f == "neg") return {-x.v, x.e, false};
	if (f == "add") return sv_mk(x.v + y.v, x.e + y.e);
	if (f == "sub") return sv_mk(x.v - y.v, x.e + y.e);
	if (f == "mul") return sv_mk(x.v * y.v, 2 * (std::fabs(x.v) * y.e + std::fabs(y.v) * x.e));
	if (f == "div") return sv_div(x, y);
	if (f == "pow") return sv_f1([&](double z) { return std::pow(z, y.v); }, x);
	if (f == "max" || f == "min")
	{
		double v = f == "max" ? std::max(x.v, y.v) : std::min(x.v, y.v);
		return {v, std::max(x.e, y.e), false};
	}
	if (f == "lt" || f == "gt" || f == "le" || f == "eq" || f == "neq") return sv_cmp(f, x, y);
	if (f == "round")
	{
		double fr = x.v - std::floor(x.v);
		if (x.e == 0) return {std::round(x.v), 0, false};
		if (std::fabs(fr - 0.5) <= 1e-9 + 4 * x.e) return sv_unk();
		return {std::round(x.v), 0, false};
	}
	if (f == "sin") return sv_f1([](double z) { return std::sin(z); }, x);
	if (f == "cos") return sv_f1([](double z) { return std::cos(z); }, x);
	if (f == "tan")
	{
		if (std::fabs(std::cos(x.v)) < 1e-6) return sv_unk();
		return sv_f1([](double z) { return std::tan(z); }, x);
	}
	if (f == "exp") return sv_f1([](double z) { return std::exp(z); }, x);
	if (f == "sqrt") return sv_f1([](double z) { return std::sqrt(z); }, x);
	if (f == "log") return sv_f1([](double z) { return std::log(z); }, x);
	if (f == "tanh") return sv_f1([](double z) { return std::tanh(z); }, x);
	if (f == "sigmoid") return sv_f1([](double z) { return 1 / (1 + std::exp(-z)); }, x);
	throw std::runtime_error("harness: unknown primitive " + f);
}
// does the implementation's value agree with the specification's?
inline bool sv_agree (const J& want, double got)
{
	SV w = sv(want);
	if (w.unk || std::fabs(w.v) > 1e12) return true;
	double tol = 8 * w.e + 1e-9 * (1 + std::fabs(w.v));
	if (tol > 1e-3 * (1 + std::fabs(w.v))) return true; // ill conditioned: nothing claimed
	return std::isfinite(got) && std::fabs(got - w.v) <= tol;
}
inline std::string sv_show (const J& want)
{
	SV w = sv(want);
	char b[64];
	if (w.unk) return "?";
	snprintf(b, sizeof b, "%.10g", w.v);
	return b;
}
