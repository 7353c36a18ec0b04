// Replays behaviours of spec/Large.tla: products of large matrices.
#pragma GCC optimize ("O2")
#include "graph/operations/operations.hpp"
#include "graph/leaf/placeholder.hpp"
#include "replay.hpp"
#include <memory>

using namespace nnet;
typedef std::vector<size_t> L;
typedef std::vector<double> D;

struct F { long f[6]; F (const J& j) { for (int k = 0; k < 6; k++) f[k] = j[k].i(); } double operator () (long r, long c, long m) const { return (f[0] + f[1] * r + f[2] * c + f[3] * r * c + 5 * m) % f[4] - f[5]; } };

// contents of a factor of R rows and C columns, kept transposed or not
static D fill (const F& f, long R, long C, long B, bool t)
{
	D d(R * C * B);
	for (long m = 0; m < B; m++) for (long r = 0; r < R; r++) for (long c = 0; c < C; c++)
		d[m * R * C + (t ? c * R + r : r * C + c)] = f(r, c, m);
	return d;
}

static void play (const J& b, Ctx& c)
{
	const J& s = b["sh"];
	long Y = s["y"].i(), Z = s["z"].i(), X = s["x"].i(), B = s["b"].i();
	bool ta = s["ta"].t(), tb = s["tb"].t();
	auto shape = [&] (long R, long C, bool t) { L l = t ? L{(size_t) R, (size_t) C} : L{(size_t) C, (size_t) R}; if (B > 1) l.push_back(B); return l; };
	placeholder<double> pa(shape(Y, Z, ta), "a"), pb(shape(Z, X, tb), "b");
	varptr<double> p = matmul<double>(varptr<double>(&pa), varptr<double>(&pb), ta, tb);
	const J& ev = b["ev"];
	for (size_t n = 0; n < ev.size(); n++)
	{
		c.mark((int) n);
		const J& e = ev[n];
		F f(e["fa"]), g(e["fb"]);
		D va = fill(f, Y, Z, B, ta), vb = fill(g, Z, X, B, tb);
		if (n == 0 || std::memcmp(F(ev[n - 1]["fa"]).f, f.f, sizeof f.f)) pa = va;
		if (n == 0 || std::memcmp(F(ev[n - 1]["fb"]).f, g.f, sizeof g.f)) pb = vb;
		D got = expose<double>(p);
		L want = {(size_t) X, (size_t) Y};
		if (B > 1) want.push_back(B);
		REQUIRE(p->get_shape().as_list() == want && (long) got.size() == X * Y * B, "the product has another shape");
		for (const J& v : e["v"].a)
		{
			double x = got[(v["m"].i() * Y + v["r"].i()) * X + v["c"].i()];
			REQUIRE(x == v["v"].i(), "element at row " << v["r"].i() << ", column " << v["c"].i() << " of a product of " << Y << " by " << Z << " by " << X << " is " << x << ", expected " << v["v"].i());
			c.checks++;
		}
		// and everywhere else
		D row(X);
		for (long m = 0; m < B; m++) for (long r = 0; r < Y; r++)
		{
			std::fill(row.begin(), row.end(), 0);
			for (long z = 0; z < Z; z++) { double a = f(r, z, m); if (a != 0) for (long x = 0; x < X; x++) row[x] += a * (tb ? vb[m * Z * X + x * Z + z] : vb[m * Z * X + z * X + x]); }
			for (long x = 0; x < X; x++) REQUIRE(got[(m * Y + r) * X + x] == row[x], "element at row " << r << ", column " << x << " of a product of " << Y << " by " << Z << " by " << X << " is " << got[(m * Y + r) * X + x] << ", expected " << row[x]);
			c.checks += X;
		}
	}
	c.mark((int) ev.size());
}

int main (int argc, char** argv) { return replay_main(argc, argv, play, 120, 4); }
