// Replays behaviours of spec/Nets.tla against layers, models and networks.
// Everything is observed through public interfaces: models list their
// variables, networks are saved to a scratch file and read back.
#include "graph/operations/operations.hpp"
#include "models/db_net.hpp"
#include "models/dq_net.hpp"
#include "models/gd_net.hpp"
#include "layers/conv_layer.hpp"
#include "replay.hpp"
#include <cmath>
#include <dirent.h>
#include <sys/stat.h>
#include <memory>

using namespace nnet;
using namespace rocnnet;
typedef std::vector<double> D;
typedef varptr<double> V;
typedef std::vector<size_t> L;

namespace fs
{
	static void remove (const std::string& f) { unlink(f.c_str()); }
	static bool exists (const std::string& f) { struct stat s; return stat(f.c_str(), &s) == 0; }
	static long file_size (const std::string& f) { struct stat s; return stat(f.c_str(), &s) == 0 ? (long) s.st_size : -1; }
	static void create_directory (const std::string& d) { if (mkdir(d.c_str(), 0700)) throw std::runtime_error("harness: cannot create " + d); }
	static void resize_file (const std::string& f, long n) { if (truncate(f.c_str(), n)) throw std::runtime_error("harness: cannot cut " + f); }
	// files of one directory of our own, and that directory
	static void clear (const std::string& d)
	{
		if (d.compare(0, 15, "/tmp/verif_net_")) return;
		if (DIR* h = opendir(d.c_str()))
		{
			while (dirent* e = readdir(h))
			{
				std::string n = e->d_name;
				if (n == "." || n == "..") continue;
				if (e->d_type == DT_DIR) clear(d + "/" + n); else remove(d + "/" + n);
			}
			closedir(h);
		}
		rmdir(d.c_str());
	}
}

static std::string scratch;
static bool close_to (double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::abs(a - b) <= 1e-8 * std::max(1.0, std::max(std::abs(a), std::abs(b))); }
static bool close_to (const D& a, const D& b)
{
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); i++) if (!close_to(a[i], b[i])) return false;
	return true;
}
static std::string lst (const D& s) { std::stringstream o; o.precision(12); o << "["; for (double x : s) o << x << " "; o << "]"; return o.str(); }
static std::string lst (const L& s) { std::stringstream o; o << "["; for (size_t x : s) o << x << " "; o << "]"; return o.str(); }
static double ratio (const J& p) { return (double) p[0].i() / (double) p[1].i(); }
static D quarters (const J& v) { D r; for (const J& x : v.a) r.push_back(x.i() / 4.0); return r; }

struct Mat
{
	size_t r = 0, c = 0; D d;
	Mat (void) {}
	Mat (size_t r, size_t c) : r(r), c(c), d(r * c, 0) {}
	double& at (size_t i, size_t j) { return d[i * c + j]; }
	double at (size_t i, size_t j) const { return d[i * c + j]; }
};

static double act (const std::string& f, double x) { return f == "sig" ? 1 / (1 + std::exp(-x)) : f == "tanh" ? std::tanh(x) : x; }
static double dact (const std::string& f, double y) { return f == "sig" ? y * (1 - y) : f == "tanh" ? 1 - y * y : 1; }

template <typename F> static Mat map2 (const Mat& a, const Mat& b, F f)
{
	if (a.d.size() != b.d.size()) throw std::runtime_error("harness: operands differ");
	Mat m(a.r, a.c);
	for (size_t i = 0; i < m.d.size(); i++) m.d[i] = f(a.d[i], b.d[i]);
	return m;
}

static Mat prim (const std::string& o, const std::vector<const Mat*>& a, const J& p)
{
	const Mat& x = *a[0];
	if (o == "mm") { const Mat& w = *a[1]; Mat m(x.r, w.c); if (x.c != w.r) throw std::runtime_error("harness: mm");
		for (size_t i = 0; i < m.r; i++) for (size_t j = 0; j < m.c; j++) for (size_t k = 0; k < x.c; k++) m.at(i, j) += x.at(i, k) * w.at(k, j); return m; }
	if (o == "mmt") { const Mat& w = *a[1]; Mat m(x.r, w.r); if (x.c != w.c) throw std::runtime_error("harness: mmt");
		for (size_t i = 0; i < m.r; i++) for (size_t j = 0; j < m.c; j++) for (size_t k = 0; k < x.c; k++) m.at(i, j) += x.at(i, k) * w.at(j, k); return m; }
	if (o == "tmm") { const Mat& w = *a[1]; Mat m(x.c, w.c); if (x.r != w.r) throw std::runtime_error("harness: tmm");
		for (size_t i = 0; i < m.r; i++) for (size_t j = 0; j < m.c; j++) for (size_t k = 0; k < x.r; k++) m.at(i, j) += x.at(k, i) * w.at(k, j); return m; }
	if (o == "addrow") { Mat m = x; for (size_t i = 0; i < m.r; i++) for (size_t j = 0; j < m.c; j++) m.at(i, j) += a[1]->d.at(j); return m; }
	if (o == "colsum") { Mat m(1, x.c); for (size_t i = 0; i < x.r; i++) for (size_t j = 0; j < x.c; j++) m.d[j] += x.at(i, j); return m; }
	if (o == "rowsum") { Mat m(x.r, 1); for (size_t i = 0; i < x.r; i++) for (size_t j = 0; j < x.c; j++) m.d[i] += x.at(i, j); return m; }
	if (o == "rowmax") { Mat m(x.r, 1); for (size_t i = 0; i < x.r; i++) { m.d[i] = x.at(i, 0); for (size_t j = 1; j < x.c; j++) m.d[i] = std::max(m.d[i], x.at(i, j)); } return m; }
	if (o == "rowscale") { Mat m = x; for (size_t i = 0; i < m.r; i++) for (size_t j = 0; j < m.c; j++) m.at(i, j) *= a[1]->d.at(i); return m; }
	if (o == "act") { Mat m = x; for (double& e : m.d) e = act(p.str(), e); return m; }
	if (o == "dact") return map2(x, *a[1], [&] (double y, double g) { return dact(p.str(), y) * g; });
	if (o == "mul") return map2(x, *a[1], [] (double u, double v) { return u * v; });
	if (o == "axpy") { double s = ratio(p); return map2(x, *a[1], [s] (double u, double v) { return u + s * v; }); }
	if (o == "scale") { Mat m = x; for (double& e : m.d) e *= ratio(p); return m; }
	if (o == "ones") { Mat m = x; for (double& e : m.d) e = 1; return m; }
	if (o == "rmsm") { double d = ratio(p); return map2(x, *a[1], [d] (double m, double g) { return d * m + (1 - d) * g * g; }); }
	if (o == "rmsw")
	{
		double lr = ratio(p);
		Mat m = x;
		for (size_t i = 0; i < m.d.size(); i++) m.d[i] -= lr * a[1]->d.at(i) / (std::sqrt(a[2]->d.at(i)) + std::numeric_limits<double>::epsilon());
		return m;
	}
	if (o == "clipn") { double n = 0, cap = ratio(p); for (double e : x.d) n += e * e; n = std::sqrt(n); Mat m = x; if (n > cap) for (double& e : m.d) e *= cap / n; return m; }
	if (o == "msq") { Mat m(1, 1); for (double e : x.d) m.d[0] += e * e / x.d.size(); return m; }
	if (o == "softmax") { Mat m = x; for (size_t i = 0; i < m.r; i++) { double t = 0; for (size_t j = 0; j < m.c; j++) t += m.at(i, j) = std::exp(m.at(i, j)); for (size_t j = 0; j < m.c; j++) m.at(i, j) /= t; } return m; }
	throw std::runtime_error("harness: definition " + o);
}

typedef std::pair<L, D> Cont; // shape and contents; contents empty: none yet

static Cont contents (variable<double>* v)
{
	REQUIRE(v, "a variable is missing");
	Cont c; c.first = v->get_shape().as_list();
	const tensor<double>* t = v->eval();
	if (v->good_status()) { REQUIRE(t && t->is_alloc(), "an initialised variable has no contents"); c.second = t->expose(); }
	else REQUIRE(!t, "a variable has contents before it was given any");
	return c;
}

static bool parse (const std::string& f, std::map<std::string, Cont>& out)
{
	std::ifstream in(f, std::ios::binary);
	tenncor::repository repo;
	if (!in || !repo.ParseFromIstream(&in)) return false;
	for (auto& p : repo.node_map())
	{
		tensor<double> t(L{1});
		tensor<double> u;
		REQUIRE(u.from_proto(p.second) && u.is_alloc(), "saved entry " << p.first << " does not describe a tensor");
		out[p.first] = {u.get_shape().as_list(), u.expose()};
	}
	return true;
}

static VAR_FUNC fun (const std::string& f)
{
	if (f == "sig") return nnet::sigmoid<double>;
	if (f == "tanh") return nnet::tanh<double>;
	return [] (inode<double>* n) { return V(n); };
}

struct Model
{
	std::string k;
	std::unique_ptr<ilayer> lay;
	std::unique_ptr<gd_net> gd;
	std::unique_ptr<dq_net> dq;
	template <typename T> T* as (void) { T* t = dynamic_cast<T*>(lay.get()); if (!t) throw std::runtime_error("harness: model of another kind"); return t; }
	icompound* comp (void) { return as<icompound>(); }
	bool save (std::string f, std::string sc) { return gd ? gd->save(f, sc) : dq ? dq->save(f, sc) : comp()->save(f, sc); }
	void init (std::string f, std::string sc) { if (gd) gd->initialize(f, sc); else if (dq) dq->initialize(f, sc); else comp()->initialize(f, sc); }
	// contents of the variables (grp 1: of the target network)
	std::vector<Cont> look (size_t n, int grp, const std::string& dir)
	{
		std::vector<Cont> r;
		if (lay) { for (variable<double>* v : lay->get_variables()) r.push_back(contents(v)); return r; }
		std::string f = dir + "/look";
		fs::remove(f);
		REQUIRE(save(f, "q"), "a network cannot be saved");
		std::map<std::string, Cont> m;
		REQUIRE(parse(f, m), "a saved network cannot be read");
		fs::remove(f);
		for (size_t i = 0; i < n; i++)
		{
			auto it = m.find((grp ? "target_q:" : "q:") + std::to_string(i));
			if (it == m.end()) r.push_back(Cont()); else { r.push_back(it->second); m.erase(it); }
		}
		for (auto& p : m) REQUIRE(p.first.compare(0, 7, "target_") == 0 ? !grp : grp, "unexpected entry " << p.first << " of a saved network");
		return r;
	}
};

struct Kept
{
	V node;
	std::vector<std::unique_ptr<placeholder<double> > > in;
	std::vector<variable_updater<double> > steps;
	std::unique_ptr<variable<double> > chain;
};

struct World
{
	std::map<long, Kept> out;
	std::map<long, Model> m;
	std::map<long, std::vector<L> > dims;
	std::vector<Mat> val = std::vector<Mat>(1);
	std::vector<D> drawn;
	std::vector<D> slope; // derivatives of a cost with respect to each variable
	Mat ends; // of a chain: chosen by whoever explains a training step
	std::map<long, std::string> file;
	std::string dir;
	~World (void) { fs::clear(dir); }
	const Mat& v (long i) { if (i < 1 || i >= (long) val.size()) throw std::runtime_error("harness: no such value"); return val[i]; }
	std::string path (long f)
	{
		if (f == 0) return "";
		if (!file.count(f)) file[f] = dir + "/f" + std::to_string(f);
		return file[f];
	}
};

// how likely every visible (hidden: from) state ends a chain of k samplings,
// from one row of a machine's visible (from: hidden) units; states are numbered
static D sampled (const D& p)
{
	D r(1, 1);
	for (size_t j = 0; j < p.size(); j++)
	{
		size_t n = r.size();
		for (size_t i = 0; i < n; i++) { r.push_back(r[i] * p[j]); r[i] *= 1 - p[j]; }
	}
	return r;
}
static D bits (size_t s, size_t n) { D r; for (size_t j = 0; j < n; j++) r.push_back((s >> j) & 1); return r; }
static D above (const D& v, const Mat& W, const Mat& hb) { D p = hb.d; for (size_t j = 0; j < p.size(); j++) { for (size_t i = 0; i < v.size(); i++) p[j] += v[i] * W.at(i, j); p[j] = act("sig", p[j]); } return p; }
static D below (const D& h, const Mat& W, const Mat& vb) { D p = vb.d; for (size_t i = 0; i < p.size(); i++) { for (size_t j = 0; j < h.size(); j++) p[i] += h[j] * W.at(i, j); p[i] = act("sig", p[i]); } return p; }
static D ends (const D& row, bool hidden, const Mat& W, const Mat& hb, const Mat& vb, size_t k)
{
	size_t m = hb.d.size(), n = vb.d.size();
	D H, Vs;
	if (hidden) { H.assign((size_t) 1 << m, 0); size_t s = 0; for (size_t j = 0; j < m; j++) s |= (size_t) (row[j] > 0.5) << j; H[s] = 1; }
	else H = sampled(above(row, W, hb));
	for (size_t it = 0; it < k; it++)
	{
		if (it)
		{
			H.assign(H.size(), 0);
			for (size_t v = 0; v < Vs.size(); v++) { D q = sampled(above(bits(v, n), W, hb)); for (size_t h = 0; h < H.size(); h++) H[h] += Vs[v] * q[h]; }
		}
		Vs.assign((size_t) 1 << n, 0);
		for (size_t h = 0; h < H.size(); h++) { D q = sampled(below(bits(h, m), W, vb)); for (size_t v = 0; v < Vs.size(); v++) Vs[v] += H[h] * q[v]; }
	}
	return Vs;
}

static void define (World& w, const J& d, const std::map<std::string, Mat>& rows)
{
	const std::string& o = d["o"].str();
	const J& p = d["p"];
	Mat m;
	if (o == "lit") { m = Mat(p["r"].i(), p["c"].i()); m.d = quarters(p["d"]); }
	else if (o == "row") m = rows.at(p.str());
	else if (o == "chain") m = w.ends;
	else if (o == "tuned")
	{
		m = w.v(d["a"][0].i());
		const D& g = w.slope.at(p["n"].i() - 1);
		if (g.size() != 1 && g.size() != m.d.size()) throw std::runtime_error("harness: derivative");
		for (size_t k = 0; k < m.d.size(); k++) m.d[k] -= ratio(p["r"]) * g[g.size() == 1 ? 0 : k];
	}
	else if (o == "bits")
	{
		Cont c = contents(w.out[d["a"][0].i()].chain.get());
		m = Mat(c.first[1], c.first[0]);
		m.d = c.second;
		for (double x : m.d) REQUIRE(x == 0 || x == 1, "a persistent chain is left at " << lst(m.d));
	}
	else if (o == "read")
	{
		long i = d["a"][0].i(), g = d["a"][1].i(), n = d["a"][2].i();
		std::vector<Cont> c = w.m[i].look(w.dims[i].size(), g, w.dir);
		REQUIRE((long) c.size() >= n && !c[n - 1].second.empty(), "variable " << n << " of model " << i << " is not initialised");
		L s = p["s"].sizes();
		REQUIRE(c[n - 1].first == s, "variable " << n << " of model " << i << " has shape " << lst(c[n - 1].first) << ", expected " << lst(s));
		m = Mat(c[n - 1].second.size() / s[0], s[0]);
		m.d = c[n - 1].second;
		double lim = std::sqrt(ratio(p["b"]));
		for (double x : m.d) REQUIRE(std::abs(x) <= lim + 1e-12, "variable " << n << " of model " << i << " is initialised with " << x << ", outside of " << lim);
		if (lim > 0 && m.d.size() > 1)
		{
			for (const D& o : w.drawn) REQUIRE(o != m.d, "variable " << n << " of model " << i << " is given the numbers drawn before");
			for (size_t k = 1; k < m.d.size(); k++) REQUIRE(m.d[k] != m.d[k - 1], "elements of variable " << n << " of model " << i << " are not drawn one by one");
			w.drawn.push_back(m.d);
		}
	}
	else
	{
		std::vector<const Mat*> a;
		for (const J& x : d["a"].a) a.push_back(&w.v(x.i()));
		m = prim(o, a, p);
	}
	w.val.push_back(m);
}

// the difference between a group of variables and what is expected; "": none
static std::string differ (World& w, long i, const J& ids, int grp, Ctx& c)
{
	if (ids.size() == 0) return "";
	std::vector<Cont> got = w.m[i].look(ids.size(), grp, w.dir);
	std::string who = (grp ? "target variable " : "variable ");
	if (got.size() != ids.size()) return "model " + std::to_string(i) + " has " + std::to_string(got.size()) + " variables, expected " + std::to_string(ids.size());
	for (size_t n = 0; n < ids.size(); n++)
	{
		std::string what = who + std::to_string(n + 1) + " of model " + std::to_string(i);
		c.checks++;
		if (ids[n].i() == 0) { if (!got[n].second.empty()) return what + " has contents before it was given any"; continue; }
		if (got[n].second.empty()) return what + " has no contents";
		if (w.dims.count(i) && got[n].first != w.dims[i].at(n)) return what + " has shape " + lst(got[n].first) + ", expected " + lst(w.dims[i][n]);
		const Mat& m = w.v(ids[n].i());
		if (!close_to(got[n].second, m.d)) return what + " is " + lst(got[n].second) + ", expected " + lst(m.d);
	}
	return "";
}

static void observe (World& w, const J& st, Ctx& c)
{
	for (size_t k = 0; k < st.size(); k++)
	{
		long i = (long) k + 1;
		const std::string& kind = st[k]["k"].str();
		if (kind.empty() || kind == "husk") continue;
		std::string e = differ(w, i, st[k]["w"], 0, c);
		if (e.empty()) e = differ(w, i, st[k]["t"], 1, c);
		REQUIRE(e.empty(), e);
	}
}

static void answer (const D& got, const Mat& m, const std::string& what, Ctx& c)
{
	REQUIRE(close_to(got, m.d), what << " is " << lst(got) << ", expected " << lst(m.d));
	c.checks++;
}

static void play (const J& b, Ctx& c)
{
	static long count = 0;
	nnutils::seed_generator(4711);
	srand(4711);
	World w;
	w.dir = scratch + "/" + std::to_string(getpid()) + "_" + std::to_string(count++);
	fs::create_directory(w.dir);
	const J& ev = b["ev"];
	for (size_t n = 0; n < ev.size(); n++)
	{
		c.mark((int) n);
		const J& e = ev[n];
		const std::string& a = e["a"].str();
		long i = e["m"].i();
		Model& M = w.m[i];
		const J& def = e["def"];
		size_t done = 0;
		std::map<std::string, Mat> rows;
		// what goes in is known beforehand
		while (done < def.size() && def[done]["o"].str() == "lit") define(w, def[done++], rows);
		size_t base = w.val.size();
		std::string name = "model " + std::to_string(i);
		if (a == "new")
		{
			const std::string& k = e["k"].str();
			std::string sc = e["sc"].str();
			size_t nin = e["n"].i();
			const J& l = e["l"];
			size_t o = l[0]["o"].i();
			M = Model(); M.k = k;
			if (k == "mlp") { std::vector<IN_PAIR> h; for (const J& x : l.a) h.push_back(IN_PAIR(x["o"].i(), fun(x["f"].str()))); M.lay.reset(new mlp(nin, h, sc)); }
			else if (k == "rbm") M.lay.reset(new rbm(nin, o, sc));
			else if (k == "db") { L h; for (const J& x : l.a) h.push_back(x["o"].i()); M.lay.reset(new db_net(nin, h, sc)); }
			else if (k == "fc") M.lay.reset(new fc_layer({nin, (size_t) l[l.size() - 1]["o"].i()}, o, sc));
			else M.lay.reset(new conv_layer({o, nin}, 1, 2, sc));
			w.dims[i].clear();
			for (const J& d : e["dims"].a) w.dims[i].push_back(d.sizes());
			std::vector<variable<double>*> vs = M.lay->get_variables();
			REQUIRE(vs.size() == w.dims[i].size(), name << " has " << vs.size() << " variables, expected " << w.dims[i].size());
			for (size_t q = 0; q < vs.size(); q++) REQUIRE(vs[q]->get_shape().as_list() == w.dims[i][q], "variable " << q + 1 << " of " << name << " has shape " << lst(vs[q]->get_shape().as_list()) << ", expected " << lst(w.dims[i][q]));
			c.checks++;
		}
		else if (a == "newgd" || a == "newdq")
		{
			long j = e["j"].i();
			const J& u = e["u"];
			std::unique_ptr<gd_updater> up;
			if (u["k"].str() == "vgb") up.reset(new vgb_updater(ratio(u["r"])));
			else up.reset(new rmspropupdater(ratio(u["r"]), ratio(u["d"])));
			M = Model(); M.k = a.substr(3);
			Model& from = w.m[j];
			mlp* brain = from.as<mlp>();
			from.lay.release();
			if (a == "newgd")
			{
				std::vector<variable<double>*> vs = brain->get_variables();
				// what is set aside and taken back is trained
				up->ignore_subtree(vs.back());
				up->clear_ignore();
				for (const J& x : e["ig"].a) up->ignore_subtree(vs[x.i() - 1]);
				M.gd.reset(new gd_net(brain, *up, e["sc"].str()));
			}
			else
			{
				const J& p = e["p"];
				dqn_param q;
				q.train_interval_ = p["ti"].i(); q.rand_action_prob_ = ratio(p["rp"]); q.discount_rate_ = ratio(p["dr"]);
				q.target_update_rate_ = ratio(p["tr"]); q.exploration_period_ = p["ep"].i(); q.store_interval_ = p["si"].i();
				q.mini_batch_size_ = p["mb"].i(); q.max_exp_ = p["mx"].i();
				M.dq.reset(new dq_net(brain, *up, q, e["sc"].str()));
			}
			up->set_learning_rate(1000); // the network has its own
			w.dims[i] = w.dims[j];
		}
		else if (a == "init") M.init(w.path(e["f"].i()), e["sc"].str());
		else if (a == "save")
		{
			std::string f = w.path(e["f"].i());
			bool ok = M.save(f, e["sc"].str());
			REQUIRE(ok == e["ok"].t(), "saving " << name << (ok ? " succeeds where it cannot" : " fails"));
			c.checks++;
		}
		else if (a == "harm")
		{
			long f = e["f"].i();
			std::string p = w.path(f);
			const std::string& h = e["h"].str();
			if (h == "rm") fs::remove(p);
			else if (h == "gone") w.file[f] = w.dir + "/nowhere/f" + std::to_string(f);
			else if (h == "cut") fs::resize_file(p, fs::file_size(p) - 1);
			else { std::ofstream o(p, std::ios::binary | std::ios::trunc); if (h == "junk") o << "\xff\xff\xff\xff"; }
		}
		else if (a == "setw")
		{
			variable<double>* v = M.lay->get_variables().at(e["n"].i() - 1);
			if (!v->good_status()) v->initialize();
			V k = constant<double>::get(w.v(e["v"].i()).d, tensorshape(e["s"].sizes()));
			v->assign(k.get())(true);
		}
		else if (a == "out")
		{
			Kept kp;
			std::vector<inode<double>*> in;
			for (const J& x : e["x"].a)
			{
				const Mat& m = w.v(x.i());
				placeholder<double>* p = new placeholder<double>(L{m.c, m.r}, "in");
				kp.in.emplace_back(p);
				D d = m.d;
				*p = d;
				in.push_back(p);
			}
			if (M.k == "fc") kp.node = (*M.as<fc_layer>())(in);
			else if (e["way"].str() == "down") kp.node = M.as<rbm>()->prop_down(in[0]);
			else kp.node = M.comp()->prop_up(in[0]);
			Kept& slot = w.out[e["o"].i()];
			if (slot.node.get()) slot.node.clear();
			slot = std::move(kp);
		}
		else if (a == "setcd")
		{
			Kept kp;
			size_t b = e["b"].i(), k = e["k"].i();
			double r = ratio(e["r"]);
			icompound* net = M.comp();
			placeholder<double>* in = new placeholder<double>(L{net->get_ninput(), b}, "in");
			kp.in.emplace_back(in);
			if (e["p"].i())
			{
				kp.chain.reset(new variable<double>(L{net->get_noutput(), b}, const_init<double>(0), "chain"));
				kp.chain->initialize();
				V bits = constant<double>::get(w.v(e["p"].i()).d, tensorshape(L{net->get_noutput(), b}));
				kp.chain->assign(bits.get())(true);
			}
			if (M.k == "rbm") kp.steps.push_back(M.as<rbm>()->train(in, kp.chain.get(), r, k).first);
			else for (auto& p : M.as<db_net>()->pretraining_functions(*in, r, k)) kp.steps.push_back(p.first);
			Kept& slot = w.out[e["o"].i()];
			if (slot.node.get()) slot.node.clear();
			slot = std::move(kp);
		}
		else if (a == "settune")
		{
			Kept kp;
			size_t b = e["b"].i();
			db_net* net = M.as<db_net>();
			kp.in.emplace_back(new placeholder<double>(L{net->get_ninput(), b}, "in"));
			kp.in.emplace_back(new placeholder<double>(L{net->get_noutput(), b}, "out"));
			update_cost_t up = net->build_finetune_functions(*kp.in[0], *kp.in[1], ratio(e["r"]));
			kp.steps.push_back(up.first);
			kp.node = up.second;
			Kept& slot = w.out[e["o"].i()];
			if (slot.node.get()) slot.node.clear();
			slot = std::move(kp);
		}
		else if (a == "tune")
		{
			Kept& kp = w.out[e["o"].i()];
			D x = w.v(e["x"].i()).d, y = w.v(e["y"].i()).d;
			{
				// the derivatives, taken of a copy
				std::unique_ptr<db_net> twin(M.as<db_net>()->clone("twin"));
				placeholder<double> in(L{twin->get_ninput(), x.size() / twin->get_ninput()}, "in");
				in = x;
				V cost = -reduce_mean<double>(log<double>(twin->prop_up(&in)));
				w.slope.clear();
				for (variable<double>* v : twin->get_variables()) w.slope.push_back(expose<double>(cost->derive(v)));
				for (size_t k = 2; k + 2 < w.slope.size(); k += 3) for (double g : w.slope[k]) REQUIRE(g == 0, "a cost depends on variable " << k + 1 << " of " << name);
			}
			*kp.in[0] = x;
			*kp.in[1] = y;
			while ((long) w.val.size() <= e["e"].i()) define(w, def[done++], rows);
			if (e["x"].i() % 2) answer(expose<double>(kp.node), w.v(e["e"].i()), "the error of " + name, c);
			kp.steps[0](true);
			while (done < def.size()) define(w, def[done++], rows);
			answer(expose<double>(kp.node), w.v(e["f"].i()), "after fine-tuning the error of " + name, c);
		}
		else if (a == "cd")
		{
			Kept& kp = w.out[e["o"].i()];
			const J& steps = e["r"];
			size_t q = e["q"].i(), k = e["c"]["k"].i();
			REQUIRE(kp.steps.size() == w.dims[i].size() / 3, name << " offers " << kp.steps.size() << " trainings, expected " << w.dims[i].size() / 3);
			D dev, var; // of how often every visible unit was on
			double same = 1; Mat before; bool stuck = true;
			for (size_t n = 0; n < steps.size(); n++)
			{
				const J& s = steps[n];
				D x = w.v(s["x"].i()).d;
				*kp.in[0] = x;
				kp.steps.at(q - 1)(true);
				// up to the chain's end nothing is left to chance
				size_t id = s["v"].i(), to = s["e"].i();
				while (w.val.size() < id) define(w, def[done++], rows);
				const J& ch = def[done];
				const Mat& from = w.v(ch["a"][0].i()), &W = w.v(ch["a"][1].i()), &hb = w.v(ch["a"][2].i()), &vb = w.v(ch["a"][3].i());
				size_t B = from.r, N = vb.d.size();
				std::vector<D> law;
				for (size_t r = 0; r < B; r++) law.push_back(ends(D(from.d.begin() + r * from.c, from.d.begin() + (r + 1) * from.c), ch["p"]["h"].t(), W, hb, vb, k));
				std::vector<size_t> pick(B, 0);
				std::string why;
				bool found = false;
				size_t mark = done;
				for (;;)
				{
					bool may = true;
					for (size_t r = 0; r < B; r++) may = may && law[r][pick[r]] > 1e-12;
					if (may)
					{
						w.val.resize(id); done = mark;
						w.ends = Mat(B, N);
						for (size_t r = 0; r < B; r++) { D v = bits(pick[r], N); std::copy(v.begin(), v.end(), w.ends.d.begin() + r * N); }
						while (w.val.size() <= to) define(w, def[done++], rows);
						std::string d = differ(w, i, s["w"], 0, c);
						if (d.empty()) { found = true; break; }
						if (why.empty()) why = d;
					}
					size_t r = 0;
					while (r < B && ++pick[r] == law[r].size()) pick[r++] = 0;
					if (r == B) break;
				}
				REQUIRE(found, "no sample " << name << " can draw explains its training step " << n + 1 << ": for instance " << why);
				dev.resize(N); var.resize(N);
				double again = 1;
				for (size_t r = 0; r < B; r++)
				{
					for (size_t j = 0; j < N; j++)
					{
						double p = 0;
						for (size_t v = 0; v < law[r].size(); v++) if ((v >> j) & 1) p += law[r][v];
						dev[j] += w.ends.at(r, j) - p; var[j] += p * (1 - p);
					}
					again *= law[r][pick[r]];
				}
				if (B > 1) again = 1; // which row drew what is left open
				if (n) { same *= again; stuck = stuck && before.d == w.ends.d; }
				before = w.ends;
			}
			for (size_t j = 0; j < dev.size(); j++) REQUIRE(std::abs(dev[j]) <= 6 * std::sqrt(std::max(0.0, var[j])) + 1, "visible unit " << j + 1 << " of " << name << " is sampled on " << dev[j] << " times more often than it should");
			REQUIRE(!stuck || same > 1e-9, name << " is trained with the same sample in each of " << steps.size() << " steps");
			c.checks++;
		}
		else if (a == "rec")
		{
			while (done < def.size()) define(w, def[done++], rows);
			const size_t B = 64;
			const Mat& x = w.v(e["x"].i()), &st = w.v(e["c"].i()), &p = w.v(e["p"].i()), &v = w.v(e["v"].i());
			placeholder<double> in(L{x.c, B}, "in");
			bool vis = e["way"].str() == "v";
			V node = vis ? M.as<rbm>()->reconstruct_visible(&in) : M.as<rbm>()->reconstruct_hidden(&in);
			D many, law, last;
			for (size_t r = 0; r < B; r++) many.insert(many.end(), x.d.begin(), x.d.end());
			for (size_t s = 0; s < st.r; s++) { double q = 1; for (size_t j = 0; j < st.c; j++) q *= st.at(s, j) ? p.d[j] : 1 - p.d[j]; law.push_back(q); }
			// states of the same consequence are told apart no further
			auto row = [&] (size_t s) { return D(v.d.begin() + s * v.c, v.d.begin() + (s + 1) * v.c); };
			std::vector<size_t> cls(st.r);
			D total(st.r, 0);
			for (size_t s = 0; s < st.r; s++)
			{
				cls[s] = s;
				for (size_t t = 0; t < s; t++) if (close_to(row(t), row(s))) { cls[s] = cls[t]; break; }
				total[cls[s]] += law[s];
			}
			double same = 0;
			for (double q : total) same = std::max(same, q);
			for (int again = 0; again < 2; again++)
			{
				in = many;
				D got = expose<double>(node);
				REQUIRE((node->get_shape().as_list() == L{v.c, B}), "a reconstruction has shape " << lst(node->get_shape().as_list()));
				REQUIRE(!again || got != last || B * std::log(same) > -20, name << " reconstructs from the same sample again");
				last = got;
				std::vector<size_t> seen(st.r, 0);
				for (size_t r = 0; r < B; r++)
				{
					D one(got.begin() + r * v.c, got.begin() + (r + 1) * v.c);
					size_t s = 0;
					while (s < st.r && !(law[s] > 1e-12 && close_to(one, row(s)))) s++;
					REQUIRE(s < st.r, "no sample " << name << " can draw explains its reconstruction " << lst(one) << " of " << lst(x.d));
					seen[cls[s]]++;
				}
				for (size_t s = 0; s < st.r; s++)
				{
					double q = total[s];
					REQUIRE(std::abs(seen[s] - B * q) <= 6 * std::sqrt(B * q * std::max(0.0, 1 - q)) + 1, name << " samples a state of probability " << q << " " << seen[s] << " times of " << B);
				}
				c.checks += B;
			}
			node.clear();
		}
		else if (a == "look") {}
		else if (a == "run")
		{
			D x = w.v(e["x"].i()).d;
			while (done < def.size()) define(w, def[done++], rows);
			answer(M.gd ? (*M.gd)(x) : (*M.dq)(x), w.v(e["v"].i()), "the answer of " + name, c);
		}
		else if (a == "train") { D x = w.v(e["x"].i()).d, y = w.v(e["y"].i()).d; M.gd->train(x, y); }
		else if (a == "store")
		{
			const J& s = e["e"];
			M.dq->store(quarters(s["o"]), s["a"].i(), s["r"].i() / 4.0, quarters(s["n"]));
		}
		else if (a == "qtrain")
		{
			M.dq->train();
			REQUIRE((long) M.dq->get_numtrained() == e["it"].i(), name << " was trained " << M.dq->get_numtrained() << " times, expected " << e["it"].i());
			c.checks++;
			if (e["will"].t())
			{
				// some of what is remembered explains the outcome
				const J& mem = e["rows"];
				size_t B = e["b"].i(), N = mem.size();
				std::string why;
				bool found = false;
				std::vector<bool> sel(N, false);
				std::fill(sel.begin(), sel.begin() + B, true);
				do
				{
					w.val.resize(base);
					for (std::string f : {"x", "k", "r", "nx", "nk"})
					{
						Mat m;
						for (size_t q = 0; q < N; q++) if (sel[q])
						{
							const J& x = mem[q][f.c_str()];
							D d;
							double unit = f == "k" || f == "nk" ? 1 : 4;
							if (f == "r" || f == "nk") d.push_back(x.i() / unit); else for (const J& y : x.a) d.push_back(y.i() / unit);
							m.c = d.size(); m.r++;
							m.d.insert(m.d.end(), d.begin(), d.end());
						}
						rows[f] = m;
					}
					for (size_t q = 0; q < def.size(); q++) define(w, def[q], rows);
					std::string d = differ(w, i, e["st"][(size_t) i - 1]["w"], 0, c);
					if (d.empty()) d = differ(w, i, e["st"][(size_t) i - 1]["t"], 1, c);
					if (d.empty()) { found = true; break; }
					if (why.empty()) why = d;
				} while (std::prev_permutation(sel.begin(), sel.end()));
				REQUIRE(found, "no batch of what " << name << " remembers explains its training: for instance " << why);
				done = def.size();
			}
		}
		else if (a == "acts")
		{
			while (done < def.size()) define(w, def[done++], rows);
			const Mat& q = w.v(e["v"].i());
			double best = *std::max_element(q.d.begin(), q.d.end());
			size_t tops = 0;
			for (double x : q.d) tops += close_to(x, best);
			D x = w.v(e["x"].i()).d;
			double mean = 0, var = 0; long odd = 0;
			for (const J& p : e["eps"].a)
			{
				double eps = ratio(p);
				double act = M.dq->action(x);
				size_t nout = q.d.size();
				REQUIRE(act >= 0 && act < nout && act == std::floor(act), name << " chooses action " << act << " of " << nout);
				bool greedy = close_to(q.d[(size_t) act], best);
				REQUIRE(greedy || eps > 0, name << " explores where it no longer should");
				double pr = eps * (1 - (double) tops / nout);
				mean += pr; var += pr * (1 - pr); odd += !greedy;
				c.checks++;
			}
			REQUIRE(std::abs(odd - mean) <= 6 * std::sqrt(var) + 1, name << " explores " << odd << " times of " << e["eps"].size() << ", expected about " << mean);
		}
		else if (a == "clone")
		{
			long j = e["j"].i();
			std::string sc = e["sc"].str();
			Model& o = w.m[j];
			M = Model(); M.k = o.k;
			if (o.gd) M.gd.reset(new gd_net(*o.gd, sc));
			else if (o.dq) M.dq.reset(new dq_net(*o.dq, sc));
			else M.lay.reset(o.lay->clone(sc));
			w.dims[i] = w.dims[j];
		}
		else if (a == "move")
		{
			long j = e["j"].i();
			Model& o = w.m[j];
			M = Model(); M.k = o.k;
			if (o.gd) M.gd.reset(new gd_net(std::move(*o.gd)));
			else if (o.dq) M.dq.reset(new dq_net(std::move(*o.dq), e["sc"].str()));
			else M.lay.reset(o.lay->move());
			w.dims[i] = w.dims[j];
		}
		else if (a == "assign" || a == "massign" || a == "self")
		{
			long j = a == "self" ? i : e["j"].i();
			bool mv = a == "massign";
			Model& o = w.m[j];
			auto put = [&] (auto& x, auto& y) { if (mv) x = std::move(y); else x = y; if (a == "self") x = std::move(y); };
			if (o.gd) put(*M.gd, *o.gd);
			else if (o.dq) put(*M.dq, *o.dq);
			else if (o.k == "mlp") put(*M.as<mlp>(), *o.as<mlp>());
			else if (o.k == "rbm") put(*M.as<rbm>(), *o.as<rbm>());
			else if (o.k == "db") put(*M.as<db_net>(), *o.as<db_net>());
			else if (o.k == "fc") put(*M.as<fc_layer>(), *o.as<fc_layer>());
			else put(*M.as<conv_layer>(), *o.as<conv_layer>());
			w.dims[i] = std::vector<L>(w.dims[j]);
		}
		else if (a == "delete") { w.m.erase(i); w.dims.erase(i); }
		else throw std::runtime_error("harness: action " + a);

		while (done < def.size()) define(w, def[done++], rows);
		if (a == "save" && e["fk"].str() == "map")
		{
			std::map<std::string, Cont> m;
			REQUIRE(parse(w.path(e["f"].i()), m), "the saved file cannot be read");
			for (const J& x : e["file"].a)
			{
				auto it = m.find(x["l"].str());
				REQUIRE(it != m.end(), "entry " << x["l"].str() << " is missing from the saved file");
				REQUIRE(it->second.first == x["s"].sizes(), "entry " << x["l"].str() << " of the saved file has shape " << lst(it->second.first));
				answer(it->second.second, w.v(x["v"].i()), "entry " + x["l"].str() + " of the saved file", c);
				m.erase(it);
			}
			REQUIRE(m.empty(), "the saved file has an unexpected entry " << m.begin()->first);
		}
		if (a == "save" && e["fk"].str() == "bad")
		{
			std::map<std::string, Cont> m;
			REQUIRE(fs::exists(w.path(e["f"].i())) && fs::file_size(w.path(e["f"].i())) > 0 && !parse(w.path(e["f"].i()), m), "a file that cannot be read was overwritten");
		}
		if (a == "out" || a == "look")
		{
			Kept& kp = w.out[e["o"].i()];
			std::string what = "output " + std::to_string(e["o"].i());
			if (a == "look" && e["gone"].t()) REQUIRE(!kp.node.get(), what << " outlives the model it was computed by");
			else
			{
				REQUIRE(kp.node.get(), what << " is gone");
				const Mat& m = w.v(e["v"].i());
				L s = kp.node->get_shape().as_list();
				while (s.size() < 2) s.push_back(1);
				REQUIRE((s == L{m.c, m.r}), what << " has shape " << lst(s) << ", expected " << lst(L{m.c, m.r}));
				answer(expose<double>(kp.node), m, what, c);
			}
			c.checks++;
		}
		observe(w, e["st"], c);
	}
	c.mark((int) ev.size());
	w.m.clear();
	for (auto& o : w.out) REQUIRE(!o.second.node.get(), "output " << o.first << " outlives the model it was computed by");
}

int main (int argc, char** argv)
{
	char t[] = "/tmp/verif_net_XXXXXX";
	if (!mkdtemp(t)) return 2;
	scratch = t;
	int r = replay_main(argc, argv, play, 60);
	fs::clear(t);
	return r;
}
