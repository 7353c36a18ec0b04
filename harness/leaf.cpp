// Replays behaviours of spec/Leaf.tla against variables, placeholders,
// constants and nodes computed from them.
#include "graph/operations/operations.hpp"
#include "graph/leaf/variable.hpp"
#include "graph/leaf/placeholder.hpp"
#include "replay.hpp"
#include <memory>
#include <cmath>

using namespace nnet;
typedef double T;
typedef varptr<T> V;
typedef std::vector<size_t> L;
static const long U = -1000000;
static std::string lst (const L& s) { std::stringstream o; o << "["; for (size_t x : s) o << x << " "; o << "]"; return o.str(); }
static std::vector<T> data (const J& v) { std::vector<T> r; for (const J& x : v.a) r.push_back((T) x.i()); return r; }

struct World
{
	std::map<long, V> leaf;
	std::map<long, V> node;
	std::vector<double> drawn;
	ileaf<T>* at (long i)
	{
		inode<T>* n = leaf[i].get();
		REQUIRE(n, "leaf " << i << " is gone");
		return dynamic_cast<ileaf<T>*>(n);
	}
	template <typename K> K* as (long i) { K* k = dynamic_cast<K*>(at(i)); if (!k) throw std::runtime_error("harness: leaf of another kind"); return k; }
	~World (void) {}
};

static void same (const tensor<T>* t, const L& ws, const J& d, const std::string& what, Ctx& c)
{
	REQUIRE(t && t->is_alloc(), what << " has no contents, expected shape " << lst(ws));
	L gs = t->get_shape().as_list();
	REQUIRE(gs == ws, what << " has shape " << lst(gs) << ", expected " << lst(ws));
	std::vector<T> got = t->expose();
	REQUIRE(got.size() == d.size(), what << " has " << got.size() << " elements, expected " << d.size());
	for (size_t k = 0; k < d.size(); k++)
	{
		if (d[k].i() == U) continue;
		REQUIRE(got[k] == (T) d[k].i(), what << " element " << k << " is " << got[k] << ", expected " << d[k].i());
	}
	c.checks++;
}

static const tensor<T>* patient (inode<T>* n, long odd)
{
	// nodes that cannot take their leaves' shapes report so once each
	for (;; odd--)
	{
		try { return n->eval(); }
		catch (std::exception& e) { REQUIRE(odd > 0, "evaluation fails: " << e.what()); }
	}
}

static void evaluate (World& w, long n, const J& v, long odd, Ctx& c)
{
	inode<T>* p = w.node[n].get();
	REQUIRE(p, "node " << n << " is gone");
	same(patient(p, odd), v["s"].sizes(), v["d"], "node " + std::to_string(n), c);
}

static void observe (World& w, const J& st, Ctx& c)
{
	for (size_t k = 0; k < st.size(); k++)
	{
		const J& o = st[k];
		long i = (long) k + 1;
		if (o["k"].str().empty()) continue;
		ileaf<T>* l = w.at(i);
		std::string what = "leaf " + std::to_string(i);
		REQUIRE(l->good_status() == o["rdy"].t(), what << (o["rdy"].t() ? " should" : " should not") << " be initialised");
		L gs = l->get_shape().as_list(), ws = o["s"].sizes();
		REQUIRE(gs == ws, what << " reports shape " << lst(gs) << ", expected " << lst(ws));
		const tensor<T>* t = l->eval();
		c.checks++;
		if (!o["rdy"].t()) { REQUIRE(!t, what << " has contents before it was given any"); continue; }
		same(t, ws, o["d"], what, c);
	}
}

template <typename A> static void attempt (const J& e, A act, const std::string& what, Ctx& c)
{
	long r = e["r"].i();
	bool threw = false; std::string why;
	try { act(); }
	catch (Mismatch&) { throw; }
	catch (std::exception& x) { if (!strncmp(x.what(), "harness:", 8)) throw; threw = true; why = x.what(); }
	if (r == 1) REQUIRE(!threw, what << " is rejected: " << why);
	if (r == 0) REQUIRE(threw, what << " is not rejected");
	c.checks++;
}

static void play (const J& b, Ctx& c)
{
	nnutils::seed_generator(1234567);
	World w;
	const J& ev = b["ev"];
	for (size_t k = 0; k < ev.size(); k++)
	{
		c.mark((int) k);
		const J& e = ev[k];
		const std::string& a = e["a"].str();
		long i = e["i"].i();
		std::string name = "l" + std::to_string(i);
		if (a == "newvar")
		{
			tensorshape s(e["s"].sizes());
			T v = (T) e["v"].i();
			long ini = e["ini"].i();
			if (ini == 0) w.leaf[i] = new variable<T>(s, name);
			else if (ini == 1) { const_init<T> f(v); w.leaf[i] = new variable<T>(s, f, name); }
			else if (ini == 2) { rand_uniform<T> f(v, v + 1); w.leaf[i] = new variable<T>(s, f, name); }
			else w.leaf[i] = new variable<T>(v, name);
		}
		else if (a == "newph") w.leaf[i] = new placeholder<T>(tensorshape(e["s"].sizes()), name);
		else if (a == "newconst") w.leaf[i] = constant<T>::get(data(e["v"]), tensorshape(e["s"].sizes()));
		else if (a == "setinit")
		{
			T v = (T) e["v"].i();
			if (e["k"].str() == "const") w.as<variable<T> >(i)->set_initializer(const_init<T>(v));
			else w.as<variable<T> >(i)->set_initializer(rand_uniform<T>(v, v + 1));
		}
		else if (a == "init")
		{
			variable<T>* v = w.as<variable<T> >(i);
			REQUIRE(v->can_init(), "leaf " << i << " has lost its initialiser");
			L s = e["s"].sizes();
			attempt(e, [&] { if (s.empty()) v->initialize(); else v->initialize(tensorshape(s)); },
				"initialising leaf " + std::to_string(i) + (s.empty() ? "" : " with shape " + lst(s)), c);
			if (e["rnd"].t() && e["r"].i() == 1)
			{
				std::vector<T> got = v->eval()->expose();
				T lo = (T) e["v"].i();
				for (size_t m = 0; m < got.size(); m++)
					REQUIRE(got[m] >= lo && got[m] <= lo + 1, "leaf " << i << " element " << m << " is drawn from outside its range: " << got[m]);
				for (double d : w.drawn)
					REQUIRE(std::abs(d - (got[0] - lo)) > 1e-12, "leaf " << i << " is initialised with the very numbers drawn before");
				for (size_t m = 1; m < got.size(); m++)
					REQUIRE(got[m] != got[m - 1], "elements of leaf " << i << " are drawn once, not one by one");
				w.drawn.push_back(got[0] - lo);
				c.checks++;
			}
		}
		else if (a == "assign")
		{
			variable<T>* v = w.as<variable<T> >(i);
			long j = e["j"].i();
			V src; if (j == 0) src = constant<T>::get(data(e["v"]), tensorshape(e["s"].sizes())); else src = w.at(j);
			const std::string& m = e["m"].str();
			variable_updater<T> u = m == "set" ? v->assign(src.get()) : m == "add" ? v->assign_add(src.get()) : v->assign_sub(src.get());
			attempt(e, [&] { u(true); }, "assigning to leaf " + std::to_string(i), c);
		}
		else if (a == "data")
		{
			placeholder<T>* p = w.as<placeholder<T> >(i);
			std::vector<T> d = data(e["v"]);
			attempt(e, [&] { if (k % 2) { placeptr<T> h(p); h = d; } else *p = d; }, "giving leaf " + std::to_string(i) + " " + std::to_string(d.size()) + " elements", c);
		}
		else if (a == "tensor")
		{
			placeholder<T>* p = w.as<placeholder<T> >(i);
			tensor<T> t{tensorshape(e["s"].sizes())};
			assign_func<T>()(t, data(e["v"]));
			attempt(e, [&] { if (k % 2) { placeptr<T> h; h = p; h = t; } else *p = t; }, "giving leaf " + std::to_string(i) + " a tensor", c);
		}
		else if (a == "copy")
		{
			ileaf<T>* j = w.at(e["j"].i());
			if (e["m"].str() == "clone") w.leaf[i] = j->clone();
			else if (variable<T>* v = dynamic_cast<variable<T>*>(j)) w.leaf[i] = new variable<T>(*v);
			else w.leaf[i] = new placeholder<T>(*dynamic_cast<placeholder<T>*>(j));
			REQUIRE(w.at(i) != j, "copy of a leaf is the leaf itself");
		}
		else if (a == "copyto" || a == "moveto")
		{
			long jj = e["j"].i();
			ileaf<T>* t = w.at(i); ileaf<T>* j = w.at(jj);
			variable<T>* tv = dynamic_cast<variable<T>*>(t);
			if (a == "copyto")
			{
				attempt(e, [&] {
					if (tv) *tv = *dynamic_cast<variable<T>*>(j);
					else *dynamic_cast<placeholder<T>*>(t) = *dynamic_cast<placeholder<T>*>(j);
				}, "copying a leaf to leaf " + std::to_string(i), c);
			}
			else
			{
				w.leaf.erase(jj); // handles move along with what observes the leaf
				if (tv) *tv = std::move(*dynamic_cast<variable<T>*>(j));
				else *dynamic_cast<placeholder<T>*>(t) = std::move(*dynamic_cast<placeholder<T>*>(j));
				delete j;
			}
		}
		else if (a == "move")
		{
			long jj = e["j"].i();
			ileaf<T>* j = w.at(jj);
			inode<T>* n;
			w.leaf.erase(jj); // handles move along with what observes the leaf
			if (e["m"].str() == "move") n = j->move();
			else if (variable<T>* v = dynamic_cast<variable<T>*>(j)) n = new variable<T>(std::move(*v));
			else n = new placeholder<T>(std::move(*dynamic_cast<placeholder<T>*>(j)));
			w.leaf[i] = n;
			delete j;
		}
		else if (a == "node")
		{
			const std::string& o = e["k"].str();
			V x(w.at(e["x"][0].i())), y;
			if (e["x"].size() > 1) y = w.at(e["x"][1].i());
			V r = o == "neg" ? -x : o == "add" ? x + y : x - y;
			w.node[e["n"].i()] = r;
			evaluate(w, e["n"].i(), e["v"], 0, c);
		}
		else if (a == "bad")
		{
			const std::string& o = e["k"].str();
			V x(w.at(e["x"][0].i())), y(w.at(e["x"][1].i()));
			bool threw = false;
			V r;
			try
			{
				r = o == "mul" ? x * y : o == "div" ? x / y : matmul(x, y);
				const tensor<T>* t = r->eval();
				REQUIRE(!t || !t->is_alloc(), "combining leaves " << e["x"][0].i() << " and " << e["x"][1].i() << " of incompatible shapes by " << o << " gives a value");
			}
			catch (Mismatch&) { throw; }
			catch (std::exception&) { threw = true; }
			REQUIRE(threw, "combining leaves of incompatible shapes by " << o << " is not reported");
			if (r.get())
			{
				const tensor<T>* t = nullptr;
				try { t = r->eval(); } catch (std::exception&) {}
				REQUIRE(!t || !t->is_alloc(), "a failed " << o << " has a value");
				delete r.get();
			}
			c.checks++;
		}
		else if (a == "eval") evaluate(w, e["n"].i(), e["v"], e["odd"].i(), c);
		else throw std::runtime_error("harness: unknown event " + a);
		observe(w, e["st"], c);
	}
	c.mark((int) ev.size());
	const J& fin = b["fin"];
	for (size_t k = 0; k < fin.size(); k++) if (fin[k]["s"].size()) evaluate(w, (long) k + 1, fin[k], b["odd"].i(), c);
	std::vector<inode<T>*> all;
	for (auto& p : w.leaf) if (p.second.get() && !dynamic_cast<constant<T>*>(p.second.get())) all.push_back(p.second.get());
	for (inode<T>* n : all) delete n;
	for (auto& p : w.leaf) REQUIRE(!p.second.get() || dynamic_cast<constant<T>*>(p.second.get()), "the handle of a leaf outlives it");
	for (auto& p : w.node) REQUIRE(!p.second.get(), "a node outlives its leaves");
}

int main (int argc, char** argv) { return replay_main(argc, argv, play); }
