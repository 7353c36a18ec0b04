// Replays behaviours of spec/Graph.tla against the real graph library.
#include "graph/operations/operations.hpp"
#include "graph/leaf/variable.hpp"
#include "graph/leaf/placeholder.hpp"
#include "replay.hpp"
#include <memory>

using namespace nnet;
typedef double T;
typedef varptr<T> V;

struct Box { V v; inode<T>* get (void) const { return v.get(); } };

struct World
{
	std::map<long, std::unique_ptr<Box> > h;    // handles by specification node
	std::map<long, variable_updater<T> > up;  // prepared assignments
	

	inode<T>* node (long i)
	{
		auto it = h.find(i);
		REQUIRE(it != h.end() && it->second->get(), "node " << i << " should be alive but is gone");
		return it->second->get();
	}
	// replaces the handle of node i in one of the ways a handle can come about
	void rehandle (long i, const std::string& m, long j)
	{
		inode<T>* n = node(i);
		V& v = h[i]->v;
		if (m == "self") { v = n; v = v; }
		else if (m == "copy") { std::unique_ptr<Box> b(new Box{V(v)}); h[i] = std::move(b); }
		else if (m == "assign") { std::unique_ptr<Box> b(new Box{V(node(j))}); b->v = v; h[i] = std::move(b); }
		else if (m == "move") { std::unique_ptr<Box> b(new Box{V(std::move(v))}); h[i] = std::move(b); }
		else if (m == "moveassign") { std::unique_ptr<Box> b(new Box{V(node(j))}); b->v = std::move(v); h[i] = std::move(b); }
		else { V keep(n), keep2(node(j)); v = node(j); v = n; v = keep; }
		REQUIRE(h[i]->get() == n, "handle of node " << i << " holds another node after " << m);
	}
	V var (long i) { return V(node(i)); }
	void set (long i, inode<T>* n) { h[i].reset(new Box{V(n)}); }
};

static std::vector<double> nums (const J& d)
{
	std::vector<double> r;
	for (const J& x : d.a) { SV v = sv(x); if (v.unk) throw std::runtime_error("harness: unspecified input"); r.push_back(v.v); }
	return r;
}
static std::string lst (std::vector<size_t> s) { std::stringstream o; o << "["; for (size_t x : s) o << x << " "; o << "]"; return o.str(); }

static bool lt (T a, T b) { return a < b; }
static bool gt (T a, T b) { return a > b; }
static bool eqf (T a, T b) { return a == b; }
static bool neqf (T a, T b) { return a != b; }
static std::function<bool(T,T)> cmpf (const std::string& o)
{
	return o == "lt" ? lt : o == "gt" ? gt : o == "eq" ? eqf : neqf;
}

// reductions by a function of the caller, named ("fold", "argf") or not
static V byfunction (const std::string& op, V a, size_t f, optional<size_t> dim)
{
	static const AGGREGATE<T> collect[] = {
		[](const T x, const T y) { return std::min(x, y); },
		[](const T x, const T y) { return x * y; },
		[](const T, const T y) { return y; },
		[](const T x, const T y) { return x - y; }};
	static const REDUCE<T> search[] = {
		[](std::vector<T> v) { return (T) (std::min_element(v.begin(), v.end()) - v.begin()); },
		[](std::vector<T> v) { return (T) v.size(); }};
	std::string name = op + std::to_string(f);
	if (op == "fold") return compress<T>(a, collect[f], dim, name);
	if (op == "foldu") return compress<T>(a, collect[f], dim);
	if (op == "argf") return arg_compress<T>(a, search[f], dim, name);
	return arg_compress<T>(a, search[f], dim);
}

static V apply (const J& e, World& w)
{
	const std::string& op = e["op"].str();
	V a = w.var(e["x"][0].i());
	V b; if (e["x"].size() > 1) b = w.node(e["x"][1].i());
	std::vector<double> p = nums(e["p"]);
	std::vector<size_t> q = e["q"].sizes();
	optional<size_t> dim; if (q.size() == 1) dim = q[0];
	if (op == "identity") return identity(a);
	if (op == "as_constant") return as_constant(a);
	if (op == "pos") return +a;
	if (op == "neg") return -a;
	if (op == "sin") return sin(a);
	if (op == "cos") return cos(a);
	if (op == "tan") return tan(a);
	if (op == "csc") return csc(a);
	if (op == "sec") return sec(a);
	if (op == "cot") return cot(a);
	if (op == "exp") return exp(a);
	if (op == "sqrt") return sqrt(a);
	if (op == "round") return round(a);
	if (op == "log") return log(a);
	if (op == "pow") return pow(a, p[0]);
	if (op == "clip_val") return clip_val(a, p[0], p[1]);
	if (op == "clip_norm") return clip_norm(a, p[0]);
	if (op == "addl") return p[0] + a;
	if (op == "addr") return a + p[0];
	if (op == "subl") return p[0] - a;
	if (op == "subr") return a - p[0];
	if (op == "mull") return p[0] * a;
	if (op == "mulr") return a * p[0];
	if (op == "divl") return p[0] / a;
	if (op == "divr") return a / p[0];
	if (op == "add") return a + b;
	if (op == "sub") return a - b;
	if (op == "mul") return a * b;
	if (op == "div") return a / b;
	if (op == "eq") return eq(a, b);
	if (op == "neq") return neq(a, b);
	if (op == "lt" || op == "gt") return conditional<T>(a, b, cmpf(op), op);
	for (const char* c : {"lt", "gt", "eq", "neq"})
	{
		if (op == std::string(c) + "l") return conditional<T>(p[0], a, cmpf(c), c);
		if (op == std::string(c) + "r") return conditional<T>(a, p[0], cmpf(c), c);
	}
	if (op == "add_a") return add_axial_a(a, b, q[0]);
	if (op == "add_b") return add_axial_b(a, b, q[0]);
	if (op == "sub_a") return sub_axial_a(a, b, q[0]);
	if (op == "sub_b") return sub_axial_b(a, b, q[0]);
	if (op == "mul_a") return mul_axial_a(a, b, q[0]);
	if (op == "mul_b") return mul_axial_b(a, b, q[0]);
	if (op == "div_a") return div_axial_a(a, b, q[0]);
	if (op == "div_b") return div_axial_b(a, b, q[0]);
	if (op == "transpose") return transpose(a, {q[0], q[1]});
	if (op == "extend") return extend(a, q[0], q[1]);
	if (op == "sum") return reduce_sum(a, dim);
	if (op == "max") return reduce_max(a, dim);
	if (op == "mean") return reduce_mean(a, dim);
	if (op == "argmax") return arg_max(a, dim);
	if (op == "fold" || op == "foldu" || op == "argf" || op == "argfu")
	{
		if (q.size() == 2) dim = q[1]; else dim = optional<size_t>();
		return byfunction(op, a, q[0], dim);
	}
	if (op == "flip") return flip(a, q);
	if (op == "fit") return fit(a, b);
	if (op == "cross") return cross_corr2d(a, b, {q[0], q[1]});
	if (op == "conv") return conv2d(a, b, {q[0], q[1]});
	if (op == "matmul") return matmul(a, b, q[0] == 1, q[1] == 1);
	throw std::runtime_error("harness: unknown op " + op);
}

static void compare (const J& want, const tensor<T>* t, bool broadcast, Ctx& c, long h)
{
	REQUIRE(t && t->is_alloc(), "node " << h << " has no value, expected one of shape " << lst(want["s"].sizes()));
	std::vector<T> got = t->expose();
	std::vector<size_t> gs = t->get_shape().as_list(), ws = want["s"].sizes();
	const J& d = want["d"];
	if (!(broadcast && got.size() == 1))
	{
		if (broadcast) { while (gs.size() > 1 && gs.back() == 1) gs.pop_back(); while (ws.size() > 1 && ws.back() == 1) ws.pop_back(); }
		REQUIRE(gs == ws, "node " << h << " has shape " << lst(gs) << ", expected " << lst(ws));
		REQUIRE(got.size() == d.size(), "node " << h << " has " << got.size() << " elements, expected " << d.size());
	}
	for (size_t i = 0; i < d.size(); i++)
	{
		T g = got.size() == 1 ? got[0] : got[i];
		REQUIRE(sv_agree(d[i], g), "node " << h << " element " << i << " is " << g << ", expected " << sv_show(d[i]));
		c.checks++;
	}
}

static void observe (const J& e, World& w, Ctx& c)
{
	const std::string& a = e["a"].str();
	long h = e["h"].i();
	if (a == "eval") compare(e["e"], w.node(h)->eval(), false, c, h);
	else if (a == "evalnull")
	{
		const tensor<T>* t = w.node(h)->eval();
		REQUIRE(!t || !t->is_alloc(), "node " << h << " has a value before its leaves have one");
		c.checks++;
	}
	else w.node(h)->eval();
}

static void play (const J& b, Ctx& c)
{
	World w;
	const J& ev = b["ev"];
	for (size_t k = 0; k < ev.size(); k++)
	{
		c.mark((int) k);
		const J& e = ev[k];
		const std::string& a = e["a"].str();
		if (a == "leaf")
		{
			long h = e["h"].i();
			const std::string& kind = e["c"].str();
			std::vector<size_t> s = e["s"].sizes();
			std::string name = "leaf" + std::to_string(h);
			if (kind == "const1") { w.set(h, constant<T>::get(nums(e["d"])[0])); continue; }
			if (kind == "const") { w.set(h, constant<T>::get(nums(e["d"]), tensorshape(s))); continue; }
			if (kind == "ph")
			{
				long part = e["part"].i();
				std::vector<size_t> ps = s;
				if (part == 1) ps.back() = 0;
				w.set(h, new placeholder<T>(part == 2 ? tensorshape() : tensorshape(ps), name));
				continue;
			}
			variable<T>* v = new variable<T>(tensorshape(s), const_init<T>(0), name);
			w.set(h, v);
			if (kind == "var")
			{
				v->initialize();
				V init = constant<T>::get(nums(e["d"]), tensorshape(s));
				v->assign(init.get())(true);
			}
		}
		else if (a == "op")
		{
			V r = apply(e, w);
			REQUIRE(r.get(), "building " << e["op"].str() << " gives no node");
			long h = e["h"].i();
			if (!e["new"].t() && !e["loose"].t() && e["same"].size() > 0)
			{
				bool found = false;
				for (const J& j : e["same"].a) found = found || w.node(j.i()) == r.get();
				REQUIRE(found, "building " << e["op"].str() << " again does not give the existing node " << h);
				c.checks++;
			}
			if (!w.h.count(h)) w.set(h, r.get()); // else it is another of several equal nodes at most
		}
		else if (a == "opthrow")
		{
			bool threw = false;
			try { apply(e, w); } catch (Mismatch&) { throw; } catch (std::exception& x)
			{
				if (!strncmp(x.what(), "harness:", 8)) throw;
				threw = true;
			}
			REQUIRE(threw, "dividing by a constant zero (" << e["op"].str() << ") is not rejected");
			c.checks++;
		}
		else if (a == "eval" || a == "evalnull" || a == "evalany") observe(e, w, c);
		else if (a == "shape")
		{
			std::vector<size_t> gs = w.node(e["h"].i())->get_shape().as_list(), ws = e["s"].sizes();
			REQUIRE(gs == ws, "node " << e["h"].i() << " reports shape " << lst(gs) << ", expected " << lst(ws));
			c.checks++;
		}
		else if (a == "leaves")
		{
			std::unordered_set<ileaf<T>*> got = w.node(e["h"].i())->get_leaves();
			for (const char* k : {"on", "off"}) for (const J& j : e[k].a)
			{
				if (!w.h.count(j.i())) continue;
				bool has = got.count(dynamic_cast<ileaf<T>*>(w.node(j.i())));
				REQUIRE(has == (k[1] == 'n'), "node " << e["h"].i() << " is " << (has ? "" : "not ") << "said to depend on leaf " << j.i());
				c.checks++;
			}
		}
		else if (a == "init")
		{
			variable<T>* v = dynamic_cast<variable<T>*>(w.node(e["h"].i()));
			v->set_initializer(const_init<T>(sv(e["v"]).v));
			v->initialize();
		}
		else if (a == "ph")
		{
			placeholder<T>* p = dynamic_cast<placeholder<T>*>(w.node(e["h"].i()));
			std::vector<T> d = nums(e["d"]);
			std::vector<size_t> s = e["s"].sizes();
			if (e["t"].t())
			{
				tensor<T> t{tensorshape(s)};
				assign_func<T>()(t, d);
				if (d.size() % 2) { placeptr<T> h; h = p; h = t; }
				else *p = t;
			}
			else if (d.size() % 2) { placeptr<T> h(p); h = d; }
			else *p = d;
		}
		else if (a == "assignv" || a == "assignn" || a == "prep")
		{
			variable<T>* v = dynamic_cast<variable<T>*>(w.node(e["h"].i()));
			V src = a == "assignv" ? V(constant<T>::get(nums(e["d"]), tensorshape(e["s"].sizes()))) : w.var(e["x"].i());
			const std::string& m = e["m"].str();
			variable_updater<T> u = m == "set" ? v->assign(src.get()) : m == "add" ? v->assign_add(src.get()) : v->assign_sub(src.get());
			if (a == "prep") w.up[e["u"].i()] = u;
			else u(e["nt"].t());
		}
		else if (a == "run") w.up[e["u"].i()](e["nt"].t());
		else if (a == "notify") w.node(e["h"].i())->notify(UPDATE);
		else if (a == "delete")
		{
			delete w.node(e["h"].i());
			for (auto it = w.h.begin(); it != w.h.end(); ) // gradients and clones of unknown fate
			{
				bool known = false;
				for (const J& j : e["dead"].a) known = known || j.i() == it->first;
				for (const J& j : e["live"].a) known = known || j.i() == it->first;
				if (known) ++it; else it = w.h.erase(it);
			}
			for (const J& j : e["dead"].a)
			{
				REQUIRE(!w.h.at(j.i())->get(), "node " << j.i() << " outlives node " << e["h"].i() << " it depends on");
				w.h.erase(j.i());
				c.checks++;
			}
			for (const J& j : e["live"].a) { w.node(j.i()); c.checks++; }
		}
		else if (a == "handle") w.rehandle(e["h"].i(), e["m"].str(), e["x"].i());
		else if (a == "drop") w.h.erase(e["h"].i());
		else if (a == "clone")
		{
			inode<T>* src = w.node(e["x"].i());
			inode<T>* n = src->clone();
			REQUIRE(n && n != src, "clone of node " << e["x"].i() << " is not a new node");
			REQUIRE(n->get_arguments() == src->get_arguments(), "clone of node " << e["x"].i() << " has other operands");
			w.set(e["h"].i(), n);
		}
		else if (a == "freeze" || a == "thaw")
		{
			iconnector<T>* n = dynamic_cast<iconnector<T>*>(w.node(e["h"].i()));
			REQUIRE(n, "node " << e["h"].i() << " is not an operation");
			n->freeze_status(a == "freeze");
		}
		else if (a == "derive")
		{
			V g = w.node(e["f"].i())->derive(w.node(e["w"].i()));
			REQUIRE(g.get(), "no gradient");
			w.set(e["h"].i(), g.get());
		}
		else if (a == "gradeval")
		{
			long h = e["h"].i();
			compare(e["e"], w.node(h)->eval(), true, c, h);
		}
		else throw std::runtime_error("harness: unknown event " + a);
	}
	if (b.has("fin"))
	{
		c.mark((int) ev.size());
		for (const J& e : b["fin"].a) observe(e, w, c);
		if (b.has("grads")) for (const J& e : b["grads"].a) compare(e["e"], w.node(e["h"].i())->eval(), true, c, e["h"].i());
		// taking everything down must be safe, too
		std::vector<long> ids;
		for (auto& p : w.h) ids.push_back(p.first);
		for (long i : ids)
		{
			inode<T>* n = w.h.at(i)->get();
			if (n && !dynamic_cast<constant<T>*>(n)) delete n;
		}
	}
}

int main (int argc, char** argv) { return replay_main(argc, argv, play); }
