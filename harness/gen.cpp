// Replays behaviours of spec/Gen.tla on generated nodes, what they are made
// over and what is computed from them.
// Compiled with EDGE_RCD, compares the written record of the graph instead.
#include "graph/operations/operations.hpp"
#include "graph/connector/immutable/generator.hpp"
#include "graph/leaf/variable.hpp"
#include "graph/leaf/placeholder.hpp"
#include "replay.hpp"
#include <cmath>
#include <fstream>
#ifdef EDGE_RCD
#include "edgeinfo/csv_record.hpp"
#include <unistd.h>
#endif

using namespace nnet;
typedef double T;
typedef varptr<T> V;
typedef std::vector<size_t> L;
typedef std::vector<T> D;
static std::string lst (const L& s) { std::stringstream o; o << "["; for (size_t x : s) o << x << " "; o << "]"; return o.str(); }

struct World
{
	std::map<long, inode<T>*> at;
	std::map<long, V> held;
	std::map<std::pair<long, long>, D> drawn;   // contents by the token the specification gives them
	std::map<long, D> fed;                      // contents of leaves
	long feeds = 0;
	generator<T>* gen (long i) { return dynamic_cast<generator<T>*>(at.at(i)); }
};

// contents of all objects as the specification has them; empty: none
static std::map<long, D> contents (World& w, const J& st, Ctx& c, bool compare)
{
	std::map<long, D> r;
	std::function<const D&(long)> of = [&] (long i) -> const D&
	{
		auto it = r.find(i);
		if (it != r.end()) return it->second;
		const J& o = st[(size_t) i - 1];
		D& d = r[i];
		const std::string& k = o["k"].str();
		L s = o["s"].sizes();
		if (!s.size()) return d;
		size_t n = 1; for (size_t x : s) n *= x;
		if (k == "var") d = D(n, (T) o["v"].i());
		else if (k == "ph") d = w.fed[i];
		else if (k == "gen")
		{
			if (!o["r"].t()) d = D(n, (T) o["v"].i());
			else
			{
				std::pair<long, long> t = {o["t"][0].i(), o["t"][1].i()};
				auto dt = w.drawn.find(t);
				if (dt != w.drawn.end()) d = dt->second;
				else
				{
					const tensor<T>* e = w.at.at(i)->eval();
					REQUIRE(e && e->is_alloc(), "generated node " << i << " has no contents");
					d = e->expose();
					REQUIRE(d.size() == n, "generated node " << i << " has " << d.size() << " elements, expected " << n);
					T lo = (T) o["v"].i();
					for (size_t j = 0; j < n; j++)
					{
						REQUIRE(d[j] >= lo && d[j] <= lo + 1, "generated node " << i << " element " << j << " is drawn from outside its range: " << d[j]);
						if (j) REQUIRE(d[j] != d[j - 1], "elements of generated node " << i << " are drawn once, not one by one");
					}
					for (auto& p : w.drawn) REQUIRE(std::abs((p.second[0] - std::floor(p.second[0])) - (d[0] - std::floor(d[0]))) > 1e-12, "generated node " << i << " is filled with numbers drawn before");
					w.drawn[t] = d;
				}
			}
		}
		else
		{
			const D& x = of(o["a"][0].i());
			d.resize(n);
			if (k == "neg") for (size_t j = 0; j < n; j++) d[j] = -x[j];
			else
			{
				const D& y = of(o["a"][1].i());
				for (size_t j = 0; j < n; j++) d[j] = k == "add" ? x[j] + y[j] : x[j] * y[j];
			}
		}
		c.checks++;
		return d;
	};
	for (size_t i = st.size(); i > 0; i--) if (st[i - 1]["al"].t())
	{
		const J& o = st[(size_t) i - 1];
		L s = o["s"].sizes();
		inode<T>* n = w.at.at(i);
		std::string what = o["k"].str() + " " + std::to_string(i);
		const tensor<T>* e = n->eval();
		const D& d = of(i);
		if (!s.size())
		{
			REQUIRE(!e || !e->is_alloc() || !n->good_status(), what << " has contents although what it is made over has none");
			REQUIRE(!n->good_status(), what << " claims to have contents");
			continue;
		}
		REQUIRE(n->good_status(), what << " claims to have no contents");
		L gs = n->get_shape().as_list();
		REQUIRE(gs == s, what << " has shape " << lst(gs) << ", expected " << lst(s));
		REQUIRE(e && e->is_alloc(), what << " has no contents");
		D got = e->expose();
		REQUIRE(got.size() == d.size(), what << " has " << got.size() << " elements, expected " << d.size());
		for (size_t j = 0; j < d.size(); j++)
			REQUIRE(std::abs(got[j] - d[j]) <= 1e-9 * (1 + std::abs(d[j])), what << " element " << j << " is " << got[j] << ", expected " << d[j]);
		c.checks++;
	}
	return r;
}

#ifdef EDGE_RCD
struct Line { std::string user, used; size_t at; };
static std::vector<Line> lines (const std::string& file)
{
	std::vector<Line> r;
	std::ifstream f(file);
	std::string s;
	while (std::getline(f, s))
	{
		// names hold no commas, shapes may
		int depth = 0;
		std::vector<std::string> part(1);
		for (char ch : s)
		{
			if (ch == '(' ) depth++;
			if (ch == ')' ) depth--;
			if (ch == ',' && !depth) part.push_back("");
			else part.back() += ch;
		}
		REQUIRE(part.size() == 3, "the record has the line " << s);
		r.push_back(Line{part[0], part[1], (size_t) std::stoul(part[2])});
	}
	return r;
}
static std::string scratch;
static rocnnet_record::csv_record* recorder = nullptr;
static void record (void)
{
	if (!scratch.size())
	{
		char t[] = "/tmp/recordXXXXXX";
		int fd = mkstemp(t);
		if (fd < 0) throw std::runtime_error("harness: no scratch file");
		close(fd);
		scratch = t;
		atexit([] () { unlink(scratch.c_str()); });
	}
	rocnnet_record::record_status::rec.reset(recorder = new rocnnet_record::csv_record(scratch));
	rocnnet_record::record_status::rec_good = true;
}
static std::string shaped (inode<T>* n)
{
	std::stringstream s;
	s << "(";
	print_shape(n->get_shape(), s);
	s << ")";
	return s.str();
}
// who uses whom, as the specification has it, against what is written
static void written (World& w, const J& st, Ctx& c, long of, bool shapes)
{
	iconnector<T>* only = of ? dynamic_cast<iconnector<T>*>(w.at.at(of)) : nullptr;
	typedef std::multiset<std::tuple<std::string, std::string, size_t> > E;
	typedef std::multiset<std::tuple<long, long, size_t> > I;
	E want; I links;
	std::map<long, std::string> label;
	for (size_t i = 1; i <= st.size(); i++) if (st[i - 1]["al"].t())
	{
		inode<T>* n = w.at.at(i);
		label[i] = n->get_label() + (shapes ? shaped(n) : "");
		if (only && st[i - 1]["a"].size() && !dynamic_cast<iconnector<T>*>(n)->is_same_graph(only)) continue;
		const J& a = st[i - 1]["a"];
		for (size_t j = 0; j < a.size(); j++)
		{
			inode<T>* m = w.at.at(a[j].i());
			want.insert(std::make_tuple(n->get_name() + (shapes ? shaped(n) : ""), m->get_name() + (shapes ? shaped(m) : ""), j));
			links.insert(std::make_tuple((long) i, a[j].i(), j));
		}
	}
	recorder->setDisplayShape(shapes);
	recorder->setVerbose(true);
	recorder->to_csv<T>(only);
	E got;
	for (auto& l : lines(scratch)) got.insert(std::make_tuple(l.user, l.used, l.at));
	for (auto& l : want) REQUIRE(got.count(l) == 1, std::get<0>(l) << " using " << std::get<1>(l) << " at " << std::get<2>(l) << " is written " << got.count(l) << " times");
	for (auto& l : got) REQUIRE(want.count(l), std::get<0>(l) << " using " << std::get<1>(l) << " at " << std::get<2>(l) << " is written although it does not");
	c.checks++;
	// the short form numbers nodes: some numbering gives the same graph
	recorder->setVerbose(false);
	recorder->to_csv<T>(only);
	std::map<std::string, std::string> tag;
	std::vector<Line> ls = lines(scratch);
	REQUIRE(ls.size() == links.size(), ls.size() << " links are written, expected " << links.size());
	for (auto& l : ls) for (std::string* s : {&l.user, &l.used})
	{
		size_t e = s->find(']');
		REQUIRE((*s)[0] == '[' && e != std::string::npos, "a node is written as " << *s);
		std::string num = s->substr(1, e - 1), lab = s->substr(e + 1);
		REQUIRE(!tag.count(num) || tag[num] == lab, "number " << num << " stands for " << lab << " and " << tag[num]);
		tag[num] = lab;
		*s = num;
	}
	std::vector<std::string> nums;
	for (auto& t : tag) nums.push_back(t.first);
	std::map<std::string, long> is;
	std::set<long> taken;
	std::function<bool(size_t)> fit = [&] (size_t m)
	{
		if (m == nums.size())
		{
			I q;
			for (auto& l : ls) q.insert(std::make_tuple(is[l.user], is[l.used], l.at));
			return q == links;
		}
		for (auto& p : label) if (!taken.count(p.first) && p.second == tag[nums[m]])
		{
			is[nums[m]] = p.first; taken.insert(p.first);
			bool good = true;
			for (auto& l : ls) if (is.count(l.user) && is.count(l.used) && !links.count(std::make_tuple(is[l.user], is[l.used], l.at))) { good = false; break; }
			if (good && fit(m + 1)) return true;
			taken.erase(p.first); is.erase(nums[m]);
		}
		return false;
	};
	REQUIRE(fit(0), "the numbered record does not describe the graph");
	c.checks++;
}
#endif

static void play (const J& b, Ctx& c)
{
#ifdef EDGE_RCD
	record();
#endif
	nnutils::seed_generator(7654321);
	World w;
	const J& ev = b["ev"];
	for (size_t m = 0; m < ev.size(); m++)
	{
		c.mark((int) m);
		const J& e = ev[m];
		const std::string& a = e["a"].str();
		const std::string& k = e["k"].str();
		long x = e["x"].i(), y = e["y"].i();
		std::string name = "o" + std::to_string(x);
		if (a == "ph") w.at[x] = new placeholder<T>(tensorshape(), name);
		else if (a == "var") w.at[x] = new variable<T>(tensorshape(e["s"].sizes()), const_init<T>((T) e["v"].i()), name);
		else if (a == "init") dynamic_cast<variable<T>*>(w.at.at(x))->initialize();
		else if (a == "feed")
		{
			L s = e["s"].sizes();
			size_t n = 1; for (size_t q : s) n *= q;
			D d(n);
			w.feeds++;
			for (size_t j = 0; j < n; j++) d[j] = (T) ((w.feeds * 7 + (long) j * 3) % 11) - 5;
			tensor<T> t{tensorshape(s)};
			assign_func<T>()(t, d);
			*dynamic_cast<placeholder<T>*>(w.at.at(x)) = t;
			w.fed[x] = d;
		}
		else if (a == "gen")
		{
			T v = (T) e["v"].i();
			w.at[x] = k == "c" ? generator<T>::get(w.at.at(y), const_init<T>(v), name) : generator<T>::get(w.at.at(y), rand_uniform<T>(v, v + 1), name);
			if (e["held"].t()) w.held[x] = V(w.at[x]);
		}
		else if (a == "op")
		{
			inode<T>* p = w.at.at(e["a2"][0].i());
			inode<T>* q = k == "neg" ? nullptr : w.at.at(e["a2"][1].i());
			inode<T>* r;
			{
				// handles on the arguments end while the result uses them
				V pv(p), qv;
				if (q) qv = q;
				V rv = k == "neg" ? -pv : k == "add" ? pv + qv : pv * qv;
				r = rv.get();
			}
			for (auto& o : w.at) REQUIRE(o.second != r, "computing " << k << " gives object " << o.first);
			w.at[x] = r;
		}
		else if (a == "hold") w.held[x] = V(w.at.at(x));
		else if (a == "drop") w.held.erase(x);
		else if (a == "destroy") delete w.at.at(x);
		else if (a == "clone") w.at[x] = w.gen(y)->clone();
		else if (a == "move")
		{
			inode<T>* old = w.at.at(y);
			w.at[x] = w.gen(y)->move();
			delete old;
			auto h = w.held.find(y);
			if (h != w.held.end())
			{
				REQUIRE(h->second.get() == w.at[x], "the handle of generated node " << y << " does not go along when it is moved");
				w.held[x] = V(w.at[x]);
				w.held.erase(y);
			}
		}
		else if (a == "assign") *w.gen(x) = *w.gen(y);
		else if (a == "moveto")
		{
			inode<T>* old = w.at.at(y);
			*w.gen(x) = std::move(*w.gen(y));
			delete old;
			auto h = w.held.find(y);
			if (h != w.held.end())
			{
				REQUIRE(h->second.get() == w.at[x], "the handle of generated node " << y << " does not go along when it is moved");
				w.held[x] = V(w.at[x]);
				w.held.erase(y);
			}
		}
		else throw std::runtime_error("harness: event " + a);
		const J& st = e["st"];
#ifdef EDGE_RCD
		if (e["look"].t())
		{
			long of = 0;
			if (m % 4 == 3) for (size_t i = 1; i <= st.size(); i++) if (st[i - 1]["al"].t() && st[i - 1]["a"].size()) of = i;
			for (size_t i = 1; i <= st.size(); i++) if (st[i - 1]["al"].t()) w.at.at(i)->eval();
			written(w, st, c, of, m % 3);
		}
		continue;
#endif
		for (size_t i = 1; i <= st.size(); i++) if (!st[i - 1]["al"].t())
		{
			auto h = w.held.find(i);
			if (h == w.held.end()) continue;
			REQUIRE(!h->second.get(), "object " << i << " is still there");
			w.held.erase(h);
		}
		for (size_t i = 1; i <= st.size(); i++) if (st[i - 1]["al"].t())
		{
			size_t n = w.at.at(i)->n_audience();
			REQUIRE(n == (size_t) st[i - 1]["n"].i(), st[i - 1]["k"].str() << " " << i << " is used by " << n << ", expected " << st[i - 1]["n"].i());
			c.checks++;
		}
		if (e["look"].t()) contents(w, st, c, true);
	}
#ifdef EDGE_RCD
	return;
#endif
	const J& st = ev[ev.size() - 1]["st"];
	std::map<long, D> val = contents(w, st, c, true);
	// what is generated does not change with anything
	std::function<D(long, long, size_t)> der = [&] (long i, long v, size_t n) -> D
	{
		const J& o = st[(size_t) i - 1];
		const std::string& k = o["k"].str();
		if (i == v) return D(n, 1);
		if (k == "gen" || k == "ph" || k == "var") return D(n, 0);
		D x = der(o["a"][0].i(), v, n);
		if (k == "neg") { for (T& q : x) q = -q; return x; }
		D y = der(o["a"][1].i(), v, n);
		const D& p = val[o["a"][0].i()]; const D& q = val[o["a"][1].i()];
		for (size_t j = 0; j < n; j++) x[j] = k == "add" ? x[j] + y[j] : x[j] * q[j] + p[j] * y[j];
		return x;
	};
	for (size_t i = 1; i <= st.size(); i++) for (size_t v = 1; v <= st.size(); v++)
	{
		const J& o = st[(size_t) i - 1]; const J& u = st[(size_t) v - 1];
		if (!o["al"].t() || !u["al"].t() || !o["s"].size() || !u["s"].size() || u["k"].str() != "var") continue;
		if (o["k"].str() == "ph" || o["k"].str() == "var") continue;
		D want = der(i, v, val[i].size());
		V g = w.at.at(i)->derive(w.at.at(v));
		REQUIRE(g.get(), "no gradient of object " << i);
		const tensor<T>* t = g->eval();
		REQUIRE(t && t->is_alloc(), "the gradient of object " << i << " has no contents");
		D got = t->expose();
		REQUIRE(got.size() == 1 || got.size() == want.size(), "the gradient of object " << i << " has " << got.size() << " elements, expected " << want.size());
		for (size_t j = 0; j < want.size(); j++)
			REQUIRE(std::abs(got[got.size() == 1 ? 0 : j] - want[j]) <= 1e-9 * (1 + std::abs(want[j])), "the gradient of object " << i << " by " << v << " at " << j << " is " << got[got.size() == 1 ? 0 : j] << ", expected " << want[j]);
		c.checks++;
	}
	for (size_t i = 1; i <= st.size(); i++) if (st[i - 1]["al"].t() && st[i - 1]["k"].str() == "gen")
	{
		V one = w.at.at(i)->derive(w.at.at(i));
		REQUIRE(one.get() && one->eval()->expose() == D(1, 1), "a generated node's gradient by itself is not one");
	}
}

int main (int argc, char** argv) { return replay_main(argc, argv, play, 20, 16); }
