// Replays behaviours of spec/ShapeAlg.tla and spec/Store.tla against shapes,
// tensors and their handlers.
#include "graph/leaf/variable.hpp"
#include "tensor/tensor_handler.hpp"
#include "replay.hpp"
#include <memory>

using namespace nnet;
typedef double T;
typedef std::vector<size_t> L;
static std::string lst (const L& s) { std::stringstream o; o << "["; for (size_t x : s) o << x << " "; o << "]"; return o.str(); }

#define SAME(got, want, what) do { auto g_ = (got); auto w_ = (want); REQUIRE(g_ == w_, what << " is " << g_ << ", expected " << w_); c.checks++; } while (0)
#define SAMEL(got, want, what) do { L g_ = (got); L w_ = (want); REQUIRE(g_ == w_, what << " is " << lst(g_) << ", expected " << lst(w_)); c.checks++; } while (0)

// extents are powers of two given by their exponents, -1 for an unknown extent
static L wide (const J& e)
{
	L s;
	for (size_t i = 0; i < e.size(); i++) s.push_back(e[i].i() < 0 ? 0 : (size_t) 1 << e[i].i());
	return s;
}

static void wide_event (const J& e, Ctx& c)
{
	L sl = wide(e["e"]), tl = wide(e["t"]);
	tensorshape s(sl), t(tl);
	std::string w = "of " + lst(sl) + " and " + lst(tl);
	size_t n = (size_t) 1 << e["bits"].i();
	SAME(s.n_elems(), e["full"].t() ? n : (size_t) 0, "number of elements " << w);
	SAME(s.n_known(), n, "number of known elements " << w);
	SAME(s.is_fully_defined(), e["full"].t(), "fully defined " << w);
	if (e["compat"].i() < 2) SAME(s.is_compatible_with(t), e["compat"].i() == 1, "compatibility " << w);
	SAMEL(s.concatenate(t).with_rank(sl.size()).as_list(), sl, "concatenation " << w);
	const J& d = e["digits"];
	for (size_t i = 0; i < d.size(); i++)
	{
		L coord;
		size_t flat = 0;
		for (size_t k = 0; k < sl.size(); k++)
		{
			size_t part = d[i][k].i();
			coord.push_back(part < 2 ? part : part == 2 ? sl[k] / 2 : sl[k] - 1);
			flat += coord.back() << e["weights"][k].i();
		}
		SAME(s.flat_idx(coord), flat, "position of coordinate " << lst(coord) << " " << w);
		SAMEL(s.coordinate_from_idx(flat), coord, "coordinate of position " << flat << " " << w);
		c.checks += 2;
	}
	c.checks += 4;
}

static void shape_event (const J& e, Ctx& c)
{
	L sl = e["s"].sizes(), tl = e["t"].sizes();
	tensorshape s(sl), t(tl);
	std::string w = "of " + lst(sl) + " and " + lst(tl);
	SAMEL(s.as_list(), sl, "list " << w);
	SAME(s.n_elems(), (size_t) e["n"].i(), "number of elements " << w);
	SAME(s.n_known(), (size_t) e["known"].i(), "number of known elements " << w);
	SAME(s.rank(), sl.size(), "rank " << w);
	SAME(s.is_fully_defined(), e["full"].t(), "fully defined " << w);
	SAME(s.is_part_defined(), e["part"].t(), "partly defined " << w);
	if (e["compat"].i() < 2) SAME(s.is_compatible_with(t), e["compat"].i() == 1, "compatibility " << w);
	SAME(s.is_compatible_with(t), t.is_compatible_with(s), "symmetric compatibility " << w);
	bool threw = false; tensorshape m;
	try { m = s.merge_with(t); } catch (std::logic_error&) { threw = true; }
	SAME(threw, !e["mergeok"].t(), "rejection of merging " << w);
	if (!threw) SAMEL(m.as_list(), e["merge"].sizes(), "merge " << w);
	SAMEL(s.trim().as_list(), e["trim"].sizes(), "trimming " << w);
	SAMEL(s.concatenate(t).as_list(), e["cat"].sizes(), "concatenation " << w);
	for (size_t r = 0; r < 6; r++)
	{
		SAMEL(s.with_rank(r).as_list(), e["wr"][r].sizes(), "rank " << r << " version " << w);
		SAMEL(s.with_rank_at_least(r).as_list(), e["lo"][r].sizes(), "rank at least " << r << " version " << w);
		SAMEL(s.with_rank_at_most(r).as_list(), e["hi"][r].sizes(), "rank at most " << r << " version " << w);
	}
	SAMEL(s.as_list(), sl, "list afterwards " << w);
	const J& co = e["coords"];
	for (size_t i = 0; i < co.size(); i++)
	{
		SAMEL(s.coordinate_from_idx(i), co[i].sizes(), "coordinate of position " << i << " " << w);
		SAME(s.flat_idx(co[i].sizes()), i, "position of coordinate " << i << " " << w);
	}
	if (co.size())
	{
		size_t k = 0;
		s.iterate([&](L coord, size_t i)
		{
			REQUIRE(i == k && k < co.size(), "iteration visits position " << i << " instead of " << k << " " << w);
			SAMEL(coord, co[i].sizes(), "coordinate " << i << " of the iteration " << w);
			k++;
		});
		SAME(k, co.size(), "positions visited by the iteration " << w);
		SAME(s.flat_idx(L{}), (size_t) 0, "position of the empty coordinate " << w);
	}
	const J& cr = e["cross"];
	for (size_t i = 0; i < cr.size(); i++)
		SAME(s.flat_idx(t.coordinate_from_idx(i)), (size_t) cr[i].i(), "position of a foreign coordinate " << w);
	tensorshape a(s), b; b = s; tensorshape v(std::move(a)); tensorshape q; q = sl;
	SAMEL(b.as_list(), sl, "assigned copy " << w);
	SAMEL(v.as_list(), sl, "moved copy " << w);
	SAMEL(q.as_list(), sl, "list-assigned shape " << w);
	b.undefine();
	SAME(b.rank(), (size_t) 0, "rank after undefining " << w);
	std::stringstream ss; print_shape(s, ss);
	std::stringstream want; if (sl.empty()) want << "undefined "; for (size_t x : sl) want << x << " ";
	SAME(ss.str(), want.str(), "printed form " << w);
}

typedef tensor<T> TT;

// allocators that know what they gave out
struct Ledger : iallocator
{
	std::map<void*, size_t> out;
	std::string wrong;
protected:
	void* get_raw (size_t, size_t n) override { void* p = malloc(n); out[p] = n; return p; }
	void del_raw (void* p, size_t n) override
	{
		auto it = out.find(p);
		if (it == out.end()) { wrong = "is given memory that is not its own"; return; }
		if (it->second != n) wrong = "is given back " + std::to_string(n) + " bytes of " + std::to_string(it->second);
		out.erase(it);
		free(p);
	}
};
struct LedgerA : Ledger
{
	iallocator* clone_impl (void) const override { return new LedgerA(*this); }
	iallocator* move_impl (void) override { return new LedgerA(std::move(*this)); }
};
struct LedgerB : Ledger
{
	iallocator* clone_impl (void) const override { return new LedgerB(*this); }
	iallocator* move_impl (void) override { return new LedgerB(std::move(*this)); }
};
static size_t history = 0;                              // numbers are given once per process
static size_t number (long al) { return al ? history * 16 + al : default_alloc::alloc_id; }

static void memory (const J& st, long n, Ctx& c)
{
	alloc_builder& b = alloc_builder::get_instance();
	for (long k = 1; k <= n; k++)
	{
		Ledger* l = dynamic_cast<Ledger*>(b.get(number(k)));
		std::multiset<size_t> want, got;
		for (size_t i = 0; i < st.size(); i++) if (st[i]["lv"].t() && st[i]["al"].t() && st[i]["by"].i() == k) want.insert(st[i]["d"].size() * sizeof(T));
		if (!l) { REQUIRE(want.empty(), "allocator " << k << " is not registered"); continue; }
		REQUIRE(l->wrong.empty(), "allocator " << k << " " << l->wrong);
		for (auto& p : l->out) got.insert(p.second);
		std::stringstream s, t;
		for (size_t x : want) s << x << " "; for (size_t x : got) t << x << " ";
		REQUIRE(got == want, "allocator " << k << " has given out pieces of " << t.str() << "bytes, expected " << s.str());
		c.checks++;
	}
}

struct Store { std::map<long, std::unique_ptr<TT> > t; TT& at (long i) { return *t.at(i); } };

static void observe (Store& w, const J& st, Ctx& c)
{
	for (size_t k = 0; k < st.size(); k++)
	{
		const J& o = st[k];
		long i = (long) k + 1;
		if (!o["lv"].t()) continue;
		TT& x = w.at(i);
		SAME(x.is_alloc(), o["al"].t(), "allocation of tensor " << i);
		L s = o["s"].sizes();
		SAMEL(x.get_shape().as_list(), s, "shape of tensor " << i);
		SAMEL(x.dims(), s, "extents of tensor " << i);
		SAME(x.rank(), s.size(), "rank of tensor " << i);
		const J& d = o["d"];
		SAME(x.n_elems(), d.size(), "number of elements of tensor " << i);
		SAME(x.total_bytes(), d.size() * sizeof(T), "bytes of tensor " << i);
		if (!o["al"].t()) continue;
		std::vector<T> got = x.expose();
		SAME(got.size(), d.size(), "number of exposed elements of tensor " << i);
		for (size_t m = 0; m < d.size(); m++)
		{
			if (d[m].i() >= 0) SAME(got[m], (T) d[m].i(), "element " << m << " of tensor " << i);
		}
	}
}

static std::vector<T> data (const J& v) { std::vector<T> r; for (const J& x : v.a) r.push_back((T) x.i()); return r; }

static void play (const J& b, Ctx& c)
{
	Store w;
	history++;
	const J& ev = b["ev"];
	long als = 0;
	for (size_t k = 0; k < ev.size(); k++) if (ev[k]["a"].str() == "reg") als = ev[k]["is"].size();
	for (size_t k = 0; k < ev.size(); k++)
	{
		c.mark((int) k);
		const J& e = ev[k];
		const std::string& a = e["a"].str();
		if (a == "shape") { shape_event(e, c); continue; }
		if (a == "wide") { wide_event(e, c); continue; }
		long i = e["i"].i();
		if (a == "new")
		{
			const std::string& kind = e["k"].str();
			size_t al = number(e["al"].i());
			bool threw = false;
			try
			{
				if (kind == "none") w.t[i].reset(new TT());
				else if (kind == "scalar") w.t[i].reset(al ? new TT((T) e["v"].i(), al) : new TT((T) e["v"].i()));
				else w.t[i].reset(al ? new TT(tensorshape(e["s"].sizes()), al) : new TT(tensorshape(e["s"].sizes())));
			}
			catch (std::runtime_error&) { threw = true; }
			SAME(threw, !e["r"].t(), "refusal to make a tensor with allocator " << e["al"].i());
		}
		else if (a == "reg")
		{
			alloc_builder& b = alloc_builder::get_instance();
			size_t al = number(i);
			bool r = e["k"].str() == "A" ? b.registertype<LedgerA>(al) : b.registertype<LedgerB>(al);
			SAME(r, e["r"].t(), "result of registering allocator " << i);
			for (long k = 0; k <= als; k++)
			{
				std::string is = k ? e["is"][(size_t) k - 1].str() : "D";
				iallocator* q = b.get(number(k));
				SAME(q != nullptr, is != "none", "existence of allocator " << k);
				SAME(b.check_registry<LedgerA>(number(k)), is == "A", "allocator " << k << " being of the first kind");
				SAME(b.check_registry<LedgerB>(number(k)), is == "B", "allocator " << k << " being of the second kind");
				SAME(b.check_registry<default_alloc>(number(k)), is == "D", "allocator " << k << " being the default");
			}
		}
		else if (a == "fill") assign_func<T>()(w.at(i), data(e["v"]));
		else if (a == "const") { const_init<T> f((T) e["v"].i()); f(w.at(i)); }
		else if (a == "assign")
		{
			const TT& src = w.at(e["j"].i());
			if (e["m"].str() == "set") assign_func<T>()(w.at(i), src);
			else assign_func<T>()(w.at(i), src, [](const T& x, const T& y) { return x + y; });
		}
		else if (a == "setshape") w.at(i).set_shape(tensorshape(e["s"].sizes()));
		else if (a == "alloc") SAME(w.at(i).allocate(), e["r"].t(), "result of allocating tensor " << i);
		else if (a == "allocs") SAME(w.at(i).allocate(tensorshape(e["s"].sizes())), e["r"].t(), "result of allocating tensor " << i << " with a shape");
		else if (a == "dealloc") SAME(w.at(i).deallocate(), e["r"].t(), "result of deallocating tensor " << i);
		else if (a == "copyfrom") SAME(w.at(i).copy_from(w.at(e["j"].i()), tensorshape(e["s"].sizes())), e["r"].t(), "result of copying into tensor " << i);
		else if (a == "copy")
		{
			const std::string& m = e["m"].str();
			long j = e["j"].i();
			if (m == "copy") w.t[i].reset(new TT(w.at(j)));
			else if (m == "clone") w.t[i].reset(w.at(j).clone());
			else if (m == "shape") w.t[i].reset(new TT(w.at(j), true));
			else if (m == "cloneshape") w.t[i].reset(w.at(j).clone(true));
			else if (m == "assign") w.at(i) = w.at(j);
			else { TT& x = w.at(j); TT& y = x; x = y; }
		}
		else if (a == "move")
		{
			const std::string& m = e["m"].str();
			long j = e["j"].i();
			if (m == "move") w.t[i].reset(new TT(std::move(w.at(j))));
			else if (m == "movefn") w.t[i].reset(w.at(j).move());
			else w.at(i) = std::move(w.at(j));
		}
		else if (a == "drop") w.t[i].reset();
		else if (a == "proto")
		{
			tenncor::tensor_proto p, q;
			w.at(e["j"].i()).serialize(&p);
			std::string wire; p.SerializeToString(&wire);
			REQUIRE(q.ParseFromString(wire), "the serialised form is not readable");
			const std::string& d = e["dmg"].str();
			if (d == "short") q.set_data(q.data().substr(0, q.data().size() - 1));
			else if (d == "long") q.set_data(q.data() + std::string(4096, 'x'));
			else if (d == "empty") q.set_data("");
			else if (d == "alloc") q.set_alloc_shape(0, q.alloc_shape(0) + 1);
			else if (d == "unknown") q.set_alloc_shape(0, 0);
			long al = e["al"].i();
			bool threw = false, r = false;
			try { r = al < 0 ? w.at(i).from_proto(q) : w.at(i).from_proto(q, number(al)); } catch (std::runtime_error&) { threw = true; }
			SAME(threw, e["no"].t(), "refusal of allocator " << al);
			SAME(r, e["r"].t(), "result of reading a (" << d << ") serialised form into tensor " << i);
		}
		else if (a == "ask")
		{
			TT& x = w.at(i); TT& y = w.at(e["j"].i());
			size_t n = e["n"].i();
			std::vector<T> d(n, 1);
			if (e["same"].i() < 2) SAME(x.is_same_size(y), e["same"].i() == 1, "same size of tensors " << i << " and " << e["j"].i());
			if (e["compat"].i() < 2) SAME(x.is_compatible_with(y), e["compat"].i() == 1, "compatibility of tensors " << i << " and " << e["j"].i());
			SAME(x.is_compatible_with(d), e["fits"].t(), "compatibility of tensor " << i << " with " << n << " elements");
			SAME(x.is_loosely_compatible_with(d), e["loose"].t(), "loose compatibility of tensor " << i << " with " << n << " elements");
			auto g = x.guess_shape(d); auto lg = x.loosely_guess_shape(d);
			SAMEL(g ? g->as_list() : L{}, e["guess"].sizes(), "guessed shape for " << n << " elements in tensor " << i);
			SAMEL(lg ? lg->as_list() : L{}, e["lguess"].sizes(), "loosely guessed shape for " << n << " elements in tensor " << i);
			long want = e["got"].i();
			if (want != -3)
			{
				bool threw = false; T v = 0;
				try { v = x.get(e["at"].sizes()); } catch (std::out_of_range&) { threw = true; }
				SAME(threw, want == -2, "rejection of coordinate " << lst(e["at"].sizes()) << " of tensor " << i);
				if (want >= 0) SAME(v, (T) want, "element at " << lst(e["at"].sizes()) << " of tensor " << i);
			}
		}
		else throw std::runtime_error("harness: unknown event " + a);
		observe(w, e["st"], c);
		memory(e["st"], als, c);
	}
	if (als)
	{
		w.t.clear();
		memory(J(), als, c);
	}
}

int main (int argc, char** argv) { return replay_main(argc, argv, play); }
