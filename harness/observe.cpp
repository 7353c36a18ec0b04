// Replays behaviours of spec/Observe.tla on producers and consumers built
// directly on the reactive layer.
// Compiled with EDGE_RCD, compares what is on record instead; compiled with RPC_RCD,
// replays behaviours of spec/Viewer.tla, with viewers connected to the recorder.
#include "graph/react/iobserver.hpp"
#include "replay.hpp"
#ifdef CSV_RCD
#include "edgeinfo/csv_record.hpp"
#endif
#ifdef RPC_RCD
#include "edgeinfo/grpc_vis_record.hpp"
#include <chrono>
#include <condition_variable>
#include <thread>
#endif
#include <map>
#include <set>

using namespace nnet;
typedef std::set<size_t> P;

struct Obj;
static std::map<long, Obj*> all;                                   // those that are there
static std::map<long, long> lost;                                  // losses a consumer was told of
static std::map<long, std::map<P, long> > told;                    // changes it was told of, by positions
static bool probing = false;
static std::map<long, P> probe;

struct Obj
{
	long id;
	std::string kind;
	Obj (long i, const std::string& k) : id(i), kind(k) { all[id] = this; }
	Obj (const Obj&) = delete;
	virtual ~Obj (void) { all.erase(id); }
	subject* sub (void);
	iobserver* obs (void);
};

struct Sub : subject
{
	Sub (void) {}
	Sub (const Sub& o) : subject(o) {}
	Sub (Sub&& o) : subject(std::move(o)) {}
	using subject::attach_killer;
	using subject::detach_killer;
};

struct Obs : iobserver
{
	Obs (std::vector<subject*> d, bool rec) : iobserver(d, rec) {}
	Obs (const Obs& o) : iobserver(o) {}
	Obs (Obs&& o) : iobserver(std::move(o)) {}
	using iobserver::add_dependency;
	using iobserver::remove_dependency;
	using iobserver::replace_dependency;
	using iobserver::add_ondeath_dependent;
	using iobserver::remove_ondeath_dependent;
	std::vector<subject*> deps (void) const { return dependencies_; }
};

template <bool FADES> struct PureSub : Obj, Sub
{
	std::string get_label (void) const override { return kind; }
	PureSub (long i, const std::string& k) : Obj(i, k) {}
	PureSub (long i, const PureSub& o) : Obj(i, o.kind), Sub(o) {}
	PureSub (long i, PureSub&& o) : Obj(i, o.kind), Sub(std::move((Sub&) o)) {}
	void death_on_noparent (void) override { if (FADES) delete this; }
};

static void tell (Obj* o, const std::unordered_set<size_t>& at)
{
	P p(at.begin(), at.end());
	if (probing) { probe[o->id].insert(p.begin(), p.end()); return; }
	told[o->id][p]++;
}

template <bool BREAKS, bool ONCE> struct PureObs : Obj, Obs
{
	std::string get_label (void) const override { return kind; }
	PureObs (long i, const std::string& k, std::vector<subject*> d, bool rec) : Obj(i, k), Obs(d, rec) {}
	PureObs (long i, const PureObs& o) : Obj(i, o.kind), Obs(o) {}
	PureObs (long i, PureObs&& o) : Obj(i, o.kind), Obs(std::move((Obs&) o)) {}
	void update (std::unordered_set<size_t> at) override { tell(this, at); if (ONCE && !probing) delete this; }
	void death_on_broken (void) override { lost[id]++; if (BREAKS) delete this; }
};

template <bool BREAKS, bool FADES> struct Both : Obj, Sub, Obs
{
	std::string get_label (void) const override { return kind; }
	Both (long i, const std::string& k, std::vector<subject*> d, bool rec) : Obj(i, k), Obs(d, rec) {}
	Both (long i, const Both& o) : Obj(i, o.kind), Sub(o), Obs(o) {}
	Both (long i, Both&& o) : Obj(i, o.kind), Sub(std::move((Sub&) o)), Obs(std::move((Obs&) o)) {}
	void update (std::unordered_set<size_t> at) override { tell(this, at); if (!probing) this->notify(UPDATE); }
	void death_on_broken (void) override { lost[id]++; if (BREAKS) delete this; }
	void death_on_noparent (void) override { if (FADES) delete this; }
};

subject* Obj::sub (void) { return dynamic_cast<subject*>(this); }
iobserver* Obj::obs (void) { return dynamic_cast<iobserver*>(this); }
static subject* S (long i) { return i ? all.at(i)->sub() : nullptr; }
static Obs* O (long i) { return dynamic_cast<Obs*>(all.at(i)); }
static Sub* U (long i) { return dynamic_cast<Sub*>(all.at(i)); }

template <typename F> static void byKind (const std::string& k, F f)
{
	if (k == "src") f((PureSub<false>*) 0);
	else if (k == "tmp") f((PureSub<true>*) 0);
	else if (k == "snk") f((PureObs<false, false>*) 0);
	else if (k == "brk") f((PureObs<true, false>*) 0);
	else if (k == "once") f((PureObs<true, true>*) 0);
	else if (k == "node") f((Both<true, false>*) 0);
	else if (k == "link") f((Both<false, false>*) 0);
	else if (k == "gen") f((Both<true, true>*) 0);
	else throw std::runtime_error("harness: kind " + k);
}

static void fresh (long x, const std::string& k, std::vector<subject*> d, bool rec)
{
	if (k == "src") new PureSub<false>(x, k);
	else if (k == "tmp") new PureSub<true>(x, k);
	else if (k == "snk") new PureObs<false, false>(x, k, d, rec);
	else if (k == "brk") new PureObs<true, false>(x, k, d, rec);
	else if (k == "once") new PureObs<true, true>(x, k, d, rec);
	else if (k == "node") new Both<true, false>(x, k, d, rec);
	else if (k == "link") new Both<false, false>(x, k, d, rec);
	else if (k == "gen") new Both<true, true>(x, k, d, rec);
	else throw std::runtime_error("harness: kind " + k);
}

static std::string show (const P& p) { std::stringstream s; s << "{"; for (size_t i : p) s << " " << i; s << " }"; return s.str(); }

#ifdef CSV_RCD
struct Rec : rocnnet_record::adjlist_record
{
	typedef std::set<std::tuple<const subject*, const iobserver*, size_t> > E;
	E edges (void) const
	{
		E r;
		for (auto& s : subj_nodes) for (auto& o : s.second) r.insert(std::make_tuple(s.first, o.obs_, o.idx_));
		return r;
	}
	std::set<const subject*> nodes (void) const { std::set<const subject*> r; for (auto& s : subj_nodes) r.insert(s.first); return r; }
};
static Rec* recorder = nullptr;
static void record (void)
{
	rocnnet_record::record_status::rec.reset(recorder = new Rec);
	rocnnet_record::record_status::rec_good = true;
}
#endif

#ifdef RPC_RCD
using namespace rocnnet_record;
std::unique_ptr<igraph_record> record_status::rec;
bool record_status::rec_good = false;

typedef std::tuple<std::string, std::string, size_t> Edge;         // consumer, producer, position
static std::chrono::seconds PATIENCE(20);                         // shorter once something is known to fail

struct Viewer
{
	std::unique_ptr<visor::GUINotifier::Stub> stub;
	visor::StringId me;
	grpc::ClientContext nctx, ectx;
	std::mutex mx;
	std::condition_variable cv;
	std::map<Edge, bool> edges;
	std::map<std::string, bool> gone;                                // last word on a producer
	std::map<std::string, long> news;                                // how often it was said to change
	int ended = 0, fine = 0;
	bool on = true;
	std::set<long> due;                                              // said to change since we last looked
	std::thread nt, et;

	Viewer (const std::string& addr, const std::string& name)
	{
		stub = visor::GUINotifier::NewStub(grpc::CreateChannel(addr, grpc::InsecureChannelCredentials()));
		me.set_id(name);
		nctx.set_wait_for_ready(true); ectx.set_wait_for_ready(true);
		nt = std::thread([this]
		{
			auto r = stub->SubscribeNode(&nctx, me);
			visor::NodeMessage m;
			while (r->Read(&m))
			{
				std::lock_guard<std::mutex> lk(mx);
				bool g = m.status() == visor::NodeMessage_NodeStatus::NodeMessage_NodeStatus_REMOVE;
				gone[m.id()] = g;
				if (!g) news[m.id()]++;
				cv.notify_all();
			}
			finish(r->Finish());
		});
		et = std::thread([this]
		{
			auto r = stub->SubscribeEdge(&ectx, me);
			visor::EdgeMessage m;
			while (r->Read(&m))
			{
				std::lock_guard<std::mutex> lk(mx);
				edges[Edge(m.obsid(), m.subid(), m.idx())] = m.status() == visor::EdgeMessage_EdgeStatus::EdgeMessage_EdgeStatus_ADD;
				cv.notify_all();
			}
			finish(r->Finish());
		});
	}
	void finish (grpc::Status s)
	{
		std::lock_guard<std::mutex> lk(mx);
		ended++;
		if (s.ok()) fine++;
		cv.notify_all();
	}
	template <typename F> bool await (F f) { std::unique_lock<std::mutex> lk(mx); return cv.wait_for(lk, PATIENCE, f); }
	void over (bool proper, const char* when)
	{
		REQUIRE(await([&] { return ended == 2; }), "a viewer is not let go when " << when);
		REQUIRE(!proper || fine == 2, "a viewer is not let go properly when " << when);
		nt.join(); et.join();
		on = false;
	}
};
static std::vector<Viewer*> viewers;
static Obj* mark[2];
static std::string address;
static std::map<long, std::string> uid;                            // of all there ever was
static std::map<long, bool> producer;
static std::set<long> changed, ended;                              // while the recorder runs

static void startRecorder (void)
{
	static long n = 0;
	address = "unix-abstract:verif-" + std::to_string(getpid()) + "-" + std::to_string(++n);
	record_status::rec.reset(new rpc_record(address, 1));
	address += ":1";
	record_status::rec_good = true;
	rpc_record* r = (rpc_record*) record_status::rec.get();
	mark[0] = new PureSub<false>(0, "src"); mark[1] = new PureObs<false, false>(-1, "snk", {}, false);
	all.clear();
	r->data_update(mark[0]->sub());                                  // so that a viewer knows it has arrived
	r->edge_capture(mark[1]->obs(), mark[0]->sub(), 0);
}

static void settle (Viewer& v, const std::set<Edge>& links, const std::set<Edge>& all_links)
{
	std::string why;
	bool ok = v.await([&]
	{
		std::stringstream s;
		std::set<Edge> got;
		std::string m = mark[0]->sub()->get_uid();
		for (auto& e : v.edges) // the links of a producer go with it
			if (e.second && std::get<1>(e.first) != m && !(v.gone.count(std::get<1>(e.first)) && v.gone[std::get<1>(e.first)])) got.insert(e.first);
		for (auto& l : links) if (!got.count(l)) s << " a link at position " << std::get<2>(l) << " is not seen;";
		for (auto& l : got) if (!all_links.count(l)) s << " a link at position " << std::get<2>(l) << " is seen that does not exist;";
		for (auto& u : uid) if (producer[u.first])
		{
			bool is = all.count(u.first), seen = v.gone.count(u.second);
			if (is && seen && v.gone[u.second]) s << " producer " << u.first << " is seen to be gone;";
			if (!is && ended.count(u.first) && (!seen || !v.gone[u.second])) s << " producer " << u.first << " is not seen to be gone;";
			if (is && v.due.count(u.first) && !v.news[u.second]) s << " producer " << u.first << " is not seen to have changed;";
			if (v.news[u.second] && !changed.count(u.first)) s << " producer " << u.first << " is seen to have changed;";
		}
		return (why = s.str()).empty();
	});
	REQUIRE(ok, "what a viewer sees:" << why);
	std::lock_guard<std::mutex> lk(v.mx);
	v.due.clear();
	v.news.clear();
}

static void stopRecorder (bool deaf)
{
	record_status::rec.reset();
	for (Viewer* v : viewers) if (v->on) v->over(true, "the recorder stops");
	if (deaf)
	{
		record_status::rec.reset(new rpc_record("unix:/nonexistent/verif/s", 1));
		record_status::rec_good = true;
	}
}
#endif

static void play (const J& b, Ctx& ctx)
{
	all.clear();
#ifdef CSV_RCD
	record();
#endif
#ifdef RPC_RCD
	viewers.clear(); uid.clear(); producer.clear(); changed.clear(); ended.clear();
	bool up = true;
	startRecorder();
#endif
	const auto& ev = b["ev"].a;
	for (size_t n = 0; n < ev.size(); n++)
	{
		ctx.mark((int) n);
		const J& e = ev[n];
		std::string a = e["a"].str(), k = e["k"].str();
		long x = e["x"].i(), y = e["y"].i();
		size_t i = (size_t) e["i"].i() - 1;
		lost.clear(); told.clear();
		if (a == "new")
		{
			std::vector<subject*> d;
			for (auto& s : e["d"].a) d.push_back(S(s.i()));
			fresh(x, k, d, e["r"][(size_t) x - 1].t());
		}
		else if (a == "add") O(x)->add_dependency(S(y));
		else if (a == "remove")
		{
			bool refused = false;
			try { O(x)->remove_dependency(i); } catch (std::exception&) { refused = true; }
			REQUIRE(refused == (k == "no"), "taking away producer " << i << " is " << (refused ? "refused" : "not refused"));
		}
		else if (a == "replace") O(x)->replace_dependency(S(y), i);
		else if (a == "tie") { if (k == "a") O(x)->add_ondeath_dependent(S(y)); else U(y)->attach_killer(all.at(x)->obs()); }
		else if (a == "untie") { if (k == "a") O(x)->remove_ondeath_dependent(S(y)); else U(y)->detach_killer(all.at(x)->obs()); }
		else if (a == "destroy") delete all.at(x);
		else if (a == "steal") S(x)->steal_observers(S(y));
		else if (a == "copy") byKind(k, [&](auto* t) { typedef typename std::remove_reference<decltype(*t)>::type K; new K(x, *dynamic_cast<const K*>(all.at(y))); });
		else if (a == "move") byKind(k, [&](auto* t) { typedef typename std::remove_reference<decltype(*t)>::type K; new K(x, std::move(*dynamic_cast<K*>(all.at(y)))); });
		else if (a == "assign" || a == "moveto")
		{
			subject* sx = all.at(x)->sub(); iobserver* ox = all.at(x)->obs();
			subject* sy = all.at(y)->sub(); iobserver* oy = all.at(y)->obs();
			if (a == "assign") { if (sx) *sx = *sy; if (ox) *ox = *oy; }
			else { if (sx) *sx = std::move(*sy); if (ox) *ox = std::move(*oy); }
		}
		else if (a == "notify") S(x)->notify(UPDATE);
		else if (a == "break") S(x)->notify(UNSUBSCRIBE);
#ifdef RPC_RCD
		else if (a == "view")
		{
			viewers.push_back(new Viewer(address, "viewer" + std::to_string(x)));
			Viewer* v = viewers.back();
			std::string m = mark[0]->sub()->get_uid();
			REQUIRE(v->await([&] { return v->gone.count(m) && !v->edges.empty(); }), "a viewer is told nothing");
			std::lock_guard<std::mutex> lk(v->mx);
			for (long c : changed) v->due.insert(c);
		}
		else if (a == "leave")
		{
			Viewer& v = *viewers[x - 1];
			if (k == "asks")
			{
				grpc::ClientContext c; visor::Empty r;
				c.set_deadline(std::chrono::system_clock::now() + PATIENCE);
				REQUIRE(v.stub->EndSubscription(&c, v.me, &r).ok(), "a viewer cannot take its leave");
			}
			else { v.nctx.TryCancel(); v.ectx.TryCancel(); }
			v.over(k == "asks", "it takes its leave");
			ctx.checks++;
		}
		else if (a == "settle") {}
		else if (a == "stop") { stopRecorder(k == "deaf"); up = false; ctx.checks++; }
#endif
		else throw std::runtime_error("harness: event " + a);

		const auto& st = e["st"].a;
		auto gone = [&](size_t o) { return st[o].size() == 1 && st[o][0].i() == -1; };
		for (size_t o = 0; o < st.size(); o++)
		{
			long id = (long) o + 1;
			bool is = all.count(id);
			REQUIRE(is == !gone(o), "object " << id << (is ? " is still there" : " is gone"));
			ctx.checks++;
			if (!is) continue;
			REQUIRE(lost[id] == e["lost"].a[o].i(), "consumer " << id << " is told " << lost[id] << " times of losing a producer, expected " << e["lost"].a[o].i());
			Obs* c = O(id);
			if (!c) continue;
			std::vector<subject*> d = c->deps();
			REQUIRE(d.size() == st[o].size(), "consumer " << id << " has " << d.size() << " places for producers, expected " << st[o].size());
			for (size_t j = 0; j < d.size(); j++)
				REQUIRE(d[j] == S(st[o][j].i()), "consumer " << id << " has another producer at " << j << " than " << st[o][j].i());
			ctx.checks++;
		}
#ifdef RPC_RCD
		for (auto& kv : all) { uid[kv.first] = kv.second->sub() ? kv.second->sub()->get_uid() : kv.second->obs()->get_uid(); producer[kv.first] = kv.second->sub(); }
		if (!up) continue;
		for (auto& u : uid) if (!all.count(u.first)) ended.insert(u.first);
		if (a == "notify")
		{
			std::set<long> c; c.insert(x);
			for (auto& t : e["tell"].a) c.insert(t["o"].i());
			for (long o : c) if (producer[o]) { changed.insert(o); for (Viewer* v : viewers) v->due.insert(o); }
		}
		if (a == "settle" || n + 1 == ev.size())
		{
			std::set<Edge> links, every;                             // links not to be recorded may be seen
			for (auto& kv : all)
			{
				const auto& d = st[kv.first - 1];
				for (size_t j = 0; j < d.size(); j++) if (d[j].i())
				{
					Edge l(uid[kv.first], uid[d[j].i()], j);
					every.insert(l);
					if (e["r"].a[kv.first - 1].t()) links.insert(l);
				}
			}
			for (Viewer* v : viewers) if (v->on) { settle(*v, links, every); ctx.checks++; }
		}
		continue;
#endif
#ifdef CSV_RCD
		Rec::E links;
		std::set<const subject*> subs;
		for (auto& kv : all)
		{
			if (kv.second->sub()) subs.insert(kv.second->sub());
			if (!e["r"].a[kv.first - 1].t()) continue;
			const auto& d = st[kv.first - 1];
			for (size_t j = 0; j < d.size(); j++) if (d[j].i()) links.insert(std::make_tuple(S(d[j].i()), kv.second->obs(), j));
		}
		Rec::E got = recorder->edges();
		for (auto& l : links) REQUIRE(got.count(l), "a link at position " << std::get<2>(l) << " is not on record");
		for (auto& l : got) REQUIRE(links.count(l), "a link at position " << std::get<2>(l) << " is on record that does not exist");
		for (const subject* s : recorder->nodes()) REQUIRE(subs.count(s), "a producer is on record that is gone");
		ctx.checks++;
		continue;
#endif
		if (a == "notify")
		{
			std::map<long, std::map<P, long> > want;
			const auto& before = ev[n - 1]["st"].a;
			std::set<long> dying;
			for (auto& t : e["tell"].a)
			{
				long o = t["o"].i();
				P p;
				const J& d = before[o - 1];
				for (size_t j = 0; j < d.size(); j++) if (d[j].i() == t["s"].i()) p.insert(j);
				if (p.empty()) continue;
				want[o][p] += t["n"].i();
				if (gone(o - 1)) dying.insert(o);
			}
			for (auto& w : want)
			{
				auto& got = told[w.first];
				ctx.checks++;
				if (dying.count(w.first))
				{
					REQUIRE(got.size() == 1 && got.begin()->second == 1 && w.second.count(got.begin()->first), "consumer " << w.first << " is not told of the change once");
					continue;
				}
				for (auto& q : w.second)
					REQUIRE(got[q.first] == q.second, "consumer " << w.first << " is told of a change at " << show(q.first) << " " << got[q.first] << " times, expected " << q.second);
				REQUIRE(got.size() == w.second.size(), "consumer " << w.first << " is told of changes of producers that did not change");
			}
			for (auto& t : told) REQUIRE(want.count(t.first), "consumer " << t.first << " is told of a change of a producer it does not have");
		}
		// who is told by whom, at which positions
		probing = true;
		for (auto& kv : all)
		{
			subject* s = kv.second->sub();
			iobserver* c = kv.second->obs();
			std::set<long> aud;
			if (s)
			{
				probe.clear();
				s->notify(UPDATE);
			}
			for (size_t o = 0; o < st.size(); o++) if (!gone(o))
			{
				P p;
				for (size_t j = 0; j < st[o].size(); j++) if (st[o][j].i() == kv.first) p.insert(j);
				if (s && !p.empty())
				{
					aud.insert(o + 1);
					REQUIRE(probe[o + 1] == p, "consumer " << o + 1 << " is told by producer " << kv.first << " at " << show(probe[o + 1]) << ", expected " << show(p));
				}
				if (iobserver* ob = all.at(o + 1)->obs()) if (s)
					REQUIRE(ob->has_subject(s) == !p.empty(), "consumer " << o + 1 << (p.empty() ? " reports" : " does not report") << " having producer " << kv.first);
			}
			(void) c;
			if (s)
			{
				for (auto& q : probe) REQUIRE(aud.count(q.first) || q.second.empty(), "producer " << kv.first << " tells " << q.first << " which does not have it");
				REQUIRE(s->n_audience() == aud.size() && s->no_audience() == aud.empty(), "producer " << kv.first << " reports " << s->n_audience() << " consumers, expected " << aud.size());
				ctx.checks++;
			}
		}
		probing = false;
	}
	while (!all.empty()) delete all.begin()->second;
#ifdef RPC_RCD
	if (up) stopRecorder(false);
	record_status::rec.reset();
	delete mark[0]; delete mark[1];
	for (Viewer* v : viewers) delete v;
	viewers.clear();
#endif
}

#ifdef RPC_RCD
int main (int argc, char** argv)
{
	if (argc > 2) PATIENCE = std::chrono::seconds(4);
	auto often = [](const J& b, Ctx& ctx) { for (int i = 0; i < 30; i++) play(b, ctx); }; // what fails depends on timing
	if (argc > 2) return replay_main(argc, argv, often, 30, 32, 1);
	return replay_main(argc, argv, play, 100, 32, 1);
}
#define main unused_main
#endif

int main (int argc, char** argv) { return replay_main(argc, argv, play, 20, 32); }
