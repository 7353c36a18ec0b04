// Replays behaviours of Stop.tla into stoppable threads.  After each event
// exactly the workers the specification says have ended must have; whatever
// waits for a worker is done beside and must be over exactly when that ended.
// The request that comes while its worker is about to wait is made while the
// worker is kept from going to sleep, where it can be.
#include "replay.hpp"
#include <thread>
#include <atomic>
#include <chrono>
#include <mutex>
#include <condition_variable>
#include <set>
#include <map>
#include <dlfcn.h>
#include <pthread.h>
#include "thread/stoppable_thread.hpp"

struct Worker
{
	std::string kind;
	std::atomic<bool> started{false}, rel{false}, ended{false}, passed{false};
	std::atomic<bool> hold{false}, holding{false}, go{false};
	std::atomic<long> token{0};
};
static thread_local Worker* current = nullptr;
static void nap (int us = 100) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }
template <typename F> static bool within (int ms, F f)
{
	auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
	while (!f()) { if (std::chrono::steady_clock::now() > until) return f(); nap(50); }
	return true;
}
static const int LONG = 8000;

#ifndef __SANITIZE_THREAD__
static void about_to_sleep (void)
{
	Worker* w = current;
	if (w && w->hold.exchange(false))
	{
		w->holding = true;
		within(30, [w] { return (bool) w->go; });
		w->holding = false;
	}
}
extern "C" int pthread_cond_wait (pthread_cond_t* c, pthread_mutex_t* m)
{
	static auto real = (int (*) (pthread_cond_t*, pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_cond_wait");
	about_to_sleep();
	return real(c, m);
}
extern "C" int pthread_cond_timedwait (pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
	static auto real = (int (*) (pthread_cond_t*, pthread_mutex_t*, const struct timespec*)) dlsym(RTLD_NEXT, "pthread_cond_timedwait");
	about_to_sleep();
	return real(c, m, t);
}
extern "C" int pthread_cond_clockwait (pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
	static auto real = (int (*) (pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)) dlsym(RTLD_NEXT, "pthread_cond_clockwait");
	about_to_sleep();
	return real(c, m, k, t);
}
#endif

struct End { Worker* w; ~End (void) { current = nullptr; w->ended = true; } };
static void work (Worker* w, long token, std::string kind)
{
	End e{w};
	current = w;
	w->token = token;
	w->started = true;
	auto released = [w] { while (!w->rel) nap(); };
	if (kind == "wait") nnet::stop_wait();
	else if (kind == "poll") for (;;) { nnet::stop_throw(); nap(); }
	else if (kind == "work") released();
	else if (kind == "late") { released(); nnet::stop_wait(); }
	else if (kind == "check") { released(); nnet::stop_throw(); }
	w->passed = true;
}

static void play (const J& b, Ctx& ctx)
{
	using TH = nnet::stoppable_thread;
	// all of it is abandoned at the end: workers nobody asks never end
	auto& hs = *new std::vector<TH*>(b["nh"].i() + 1, nullptr);
	auto& ws = *new std::vector<Worker*>(1, nullptr);
	struct Op { std::string what; std::atomic<bool> done{false}; };
	std::map<long, Op*> ops;
	auto begin = [&] (long h, std::string what, std::function<void(void)> f)
	{
		Op* o = new Op; o->what = what;
		ops[h] = o;
		std::thread([o, f] { f(); o->done = true; }).detach();
	};
	auto& ev = b["ev"].a;
	for (size_t i = 0; i < ev.size(); i++)
	{
		const J& e = ev[i];
		ctx.mark(i);
		std::string a = e["a"].str(), k = e["k"].str();
		long h = e["h"].i(), g = e["g"].i(), n = e["w"].i();
		std::set<long> gone;
		if (a == "new") hs[h] = new TH();
		else if (a == "start")
		{
			Worker* w = new Worker; w->kind = k;
			ws.push_back(w);
			if (hs[h]) *hs[h] = TH(work, w, 7 * n, k);
			else hs[h] = new TH(work, w, 7 * n, k);
			REQUIRE(within(LONG, [w] { return (bool) w->started; }), "thread " << n << " does not start");
			REQUIRE(w->token == 7 * n, "thread " << n << " is given " << w->token << " instead of " << 7 * n);
		}
		else if (a == "stop")
		{
			TH* t = hs[h];
			if (k == "two")
			{
				std::thread other([t] { t->stop(); });
				t->stop();
				other.join();
			}
			else t->stop();
		}
		else if (a == "race")
		{
			Worker* w = ws[n];
			w->hold = true;
			w->rel = true;
			within(100, [w] { return w->holding || w->ended; });
			hs[h]->stop();
			w->go = true;
		}
		else if (a == "release") ws[n]->rel = true;
		else if (a == "join") { TH* t = hs[h]; if (k == "begin") begin(h, a, [t] { t->join(); }); else t->join(); }
		else if (a == "detach") hs[h]->detach();
		else if (a == "destroy") { TH* t = hs[h]; hs[h] = nullptr; if (k == "begin") begin(h, a, [t] { delete t; }); else delete t; }
		else if (a == "move") hs[h] = new TH(std::move(*hs[g]));
		else if (a == "moveto")
		{
			TH* t = hs[h]; TH* s = hs[g];
			if (k == "begin") begin(h, a, [t, s] { *t = std::move(*s); });
			else *t = std::move(*s);
		}
		else throw std::runtime_error("harness: event " + a);
		std::set<long> fin, ended, thrown, jn;
		for (auto& x : e["fin"].a) fin.insert(x.i());
		for (auto& x : e["ended"].a) ended.insert(x.i());
		for (auto& x : e["thrown"].a) thrown.insert(x.i());
		for (auto& x : e["jn"].a) jn.insert(x.i());
		for (size_t j = 1; j < ws.size(); j++)
		{
			Worker* w = ws[j];
			if (ended.count(j))
			{
				REQUIRE(within(LONG, [w] { return (bool) w->ended; }), "thread " << j << " (" << w->kind << ") goes on although it was asked to stop or is done");
				if (w->kind == "check") REQUIRE(w->passed != (bool) thrown.count(j), "thread " << j << (w->passed ? " passes the check although" : " is stopped at the check although not") << " asked to stop before");
			}
			else REQUIRE(!w->ended, "thread " << j << " (" << w->kind << ") ended although nobody asked it to");
			ctx.checks++;
		}
		for (long f : fin)
		{
			Op* o = ops.at(f);
			REQUIRE(within(LONG, [o] { return (bool) o->done; }), o->what << " of handle " << f << " is not over although the thread ended");
			ops.erase(f);
			ctx.checks++;
		}
		for (auto& o : ops) REQUIRE(!o.second->done, o.second->what << " of handle " << o.first << " is over although the thread is running");
		for (size_t j = 1; j < hs.size(); j++) if (hs[j] && !ops.count(j))
		{
			REQUIRE(hs[j]->joinable() == (bool) jn.count(j), "handle " << j << " is " << (jn.count(j) ? "not " : "") << "to be joined");
			ctx.checks++;
		}
	}
	nap(1500);
	for (size_t j = 1; j < ws.size(); j++)
	{
		bool end = false;
		for (auto& x : ev.back()["ended"].a) end = end || x.i() == (long) j;
		REQUIRE(end || !ws[j]->ended, "thread " << j << " (" << ws[j]->kind << ") ended although nobody asked it to");
	}
	for (auto& o : ops) REQUIRE(!o.second->done, o.second->what << " of handle " << o.first << " is over although the thread is running");
}

int main (int argc, char** argv) { return replay_main(argc, argv, play, 40, 8, 6); }
