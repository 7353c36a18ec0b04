// Replays behaviours of Cache.tla into the shareable cache.  Each consumer is
// a thread of its own that is told when to ask; "wait" means it must not
// return before something happens.  With "free" behaviours producer and
// consumers run unsynchronised and the outcome is printed instead.
#include "replay.hpp"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <chrono>
#include <sys/syscall.h>
#include "thread/shareable_cache.hpp"

using Item = std::pair<std::string, long>;
using Cache = nnet::shareable_cache<std::string, Item>;

struct Consumer
{
	Cache* cache;
	std::shared_ptr<nnet::cache_node<Item> > iter;
	std::mutex m;
	std::condition_variable cv;
	bool asked = false, busy = false, quit = false;
	std::atomic<bool> inside{false};
	std::atomic<long> tid{0};
	std::experimental::optional<Item> got;
	std::thread th;

	Consumer (Cache* c) : cache(c), th([this] { loop(); }) {}
	void loop (void)
	{
		tid = (long) syscall(SYS_gettid);
		std::unique_lock<std::mutex> lk(m);
		while (true)
		{
			cv.wait(lk, [this] { return asked || quit; });
			if (quit) return;
			asked = false;
			lk.unlock();
			inside = true;
			auto v = cache->get_latest(iter);
			inside = false;
			lk.lock();
			got = v;
			busy = false;
			cv.notify_all();
		}
	}
	void ask (void)
	{
		std::unique_lock<std::mutex> lk(m);
		asked = busy = true;
		cv.notify_all();
	}
	// asleep inside the cache (it has nothing else to sleep on there)
	bool asleep (void)
	{
		if (!inside) return false;
		std::ifstream in("/proc/self/task/" + std::to_string(tid) + "/stat");
		std::string l; std::getline(in, l);
		size_t p = l.rfind(')');
		return p != std::string::npos && l.size() > p + 2 && l[p + 2] == 'S' && inside;
	}
	bool done (int ms)
	{
		std::unique_lock<std::mutex> lk(m);
		return cv.wait_for(lk, std::chrono::milliseconds(ms), [this] { return !busy; });
	}
};

static void play (const J& b, Ctx& ctx)
{
	Cache* cache = new Cache([] (const Item& i) { return i.first; });
	std::vector<Consumer*> cs;
	for (long i = 0; i < b["nc"].i(); i++) cs.push_back(new Consumer(cache)); // threads are abandoned at exit of the process
	auto& ev = b["ev"].a;
	auto woken = [&] (const J& e)
	{
		for (auto& w : e["wake"].a)
		{
			Consumer* c = cs[w.i() - 1];
			REQUIRE(c->done(4000), "consumer " << w.i() << " is still waiting");
			REQUIRE(!c->got, "consumer " << w.i() << " returned from waiting with a value");
			ctx.checks++;
		}
	};
	for (size_t i = 0; i < ev.size(); i++)
	{
		const J& e = ev[i];
		ctx.mark(i);
		std::string a = e["a"].str();
		if (a == "add")
		{
			cache->add_latest(Item("k" + std::to_string(e["k"].i()), e["v"].i()));
			woken(e);
		}
		else if (a == "escape")
		{
			cache->escape_wait();
			woken(e);
		}
		else if (a == "get")
		{
			Consumer* c = cs[e["c"].i() - 1];
			c->ask();
			if (e["v"].i() == 0)
			{
				auto until = std::chrono::steady_clock::now() + std::chrono::seconds(4);
				while (!c->asleep() && !c->done(0) && std::chrono::steady_clock::now() < until) std::this_thread::yield();
				if (c->done(0)) REQUIRE(!c->got, "consumer " << e["c"].i() << " got entry " << c->got->second << " where nothing is left to read");
			}
			else
			{
				REQUIRE(c->done(4000), "consumer " << e["c"].i() << " waits although entry " << e["v"].i() << " is unread");
				REQUIRE((bool) c->got, "consumer " << e["c"].i() << " got nothing although entry " << e["v"].i() << " is unread");
				REQUIRE(c->got->second == e["v"].i(), "consumer " << e["c"].i() << " got entry " << c->got->second << " instead of " << e["v"].i());
			}
			ctx.checks++;
		}
		else throw std::runtime_error("harness: event " + a);
	}
}

int main (int argc, char** argv) { return replay_main(argc, argv, play, 30, 16); }
