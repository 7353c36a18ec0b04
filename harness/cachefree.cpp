// One producer and several consumers of the shareable cache running freely
// (under ThreadSanitizer).  Prints what each consumer received, with how many
// entries had been produced before and after each request, for validation
// against CacheTrace.tla.
// usage: cachefree SEED RUNS
#include <functional>
#include <memory>
#include <unistd.h>
#include <thread>
#include <atomic>
#include <chrono>
#include <random>
#include <iostream>
#include <sstream>
#include <mutex>
#include <condition_variable>
#include "thread/shareable_cache.hpp"

using Item = std::pair<std::string, long>;
using Cache = nnet::shareable_cache<std::string, Item>;

int main (int argc, char** argv)
{
	std::mt19937 rng(atol(argv[1]));
	auto rnd = [&] (int n) { return (int) (rng() % n); };
	long runs = atol(argv[2]);
	for (long r = 0; r < runs; r++)
	{
		Cache cache([] (const Item& i) { return i.first; });
		int n = 3 + rnd(22), nk = 1 + rnd(4), nc = 1 + rnd(3);
		std::vector<int> keys, naps;
		for (int i = 0; i < n; i++) { keys.push_back(1 + rnd(nk)); naps.push_back(rnd(6) ? 0 : 1 + rnd(150)); }
		keys.push_back(0); naps.push_back(0); // the last one: a key of its own
		std::atomic<long> begun{0}, done{0};
		std::atomic<int> left{nc};
		std::vector<std::string> outs(nc);
		std::vector<int> cnaps;
		for (int i = 0; i < nc * 64; i++) cnaps.push_back(rnd(5) ? 0 : 1 + rnd(120));
		std::vector<std::thread> th;
		for (int c = 0; c < nc; c++) th.emplace_back([&, c]
		{
			std::shared_ptr<nnet::cache_node<Item> > iter;
			std::stringstream ss;
			long last = 0;
			for (int i = 0; last != n + 1; i++)
			{
				if (int z = cnaps[c * 64 + i % 64]) std::this_thread::sleep_for(std::chrono::microseconds(z));
				long b = done;
				auto v = cache.get_latest(iter);
				long e = begun;
				if (v) { last = v->second; ss << (ss.tellp() > 0 ? "," : "") << "[" << b << "," << last << "," << e << "]"; }
			}
			outs[c] = ss.str();
			left--;
		});
		for (int i = 0; i <= n; i++)
		{
			if (naps[i]) std::this_thread::sleep_for(std::chrono::microseconds(naps[i]));
			begun++;
			cache.add_latest(Item("k" + std::to_string(keys[i]), i + 1));
			done++;
		}
		// every consumer gets to the last entry without further help
		for (int i = 0; left > 0; i++)
		{
			if (i > 5000)
			{
				std::cout << "{\"stuck\":" << left << ",\"run\":" << r << "}" << std::endl;
				_exit(0);
			}
			std::this_thread::sleep_for(std::chrono::milliseconds(1));
		}
		for (auto& t : th) t.join();
		for (int c = 0; c < nc; c++)
		{
			std::cout << "{\"keys\":[";
			for (int i = 0; i <= n; i++) std::cout << (i ? "," : "") << keys[i];
			std::cout << "],\"got\":[" << outs[c] << "]}" << std::endl;
		}
	}
	std::cout << "{\"runs\":" << runs << "}" << std::endl;
	return 0;
}
