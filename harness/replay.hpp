// Runs one behaviour per input line, each in its own process, so that a crash
// or a sanitizer report in the implementation is attributed to the behaviour
// that caused it.  Prints one JSON line per behaviour that does not conform.
#pragma once
extern "C" void __gcov_dump (void) __attribute__((weak));
#include "json.hpp"
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

struct Mismatch : std::runtime_error { using std::runtime_error::runtime_error; };

struct Ctx
{
	int at = -1;       // event index reached
	long checks = 0;   // comparisons made
	int fd = -1;
	void mark (int i)  // survives a crash of this process
	{
		at = i;
		int32_t v = i;
		if (fd >= 0) { ssize_t r = pwrite(fd, &v, 4, 0); (void) r; }
	}
};

#define REQUIRE(cond, msg) do { if (!(cond)) { std::stringstream ss_; ss_ << msg; throw Mismatch(ss_.str()); } } while (0)

inline std::string jesc (const std::string& s)
{
	std::string r;
	for (char c : s)
	{
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if ((unsigned char) c < 32) r += ' ';
		else r += c;
	}
	return r;
}


struct Outcome { bool ok; std::string kind, msg, err; int at; long item; long done; long checks; };

// plays lines[from..to) in one child process
inline Outcome play_range (const std::vector<std::string>& lines, long from, long to,
	std::function<void(const J&, Ctx&)> play, unsigned limit_s, int mfd)
{
	int pfd[2];
	if (pipe(pfd)) throw std::runtime_error("pipe");
	int32_t m0[2] = {-1, (int32_t) from}; if (pwrite(mfd, m0, 8, 0) != 8) throw std::runtime_error("pwrite");
	char et[] = "/tmp/verif_err_XXXXXX";
	int efd = mkstemp(et); unlink(et);
	std::cout.flush();
	pid_t pid = fork();
	if (pid < 0) throw std::runtime_error("fork");
	if (pid == 0)
	{
		close(pfd[0]);
		dup2(efd, 2);
		int nul = open("/dev/null", O_WRONLY);
		dup2(nul, 1);
		signal(SIGALRM, SIG_DFL);
		std::string res = "ok";
		int code = 0;
		long checks = 0;
		for (long i = from; i < to && code == 0; i++)
		{
			int32_t it = (int32_t) i; ssize_t r = pwrite(mfd, &it, 4, 4); (void) r;
			alarm(limit_s);
			Ctx ctx; ctx.fd = mfd;
			ctx.mark(-1);
			try { J b = jparse(lines[i]); play(b, ctx); }
			catch (Mismatch& e) { res = std::string("M") + e.what(); code = 10; }
			catch (std::exception& e)
			{
				std::string w = e.what();
				code = w.compare(0, 8, "harness:") == 0 ? 12 : 11;
				res = (code == 12 ? "H" : "E") + w;
			}
			catch (...) { res = "Eunknown exception"; code = 11; }
			checks += ctx.checks;
		}
		std::string out = std::to_string(checks) + " " + res;
		ssize_t r = write(pfd[1], out.data(), out.size()); (void) r;
		if (__gcov_dump) __gcov_dump(); // only in builds measuring coverage
		_exit(code);
	}
	close(pfd[1]);
	std::string out; char buf[4096]; ssize_t n;
	while ((n = read(pfd[0], buf, sizeof buf)) > 0) out.append(buf, n);
	close(pfd[0]);
	int st = 0; waitpid(pid, &st, 0);
	int32_t m[2] = {-1, (int32_t) from}; if (pread(mfd, m, 8, 0) != 8) throw std::runtime_error("pread");
	Outcome o;
	o.at = m[0]; o.item = m[1];
	{ lseek(efd, 0, SEEK_SET); while (o.err.size() < 6000 && (n = read(efd, buf, sizeof buf)) > 0) o.err.append(buf, n); close(efd); }
	char* endp; o.checks = out.empty() ? 0 : strtol(out.c_str(), &endp, 10);
	o.ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
	if (o.ok) { o.done = to - from; return o; }
	o.done = o.item - from + 1;
	o.kind = "crash";
	if (WIFEXITED(st) && WEXITSTATUS(st) >= 10 && WEXITSTATUS(st) <= 12)
	{
		o.kind = WEXITSTATUS(st) == 10 ? "mismatch" : WEXITSTATUS(st) == 11 ? "exception" : "harness";
		size_t sp = out.find(' ');
		o.msg = sp == std::string::npos ? out : out.substr(sp + 2);
	}
	else
	{
		if (WIFSIGNALED(st)) o.msg = WTERMSIG(st) == SIGALRM ? "does not terminate" : std::string("signal ") + std::to_string(WTERMSIG(st));
		else o.msg = "exit status " + std::to_string(WEXITSTATUS(st));
		size_t q = o.err.find("ERROR: AddressSanitizer");
		if (q == std::string::npos) q = o.err.find("Assertion");
		if (q == std::string::npos) q = o.err.find("terminate called");
		if (q != std::string::npos) o.msg += ": " + o.err.substr(q, 400);
	}
	return o;
}

// usage: harness FILE [index [last]]   (FILE: one JSON behaviour per line)
// Behaviours run in batches, one process per batch; one that fails is run
// again alone in a fresh process, and "first" tells from which line on the
// process had been running when only the batch fails.
inline int replay_main (int argc, char** argv, std::function<void(const J&, Ctx&)> play, unsigned limit_s = 30, long batch = 16, long max_bad = 200)
{
	if (argc < 2) { std::cerr << "usage: " << argv[0] << " FILE [index [last]]\n"; return 2; }
	std::ifstream in(argv[1]);
	if (!in) { std::cerr << "cannot read " << argv[1] << "\n"; return 2; }
	std::vector<std::string> lines;
	for (std::string line; std::getline(in, line);) if (!line.empty()) lines.push_back(line);
	long lo = 0, hi = (long) lines.size();
	if (argc > 2) { lo = atol(argv[2]); hi = argc > 3 ? atol(argv[3]) + 1 : lo + 1; batch = hi - lo; }
	if (hi > (long) lines.size()) { std::cerr << "no such behaviour\n"; return 2; }
	char tmpl[] = "/tmp/verif_mark_XXXXXX";
	int mfd = mkstemp(tmpl); unlink(tmpl);
	long ran = 0, bad = 0, checks = 0;
	for (long i = lo; i < hi;)
	{
		long to = std::min(hi, i + batch);
		Outcome o = play_range(lines, i, to, play, limit_s, mfd);
		ran += o.done; checks += o.checks;
		if (!o.ok)
		{
			bad++;
			long first = i;
			if (o.item > i)
			{
				Outcome alone = play_range(lines, o.item, o.item + 1, play, limit_s, mfd);
				if (!alone.ok) { alone.done = o.done; o = alone; first = o.item; }
			}
			std::cout << "{\"i\":" << o.item << ",\"first\":" << first << ",\"kind\":\"" << o.kind << "\",\"at\":" << o.at << ",\"msg\":\"" << jesc(o.msg) << "\"}" << std::endl;
			if (argc > 2) std::cerr << o.err;
			if (bad >= max_bad) { hi = i; }
		}
		i += o.done;
	}
	std::cout << "{\"ran\":" << ran << ",\"bad\":" << bad << ",\"checks\":" << checks << "}" << std::endl;
	return bad ? 1 : 0;
}
