#include "mc.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace
{
	using namespace mc;

	enum { MaxWorkers = 16, MaxDepth = 4096, MsgSize = 8192, MaxSamples = 6, SampleSize = 1600, MaxHistory = 1 << 20, MaxSuites = 64 };

	struct WorkerShm
	{
		std::atomic<uint64_t> executions, transitions, heartbeat;
		int suite; uint64_t root; int pathLen; int path[MaxDepth];
		int historyLen; uint32_t history[MaxHistory]; // global root indices, in the order this worker ran them
		int failed; char msg[MsgSize];
		char tmpMsg[64];
	};
	struct Shm
	{
		std::atomic<uint64_t> next, states, stop;
		std::atomic<uint64_t> suiteExec[MaxSuites];
		std::atomic<int> samples; char sample[MaxSamples][SampleSize];
		std::atomic<int> knownCount; char known[32][128];
		WorkerShm w[MaxWorkers];
	};
	Shm* shm = 0;
	std::atomic<uint64_t>* stateTable = 0; uint64_t stateMask = 0;
	WorkerShm* me = 0;

	double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

	std::string jsonEscape(const std::string& s)
	{
		std::string r;
		for (size_t i = 0; i < s.size(); ++i)
		{
			unsigned char c = s[i];
			if (c == '"' || c == '\\') { r += '\\'; r += c; }
			else if (c == '\n') r += "\\n";
			else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
			else r += c;
		}
		return r;
	}

	bool advance(Ctx& c) // Next choice sequence in depth-first order.
	{
		while (!c.path.empty())
		{
			if (c.path.back() + 1 < c.width.back()) { ++c.path.back(); return true; }
			c.path.pop_back(); c.width.pop_back();
		}
		return false;
	}

	void runOne(const Suite& s, Ctx& c, uint64_t root)
	{
		c.pos = 0; c._failed = false; c.message.clear(); c.trace.clear(); c.knownKey.clear();
		s.body(c, root);
		// Unused tail of the path (only possible on a nondeterministic body).
		if (c.pos < c.path.size()) { c.path.resize(c.pos); c.width.resize(c.pos); }
	}

	struct Options
	{
		std::string property, evidence, replayDir, replayFile, only, knownFile; Tier tier; int workers; double deadline; int seed; bool historyReplay;
		Options() : tier(Quick), workers(8), deadline(0), seed(1), historyReplay(false) {}
	};

	std::map<std::string, std::string> knownFindings; // key -> description, for the property being checked

	void loadKnown(const std::string& file, const std::string& property)
	{
		std::ifstream in(file.c_str()); std::string line;
		while (std::getline(in, line))
		{
			const std::string prefix = "known: property=" + property + " key=";
			if (line.compare(0, prefix.size(), prefix) != 0) continue;
			std::string rest = line.substr(prefix.size()); size_t sp = rest.find(' ');
			knownFindings[rest.substr(0, sp)] = sp == std::string::npos ? "" : rest.substr(sp + 1);
		}
	}

	void noteKnown(const std::string& key)
	{
		for (int i = 0, n = shm->knownCount; i < n && i < 32; ++i) if (key == shm->known[i]) return;
		int i = shm->knownCount.fetch_add(1);
		if (i < 32) snprintf(shm->known[i], 128, "%s", key.c_str());
	}

	void worker(const std::vector<Suite>& suites, const std::vector<uint64_t>& base, uint64_t total, int w, const std::function<void()>& setup, const std::vector<uint32_t>* history, double deadlineAt)
	{
		me = &shm->w[w];
		setup();
		size_t h = 0;
		std::vector<uint64_t> sampledSuite(suites.size(), 0);
		for (;;)
		{
			if (shm->stop) break;
			uint64_t g;
			if (history) { if (h >= history->size()) break; g = (*history)[h++]; }
			else g = shm->next.fetch_add(1);
			if (g >= total) break;
			if (deadlineAt > 0 && now() > deadlineAt) { shm->stop = 2; break; }
			size_t si = 0; while (si + 1 < suites.size() && base[si + 1] <= g) ++si;
			const Suite& s = suites[si]; const uint64_t root = g - base[si];
			me->suite = (int)si; me->root = root; if (me->historyLen < MaxHistory) me->history[me->historyLen++] = (uint32_t)g;
			Ctx c;
			do
			{
				const bool sample = root == (s.roots / 2) && shm->samples < MaxSamples && !sampledSuite[si];
				c._verbose = sample;
				me->pathLen = 0;
				me->heartbeat.fetch_add(1);
				const uint64_t t0 = c.transitions;
				runOne(s, c, root);
				for (int again = 0; again < 2 && c._failed && !s.exactReplay; ++again) runOne(s, c, root);
				me->executions.fetch_add(1); me->transitions.fetch_add(c.transitions - t0); shm->suiteExec[si].fetch_add(1);
				if (sample && !c.trace.empty())
				{
					sampledSuite[si] = 1;
					int i = shm->samples.fetch_add(1);
					if (i < MaxSamples) snprintf(shm->sample[i], SampleSize, "suite %s root %llu: %s", s.name.c_str(), (unsigned long long)root, c.trace.c_str());
				}
				if (c._failed)
				{
					if (!c.knownKey.empty() && knownFindings.count(c.knownKey)) { noteKnown(c.knownKey); }
					else
					{
						me->failed = 1; me->pathLen = std::min<int>((int)c.path.size(), MaxDepth);
						for (int i = 0; i < me->pathLen; ++i) me->path[i] = c.path[i];
						snprintf(me->msg, MsgSize, "%s", c.message.c_str());
						shm->stop = 1;
						_exit(10);
					}
				}
				if (shm->stop == 1) _exit(0);
				if (deadlineAt > 0 && now() > deadlineAt) { shm->stop = 2; _exit(0); }
			} while (advance(c));
		}
		_exit(0);
	}

	std::string readFile(const std::string& f, size_t max)
	{
		std::ifstream in(f.c_str(), std::ios::binary); std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
		if (s.size() > max) s.resize(max);
		return s;
	}

	pid_t spawn(const std::function<void()>& f, const std::string& errFile)
	{
		fflush(stdout); fflush(stderr);
		pid_t p = fork();
		if (p == 0)
		{
			setpgid(0, 0);
			int fd = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
			if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); if (fd > 2) close(fd); }
			int n = open("/dev/null", O_RDONLY); if (n >= 0) { dup2(n, 0); if (n > 2) close(n); }
			f();
			_exit(0);
		}
		return p;
	}

	// Replays one execution. Exit 0: holds, 10: violated. Prints the trace.
	int replay(const std::vector<Suite>& suites, const Options& o, const std::function<void()>& setup)
	{
		std::ifstream in(o.replayFile.c_str()); std::string line, suite; uint64_t root = 0; std::vector<int> path;
		while (std::getline(in, line))
		{
			std::istringstream ls(line); std::string k; ls >> k;
			if (k == "suite") ls >> suite; else if (k == "root") ls >> root;
			else if (k == "choices") { int x; while (ls >> x) path.push_back(x); }
		}
		for (size_t i = 0; i < suites.size(); ++i) if (suites[i].name == suite)
		{
			me = &shm->w[0];
			setup();
			Ctx c; c._verbose = true; c.path = path; c.width.assign(path.size(), 1 << 30);
			runOne(suites[i], c, root);
			printf("%s\n", c.trace.c_str());
			if (c._failed && !c.knownKey.empty() && knownFindings.count(c.knownKey)) { printf("KNOWN-FINDING: property=%s %s\n", o.property.c_str(), c.knownKey.c_str()); return 0; }
			if (c._failed) { printf("VIOLATED: %s\n", c.message.c_str()); return 10; }
			printf("HOLDS\n");
			return 0;
		}
		fprintf(stderr, "no suite %s\n", suite.c_str());
		return 2;
	}
}

uint64_t mc::hash(uint64_t a, const void* data, size_t n)
{
	const unsigned char* p = static_cast<const unsigned char*>(data);
	uint64_t h = 0xcbf29ce484222325ULL;
	for (size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 0x100000001b3ULL;
	return hash(a, h ^ n);
}

std::string mc::show(const std::string& s, size_t max)
{
	std::string r;
	for (size_t i = 0; i < s.size(); ++i)
	{
		if (i >= max) { char b[48]; snprintf(b, sizeof b, "...(%zu bytes)", s.size()); return r + b; }
		unsigned char c = s[i];
		if (c == '\r') r += "\\r"; else if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
		else r += c;
	}
	return r;
}

int mc::Ctx::choose(int n)
{
	if (n <= 1) return 0;
	if (pos == path.size()) { path.push_back(0); width.push_back(n); }
	else if (width[pos] == (1 << 30)) { width[pos] = n; if (path[pos] >= n) path[pos] = n - 1; }
	const int r = path[pos];
	if (me && pos < MaxDepth) { me->path[pos] = r; me->pathLen = (int)pos + 1; }
	++pos;
	return r;
}

void mc::Ctx::state(uint64_t h)
{
	++transitions;
	if (!stateTable) return;
	if (h == 0) h = 1;
	uint64_t i = (h * 0x9e3779b97f4a7c15ULL) & stateMask;
	for (int probe = 0; probe < 64; ++probe, i = (i + 1) & stateMask)
	{
		uint64_t v = stateTable[i].load(std::memory_order_relaxed);
		if (v == h) return;
		if (v == 0)
		{
			uint64_t expected = 0;
			if (stateTable[i].compare_exchange_strong(expected, h)) { shm->states.fetch_add(1); return; }
			if (expected == h) return;
		}
	}
	// Table region saturated: the state is not counted (the reported number is a lower bound).
}

void mc::Ctx::log(const char* fmt, ...)
{
	if (!_verbose) return;
	char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	trace += b; trace += '\n';
}

void mc::Ctx::fail(const char* fmt, ...)
{
	if (_failed) return;
	char b[6000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	_failed = true; message = b;
	if (_verbose) { trace += "FAIL: "; trace += b; trace += '\n'; }
}

void mc::Ctx::known(const char* key) { knownKey = key; }

int mc::main(int argc, char** argv, const std::vector<Property>& properties, const std::function<void()>& setup)
{
	Options o;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--property") o.property = next();
		else if (a == "--tier") o.tier = next() == "thorough" ? Thorough : Quick;
		else if (a == "--evidence") o.evidence = next();
		else if (a == "--replay-dir") o.replayDir = next();
		else if (a == "--replay") o.replayFile = next();
		else if (a == "--only") o.only = next();
		else if (a == "--workers") o.workers = atoi(next().c_str());
		else if (a == "--deadline") o.deadline = atof(next().c_str());
		else if (a == "--seed") o.seed = atoi(next().c_str());
		else if (a == "--known") o.knownFile = next();
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
	}
	const Property* prop = 0;
	for (size_t i = 0; i < properties.size(); ++i) if (properties[i].id == o.property) prop = &properties[i];
	if (!prop) { fprintf(stderr, "no property '%s'\n", o.property.c_str()); return 2; }
	if (o.workers > MaxWorkers) o.workers = MaxWorkers;
	loadKnown(o.knownFile, o.property);

	shm = static_cast<Shm*>(mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	const uint64_t slots = 1ULL << 24; stateMask = slots - 1;
	stateTable = static_cast<std::atomic<uint64_t>*>(mmap(0, slots * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	if (shm == MAP_FAILED || stateTable == MAP_FAILED) { perror("mmap"); return 2; }

	std::vector<Suite> all = prop->suites(o.tier), suites;
	for (size_t i = 0; i < all.size(); ++i) if (o.only.empty() || all[i].name.find(o.only) != std::string::npos) suites.push_back(all[i]);
	if (!o.replayFile.empty()) return replay(all, o, setup);

	if (o.replayDir.empty()) o.replayDir = "/tmp";
	std::vector<uint64_t> base; uint64_t total = 0;
	for (size_t i = 0; i < suites.size(); ++i) { base.push_back(total); total += suites[i].roots; }

	const double t0 = now();
	const double deadlineAt = o.deadline > 0 ? t0 + o.deadline : 0;
	int bad = -1; int violations = 0; std::string report, replayPath; std::vector<std::string> errFiles; std::vector<pid_t> pids;
	uint64_t executions = 0, transitions = 0;
	for (int run = 0; run < 3; ++run) // A failure that cannot be reproduced does not end the exploration: it starts over.
	{
	if (run > 0)
	{
		for (size_t i = 0; i < errFiles.size(); ++i) unlink(errFiles[i].c_str());
		errFiles.clear(); pids.clear(); memset(static_cast<void*>(shm), 0, sizeof(Shm)); memset(static_cast<void*>(stateTable), 0, slots * 8);
		executions = transitions = 0;
	}
	for (int w = 0; w < o.workers; ++w)
	{
		std::ostringstream ef; ef << o.replayDir << "/" << o.property << "." << getpid() << "." << w << ".err"; errFiles.push_back(ef.str());
		pids.push_back(spawn([&]() { worker(suites, base, total, w, setup, 0, deadlineAt); }, ef.str()));
	}

	// Wait for the workers, watching for hangs.
	bad = -1; int badStatus = 0; bool hang = false;
	std::vector<uint64_t> lastBeat(o.workers, 0); std::vector<double> lastChange(o.workers, now()); std::vector<bool> alive(o.workers, true);
	int running = o.workers;
	while (running > 0)
	{
		for (int w = 0; w < o.workers; ++w) if (alive[w])
		{
			int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
			if (r == pids[w])
			{
				alive[w] = false; --running;
				if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && bad < 0) { bad = w; badStatus = st; shm->stop = 1; }
				continue;
			}
			uint64_t b = shm->w[w].heartbeat;
			if (b != lastBeat[w]) { lastBeat[w] = b; lastChange[w] = now(); }
			else if (b > 0 && now() - lastChange[w] > suites[shm->w[w].suite].timeoutSec)
			{
				kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); alive[w] = false; --running;
				if (bad < 0) { bad = w; hang = true; badStatus = 0; shm->stop = 1; }
			}
		}
		usleep(2000);
	}

	for (int w = 0; w < o.workers; ++w) { executions += shm->w[w].executions; transitions += shm->w[w].transitions; }

	if (bad >= 0)
	{
		WorkerShm& wk = shm->w[bad];
		const Suite& s = suites[wk.suite];
		std::ostringstream msg;
		const bool assertion = wk.failed != 0;
		const std::string err = readFile(errFiles[bad], 6000);
		const bool sanitizer = !assertion && !hang && err.find("ERROR: AddressSanitizer") != std::string::npos;
		if (assertion) msg << wk.msg;
		else if (hang) msg << "no progress for " << s.timeoutSec << " s";
		else { msg << "worker ended with " << (WIFSIGNALED(badStatus) ? "signal " : "exit code ") << (WIFSIGNALED(badStatus) ? WTERMSIG(badStatus) : WEXITSTATUS(badStatus)) << "\n" << err; }

		std::ostringstream rp; rp << o.replayDir << "/" << o.property << "-" << s.name << "-" << wk.root << ".replay"; replayPath = rp.str();
		{
			std::ofstream out(replayPath.c_str());
			out << "property " << o.property << "\nsuite " << s.name << "\nroot " << wk.root << "\nchoices";
			for (int i = 0; i < wk.pathLen; ++i) out << ' ' << wk.path[i];
			out << "\n# " << (o.tier == Quick ? "quick" : "thorough") << " tier\n";
			std::istringstream lines(msg.str()); std::string l; while (std::getline(lines, l)) out << "# " << l << "\n";
		}

		// Confirm in a fresh process: the single execution first, then the whole history of the worker.
		auto outcome = [&](const std::function<void()>& f, const std::string& ef, double limit) -> bool
		{
			pid_t p = spawn(f, ef); double t = now(); int st = 0;
			for (;;)
			{
				if (waitpid(p, &st, WNOHANG) == p) break;
				if (now() - t > limit) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); return hang; }
				usleep(2000);
			}
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
			return true;
		};
		bool confirmed = false;
		Options ro = o; ro.replayFile = replayPath;
		std::ostringstream ce; ce << o.replayDir << "/" << o.property << "." << getpid() << ".confirm.err";
		for (int attempt = 0; attempt < 3 && !confirmed; ++attempt)
			confirmed = outcome([&]() { int r = replay(all, ro, setup); fflush(stdout); _exit(r); }, ce.str(), s.timeoutSec + 5);
		std::string how = "replayed alone in a fresh process";
		if (confirmed) { std::string t = readFile(ce.str(), 20000); std::ofstream out(replayPath.c_str(), std::ios::app); std::istringstream lines(t); std::string l; while (std::getline(lines, l)) out << "# replay: " << l << "\n"; }
		if (!confirmed)
		{
			std::vector<uint32_t> hist(wk.history, wk.history + wk.historyLen);
			shm->stop = 0; memset(static_cast<void*>(&shm->w[MaxWorkers - 1]), 0, sizeof(WorkerShm));
			confirmed = outcome([&]() { worker(suites, base, total, MaxWorkers - 1, setup, &hist, 0); }, ce.str(), (now() - t0) * 3 + s.timeoutSec + 5);
			how = "replayed with the worker's history";
		}
		if (!confirmed && sanitizer) { confirmed = true; how = "sanitizer report, not reproduced on replay"; }
		unlink(ce.str().c_str());
		if (confirmed)
		{
			violations = 1;
			report = msg.str();
			printf("%s\n(%s; suite %s root %llu)\n", report.c_str(), how.c_str(), s.name.c_str(), (unsigned long long)wk.root);
		}
		else printf("NOTE: an execution failed once but not on replay (suite %s root %llu): %s\n", s.name.c_str(), (unsigned long long)wk.root, msg.str().c_str());
	}
	if (bad < 0 || violations || (deadlineAt > 0 && now() > deadlineAt)) break;
	}
	for (size_t i = 0; i < errFiles.size(); ++i) unlink(errFiles[i].c_str());

	const bool exhaustive = shm->next >= total && shm->stop != 2 && bad < 0;
	const double wall = now() - t0;
	if (!o.evidence.empty())
	{
		std::ofstream e(o.evidence.c_str());
		e << "{\n \"property\": \"" << o.property << "\",\n \"tier\": \"" << (o.tier == Quick ? "quick" : "thorough") << "\",\n \"seed\": " << o.seed
			<< ",\n \"level\": \"model_checking\",\n \"coverage\": {\n  \"states\": " << shm->states << ",\n  \"transitions\": " << transitions
			<< ",\n  \"traces_validated_against_impl\": " << executions << ",\n  \"exhaustive\": " << (exhaustive ? "true" : "false") << ",\n  \"suites\": [";
		for (size_t i = 0; i < suites.size(); ++i)
			e << (i ? "," : "") << "\n   {\"name\": \"" << jsonEscape(suites[i].name) << "\", \"roots\": " << suites[i].roots << ", \"executions\": " << shm->suiteExec[i] << ", \"bounds\": \"" << jsonEscape(suites[i].bounds) << "\"}";
		e << "\n  ],\n  \"samples\": [";
		int ns = std::min<int>(shm->samples, MaxSamples);
		for (int i = 0; i < ns; ++i) e << (i ? "," : "") << "\n   \"" << jsonEscape(shm->sample[i]) << "\"";
		if (ns == 0) e << "\"(no sample recorded)\"";
		e << "\n  ]\n },\n \"assumptions\": [";
		for (size_t i = 0; i < prop->assumptions.size(); ++i) e << (i ? ", " : "") << "\"" << jsonEscape(prop->assumptions[i]) << "\"";
		e << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
	}
	for (int i = 0, n = std::min<int>(shm->knownCount, 32); i < n; ++i)
		printf("KNOWN-FINDING: property=%s %s: %s\n", o.property.c_str(), shm->known[i], knownFindings[shm->known[i]].c_str());
	printf("%s: %llu executions, %llu states, %llu transitions, %.1f s%s\n", o.property.c_str(), (unsigned long long)executions, (unsigned long long)shm->states.load(), (unsigned long long)transitions, wall, exhaustive ? ", exhaustive within bounds" : "");
	if (violations) { printf("VIOLATION property=%s replay=%s\n", o.property.c_str(), replayPath.c_str()); return 1; }
	return 0;
}
