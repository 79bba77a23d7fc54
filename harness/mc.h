// Explicit enumeration engine: stateless model checking of the real library.
//
// A Suite is a set of numbered roots (scenario parameters) and a body. Within one root the body draws its
// nondeterminism (schedules, arrival orders, API calls, faults) from Ctx::choose(); the engine re-executes the
// body for every possible sequence of choices (depth-first), so every behaviour within the suite's bounds is run.
// Roots are distributed over forked worker processes; crashes, sanitizer reports and hangs in a worker are
// violations too. Every violation can be replayed alone from (suite, root, choice sequence).
#ifndef MC_H
#define MC_H
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc
{
	enum Tier { Quick, Thorough };

	class Ctx
	{
	public:
		int choose(int n);                                  // 0..n-1, every value is explored.
		void state(uint64_t h);                             // A model/implementation state was reached (one transition taken).
		void step() { ++transitions; }
		void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
		void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3))); // Records the first violation of this execution.
		void known(const char* key);                        // Subsequent failures of this execution belong to a listed finding.
		bool failed() const { return _failed; }
		bool verbose() const { return _verbose; }

		// Engine side.
		std::vector<int> path, width; size_t pos;
		bool _failed, _verbose; std::string message, trace, knownKey;
		uint64_t transitions;
		Ctx() : pos(0), _failed(false), _verbose(false), transitions(0) {}
	};

	struct Suite
	{
		std::string name;
		std::string bounds;                                 // Human readable statement of what is enumerated.
		uint64_t roots;
		std::function<void(Ctx&, uint64_t root)> body;
		int timeoutSec;                                     // Watchdog for one execution.
		bool exactReplay;                                   // False (real sockets): a failing execution is run again before it counts.
		Suite(const std::string& name, const std::string& bounds, uint64_t roots, const std::function<void(Ctx&, uint64_t)>& body, int timeoutSec = 60)
			: name(name), bounds(bounds), roots(roots), body(body), timeoutSec(timeoutSec), exactReplay(true) {}
	};

	struct Property
	{
		std::string id;
		std::vector<std::string> assumptions;
		std::function<std::vector<Suite>(Tier)> suites;
	};

	inline uint64_t hash(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2); a ^= a >> 31; a *= 0xbf58476d1ce4e5b9ULL; a ^= a >> 29; return a; }
	uint64_t hash(uint64_t a, const void* data, size_t n);
	inline uint64_t hash(uint64_t a, const std::string& s) { return hash(a, s.data(), s.size()); }

	// Mixed-radix decoding of a root number: take(i, n) returns i % n and divides i.
	inline Suite retried(Suite s) { s.exactReplay = false; return s; }
	inline int take(uint64_t& i, uint64_t n) { int r = static_cast<int>(i % n); i /= n; return r; }
	std::string show(const std::string& s, size_t max = 400); // Printable form of raw bytes.

	// setup runs once in every worker, before the first execution.
	int main(int argc, char** argv, const std::vector<Property>& properties, const std::function<void()>& setup);
}
#endif
