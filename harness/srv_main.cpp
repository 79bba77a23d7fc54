#include "srv.h"
using namespace mc;
int main(int argc, char** argv)
{
	const std::string net = "Clients are raw sockets driven in the same thread as the server: each client action is delivered by the kernel and handled by the event loop before the next (or deliberately together with it).";
	const std::string asan = "Memory errors are those AddressSanitizer sees in pillowcore and the harness (Qt itself is not instrumented).";
	std::vector<Property> p;
	auto add = [&](const char* id, std::vector<Suite> (*f)(Tier)) { Property x; x.id = id; x.assumptions.push_back(net); x.assumptions.push_back(asan); x.suites = f; p.push_back(x); };
	add("C10", suitesC10); add("C25", suitesC25);
	return mc::main(argc, argv, p, setupQt);
}
