#include "client.h"
using namespace mc;
int main(int argc, char** argv)
{
	const std::string net = "Peers are raw sockets on the loopback interface, driven in the same thread as the client: each server event is delivered by the kernel and handled by the event loop before the next.";
	const std::string asan = "Memory errors are those AddressSanitizer sees in pillowcore and the harness (Qt itself is not instrumented).";
	std::vector<Property> p;
	auto add = [&](const char* id, std::vector<Suite> (*f)(Tier), const char* more = 0) { Property x; x.id = id; x.assumptions.push_back(net); x.assumptions.push_back(asan); if (more) x.assumptions.push_back(more); x.suites = f; p.push_back(x); };
	add("C17", suitesC17); add("C18", suitesC18); add("C19", suitesC19); add("C20", suitesC20); add("C21", suitesC21);
	return mc::main(argc, argv, p, setupQt);
}
