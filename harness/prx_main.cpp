#include "prx.h"
using namespace mc;
int main(int argc, char** argv)
{
	std::vector<Property> p; Property x; x.id = "C22"; x.suites = suitesC22;
	x.assumptions.push_back("Clients and the upstream server are raw loopback sockets, driven in the same thread as the proxy; Qt's own HTTP engine runs the upstream side in its threads, so that the explorer waits for the effect of each event (within a limit) instead of stepping it.");
	x.assumptions.push_back("Memory errors are those AddressSanitizer sees in pillowcore and the harness (Qt itself is not instrumented).");
	p.push_back(x); return mc::main(argc, argv, p, setupQt);
}
