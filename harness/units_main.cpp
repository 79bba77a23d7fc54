#include "units.h"
using namespace mc;
int main(int argc, char** argv)
{
	const std::string asan = "Memory errors are those AddressSanitizer sees in pillowcore and the harness (Qt itself is not instrumented).";
	std::vector<Property> p; Property x;
	x.id = "C24"; x.assumptions.push_back(asan); x.assumptions.push_back("Local time is that of the POSIX zone EST5EDT."); x.suites = suitesC24; p.push_back(x);
	x = Property(); x.id = "C16"; x.assumptions.push_back(asan); x.assumptions.push_back("Header folding, several Content-Lengths and transfer codings other than chunked are not part of the valid responses enumerated."); x.suites = suitesC16; p.push_back(x);
	return mc::main(argc, argv, p, setupQt);
}
