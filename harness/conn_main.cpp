#include "conn.h"
using namespace mc;
int main(int argc, char** argv)
{
	const std::string dev = "The connection is driven through an in-memory QIODevice; read sizes, arrival times and output draining are chosen by the explorer.";
	const std::string asan = "Memory errors are those AddressSanitizer sees in pillowcore and the harness (Qt itself is not instrumented).";
	std::vector<Property> p;
	auto add = [&](const char* id, std::vector<Suite> (*f)(Tier)) { Property x; x.id = id; x.assumptions.push_back(dev); x.assumptions.push_back(asan); x.suites = f; p.push_back(x); };
	add("C01", suitesC01); add("C02", suitesC02); add("C08", suitesC08);
#ifdef CONN_WRITE
	add("C03", suitesC03); add("C04", suitesC04); add("C05", suitesC05); add("C06", suitesC06); add("C07", suitesC07); add("C09", suitesC09);
#endif
	return mc::main(argc, argv, p, setupQt);
}
