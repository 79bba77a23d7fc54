#include "handlers.h"
using namespace mc;
int main(int argc, char** argv)
{
	const std::string dev = "Requests come through a real HttpConnection on an in-memory QIODevice whose arrival, draining and closing the explorer decides.";
	const std::string asan = "Memory errors are those AddressSanitizer sees in pillowcore and the harness (Qt itself is not instrumented).";
	std::vector<Property> p;
	auto add = [&](const char* id, std::vector<Suite> (*f)(Tier), const char* more = 0) { Property x; x.id = id; x.assumptions.push_back(dev); x.assumptions.push_back(asan); if (more) x.assumptions.push_back(more); x.suites = f; p.push_back(x); };
	add("C11", suitesC11, "Files are those of a scratch tree on the sandbox's file system; what a path resolves to is taken from realpath() and stat(). Concurrent changes of the tree between the handler's check and its open are not explored.");
	add("C12", suitesC12, "Files are those of a scratch tree on the sandbox's file system.");
	add("C13", suitesC13); add("C14", suitesC14); add("C15", suitesC15);
	return mc::main(argc, argv, p, setupQt);
}
