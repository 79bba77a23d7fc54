// A response, as sent by a server, and what a client must report about it.
#ifndef RESP_H
#define RESP_H
#include <string>
#include <vector>
#include "ref.h"

struct Resp
{
	int minor, status; std::string reason; ref::Headers headers; std::vector<std::string> gaps; enum Framing { Length, Chunked, Eof, None } framing; std::string body; std::vector<int> chunks; std::string chunkExt; bool upperHex; ref::Headers trailers; std::string eol; int padHex;
	Resp() : minor(1), status(200), reason("OK"), framing(None), upperHex(false), eol("\r\n"), padHex(0) {}
	Resp& h(const std::string& k, const std::string& v, const std::string& gap = " ") { headers.push_back(ref::Header(k, v)); gaps.push_back(gap); return *this; }
	Resp& st(int s, const std::string& r) { status = s; reason = r; return *this; }
	Resp& len(const std::string& b) { framing = Length; body = b; return h("Content-Length", ref::num((long long)b.size())); }
	Resp& eof(const std::string& b) { framing = Eof; body = b; return *this; }
	Resp& chk(const std::string& b, const std::vector<int>& c) { framing = Chunked; body = b; chunks = c; return h("Transfer-Encoding", "chunked"); }
	bool flag(const char* v) const // Whether a Connection header lists v.
	{
		for (size_t i = 0; i < headers.size(); ++i) if (ref::ieq(headers[i].first, "connection")) for (size_t p = 0; p <= headers[i].second.size();)
		{
			const std::string& s = headers[i].second; size_t e = s.find(',', p); if (e == std::string::npos) e = s.size(); size_t b = p, f = e; p = e + 1;
			while (b < f && (s[b] == ' ' || s[b] == '\t')) ++b; while (f > b && (s[f - 1] == ' ' || s[f - 1] == '\t')) --f;
			if (ref::ieq(s.substr(b, f - b), v)) return true;
		}
		return false;
	}
	bool keepAlive() const { return framing != Eof && (minor >= 1 ? !flag("close") : flag("keep-alive")); }
	std::string head() const
	{
		std::string s = "HTTP/1." + ref::num(minor) + " " + ref::num(status) + (reason == "-" ? std::string() : " " + reason) + "\r\n";
		for (size_t i = 0; i < headers.size(); ++i) s += headers[i].first + ":" + gaps[i] + headers[i].second + "\r\n";
		return s + "\r\n";
	}
	std::string bytes() const
	{
		std::string s = head(); if (framing != Chunked) return s + body;
		size_t p = 0;
		for (size_t i = 0; i < chunks.size(); ++i) { char b[32]; snprintf(b, sizeof b, upperHex ? "%0*X" : "%0*x", padHex, chunks[i]); s += b + chunkExt + "\r\n" + body.substr(p, chunks[i]) + "\r\n"; p += chunks[i]; }
		s += "0" + chunkExt + "\r\n"; for (size_t i = 0; i < trailers.size(); ++i) s += trailers[i].first + ": " + trailers[i].second + "\r\n";
		return s + "\r\n";
	}
	ref::Headers all() const { ref::Headers a = headers; a.insert(a.end(), trailers.begin(), trailers.end()); return a; }
};

#endif
