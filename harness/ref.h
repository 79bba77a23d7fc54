// Reference models, written from the HTTP grammar and the documented behaviour, independent of pillowcore.
#ifndef REF_H
#define REF_H
#include <cstdlib>
#include <cstring>
#include <string>
#include <utility>
#include <vector>

namespace ref
{
	typedef std::pair<std::string, std::string> Header;
	typedef std::vector<Header> Headers;

	inline bool ieq(const std::string& a, const std::string& b)
	{
		if (a.size() != b.size()) return false;
		for (size_t i = 0; i < a.size(); ++i)
		{
			unsigned char x = a[i], y = b[i];
			if (x >= 'A' && x <= 'Z') x += 32;
			if (y >= 'A' && y <= 'Z') y += 32;
			if (x != y) return false;
		}
		return true;
	}

	inline const std::string* find(const Headers& h, const std::string& name)
	{
		for (size_t i = 0; i < h.size(); ++i) if (ieq(h[i].first, name)) return &h[i].second;
		return 0;
	}
	inline std::string value(const Headers& h, const std::string& name) { const std::string* v = find(h, name); return v ? *v : std::string(); }
	inline int count(const Headers& h, const std::string& name) { int n = 0; for (size_t i = 0; i < h.size(); ++i) if (ieq(h[i].first, name)) ++n; return n; }

	inline std::string num(long long n) { char b[32]; snprintf(b, sizeof b, "%lld", n); return b; }

	//
	// A request, as sent, and what must be reported about it.
	//
	struct Request
	{
		std::string method, path, query, fragment, version; bool hasQuery, hasFragment;
		std::string uri;            // As on the wire, without the fragment.
		bool opaque;                // "*" or absolute URI: path and query are not specified.
		Headers headers;            // As reported (leading spaces of the value stripped).
		std::string body;
		std::string raw;            // Head bytes when not composed from the fields.
		Request() : method("GET"), path("/"), version("HTTP/1.1"), hasQuery(false), hasFragment(false), opaque(false) {}

		std::string target() const { if (!uri.empty()) return uri; return path + (hasQuery ? "?" + query : std::string()); }
		std::string head(const std::vector<std::string>& gaps = std::vector<std::string>()) const
		{
			std::string s = method + " " + target() + (hasFragment ? "#" + fragment : std::string()) + " " + version + "\r\n";
			for (size_t i = 0; i < headers.size(); ++i) s += headers[i].first + ":" + (i < gaps.size() ? gaps[i] : std::string(" ")) + headers[i].second + "\r\n";
			return s + "\r\n";
		}
		std::string bytes() const { return head() + body; }
		Request& h(const std::string& k, const std::string& v) { headers.push_back(Header(k, v)); return *this; }
		Request& content(const std::string& b) { headers.push_back(Header("Content-Length", num((long long)b.size()))); body = b; return *this; }
		bool http11() const { return version == "HTTP/1.1"; }
	};

	//
	// The request grammar (Mongrel's), as a straightforward recogniser.
	//
	inline bool isAlpha(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
	inline bool isDigit(unsigned char c) { return c >= '0' && c <= '9'; }
	inline bool isHex(unsigned char c) { return isDigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
	inline bool in(unsigned char c, const char* set) { return c != 0 && strchr(set, c) != 0; }
	inline bool isCtl(unsigned char c) { return c < 32 || c == 127; }
	inline bool isReserved(unsigned char c) { return in(c, ";/?:@&=+"); }
	inline bool isPlainUriChar(unsigned char c) { return !isCtl(c) && c != ' ' && c != '#' && c != '%' && !isReserved(c); }
	inline bool isMethodChar(unsigned char c) { return (c >= 'A' && c <= 'Z') || isDigit(c) || in(c, "$-_."); }
	inline bool isToken(unsigned char c) { return c < 128 && !isCtl(c) && !in(c, "()<>@,;:\\\"/[]?={} \t"); }

	enum HeadResult { HeadOk, HeadBad, HeadIncomplete };

	struct Cursor
	{
		const std::string& s; size_t p, end; bool eof, bad;
		Cursor(const std::string& s, size_t p) : s(s), p(p), end(s.size()), eof(false), bad(false) {}
		bool more() { if (p >= end) { eof = true; return false; } return true; }
		bool lit(const char* l) { for (; *l; ++l) { if (!more()) return false; if (s[p] != *l) { bad = true; return false; } ++p; } return true; }
		// One or more/zero or more characters of a class with %XX / %uXX escapes; extra = other characters of the class.
		bool uchars(const char* extra)
		{
			for (;;)
			{
				if (!more()) return false;
				unsigned char c = s[p];
				if (c == '%')
				{
					++p; if (!more()) return false;
					if (s[p] == 'u') { ++p; if (!more()) return false; }
					for (int i = 0; i < 2; ++i) { if (!more()) return false; if (!isHex(s[p])) { bad = true; return false; } ++p; }
				}
				else if (isPlainUriChar(c) || in(c, extra)) ++p;
				else return true;
			}
		}
	};

	// Parses the head starting at pos. On HeadOk, *next is the position following it. On HeadBad, *next is the offending position.
	inline HeadResult parseHead(const std::string& s, size_t pos, Request* r, size_t* next)
	{
		Cursor c(s, pos);
		struct Step { static HeadResult end(Cursor& c, size_t* next) { *next = c.p; return c.bad ? HeadBad : HeadIncomplete; } };
		#define REF_BAD() do { c.bad = true; return Step::end(c, next); } while (0)
		#define REF_MORE() do { if (!c.more()) return Step::end(c, next); } while (0)
		size_t b = c.p;
		for (;;)
		{
			REF_MORE();
			if (isMethodChar(s[c.p])) { if (c.p - b == 20) REF_BAD(); ++c.p; }
			else break;
		}
		if (c.p == b || s[c.p] != ' ') REF_BAD();
		r->method = s.substr(b, c.p - b); ++c.p;
		REF_MORE();
		b = c.p; r->opaque = false; r->hasQuery = r->hasFragment = false;
		if (s[c.p] == '*') { ++c.p; r->opaque = true; REF_MORE(); }
		else if (s[c.p] == '/')
		{
			if (!c.uchars(":@&=+/;")) return Step::end(c, next);
			r->path = s.substr(b, c.p - b);
			if (s[c.p] == '?')
			{
				++c.p; r->hasQuery = true; size_t q = c.p;
				if (!c.uchars(";/?:@&=+")) return Step::end(c, next);
				r->query = s.substr(q, c.p - q);
			}
		}
		else
		{
			r->opaque = true;
			for (;;) { REF_MORE(); unsigned char x = s[c.p]; if (isAlpha(x) || isDigit(x) || in(x, "+-.")) ++c.p; else break; }
			if (s[c.p] != ':') REF_BAD();
			++c.p;
			if (!c.uchars(";/?:@&=+")) return Step::end(c, next);
		}
		r->uri = s.substr(b, c.p - b);
		if (r->opaque) r->path = r->query = "";
		if (s[c.p] == '#')
		{
			++c.p; r->hasFragment = true; size_t f = c.p;
			if (!c.uchars(";/?:@&=+")) return Step::end(c, next);
			r->fragment = s.substr(f, c.p - f);
		}
		if (s[c.p] != ' ') REF_BAD();
		++c.p;
		b = c.p;
		if (!c.lit("HTTP/")) return Step::end(c, next);
		for (int part = 0; part < 2; ++part)
		{
			size_t d = c.p;
			for (;;) { REF_MORE(); if (isDigit(s[c.p])) ++c.p; else break; }
			if (c.p == d) REF_BAD();
			if (part == 0) { if (s[c.p] != '.') REF_BAD(); ++c.p; }
		}
		r->version = s.substr(b, c.p - b);
		if (!c.lit("\r\n")) return Step::end(c, next);
		r->headers.clear();
		for (;;)
		{
			REF_MORE();
			if (s[c.p] == '\r') { ++c.p; REF_MORE(); if (s[c.p] != '\n') REF_BAD(); ++c.p; break; }
			b = c.p;
			for (;;) { REF_MORE(); if (isToken(s[c.p])) ++c.p; else break; }
			if (c.p == b || s[c.p] != ':') REF_BAD();
			std::string name = s.substr(b, c.p - b); ++c.p;
			for (;;) { REF_MORE(); if (s[c.p] == ' ') ++c.p; else break; }
			b = c.p;
			for (;;) { REF_MORE(); if (s[c.p] == '\r') break; ++c.p; }
			r->headers.push_back(Header(name, s.substr(b, c.p - b)));
			++c.p; REF_MORE(); if (s[c.p] != '\n') REF_BAD(); ++c.p;
		}
		*next = c.p;
		return HeadOk;
		#undef REF_BAD
		#undef REF_MORE
	}

	enum { MaxHead = 32 * 1024, MaxContent = 128 * 1024 * 1024 };

	// What a server must make of a complete byte stream.
	struct StreamResult
	{
		std::vector<Request> requests; // Delivered, in order.
		std::vector<size_t> ends;      // Stream position at which each is complete.
		int error;                     // 0, 400, 413 or 501; -1: any of them is acceptable.
		bool ambiguous;                // The property says nothing about this stream (from that point on).
		bool partial;                  // Unconsumed bytes of a further, so far valid, request.
		StreamResult() : error(0), ambiguous(false), partial(false) {}
	};

	inline StreamResult parseStream(const std::string& s)
	{
		StreamResult res; size_t pos = 0;
		while (pos < s.size())
		{
			Request r; size_t next = pos;
			HeadResult h = parseHead(s, pos, &r, &next);
			const size_t consumed = next - pos;
			if (h == HeadBad) { res.error = 400; return res; }
			if (consumed > MaxHead) { res.error = 400; return res; }
			if (h == HeadOk && consumed == MaxHead) { res.ambiguous = true; return res; } // Whether the limit itself is inside is not specified.
			if (h == HeadIncomplete) { res.partial = true; return res; }
			long long length = 0;
			const int n = count(r.headers, "content-length");
			bool differ = false, coded = false, emptyCoding = false;
			for (size_t i = 0; i < r.headers.size(); ++i)
			{
				const Header& f = r.headers[i];
				if (ieq(f.first, "content-length") && f.second != value(r.headers, "content-length")) differ = true;
				if (ieq(f.first, "transfer-encoding")) (f.second.empty() ? emptyCoding : coded) |= !ieq(f.second, "identity");
			}
			if (coded) { res.error = n ? -1 : 501; return res; } // No transfer coding is supported.
			if (emptyCoding) { res.ambiguous = true; return res; }
			if (differ) { res.error = -1; return res; }
			if (n >= 1)
			{
				const std::string v = value(r.headers, "content-length");
				const bool digits = !v.empty() && v.find_first_not_of("0123456789") == std::string::npos;
				if (digits)
				{
					std::string sig = v; size_t nz = sig.find_first_not_of('0'); sig = nz == std::string::npos ? "0" : sig.substr(nz);
					length = sig.size() > 12 ? 999999999999LL : atoll(sig.c_str());
					if (length > MaxContent) { res.error = 413; return res; }
				}
				else if (v.size() > 1 && v.size() < 10 && v[0] == '-' && v.find_first_not_of("0123456789", 1) == std::string::npos && atoll(v.c_str()) < 0) { res.error = 400; return res; }
				else if (v.size() > 1 && v[0] == '-' && v.find_first_not_of("0123456789", 1) == std::string::npos) { if (atoll(v.substr(1).c_str()) == 0) { res.ambiguous = true; return res; } res.error = -1; return res; }
				else if (v.find_first_of("0123456789") == std::string::npos) { res.error = 413; return res; }
				else
				{
					// Digits with something else around: unparsable, unless it is only white space, a plus sign or a NUL (not specified).
					bool odd = false;
					for (size_t i = 0; i < v.size(); ++i) if (isAlpha(v[i]) || in(v[i], ",.;:_/=()[]{}!$%&*<>@^|~?#\\\"'`")) odd = true;
					if (v.find('\0') != std::string::npos) { res.ambiguous = true; return res; }
					if (!odd) { res.ambiguous = true; return res; }
					if (v.find('-') != std::string::npos) { res.error = -1; return res; }
					res.error = 413; return res;
				}
			}
			if ((long long)(s.size() - next) < length) { res.partial = true; return res; }
			r.body = s.substr(next, (size_t)length);
			pos = next + (size_t)length;
			res.requests.push_back(r); res.ends.push_back(pos);
		}
		return res;
	}

	inline int hexv(unsigned char c) { if (isDigit(c)) return c - '0'; if (c >= 'a') return c - 'a' + 10; return c - 'A' + 10; }
	inline bool wellEscaped(const std::string& s) { for (size_t i = 0; i < s.size(); ++i) if (s[i] == '%') { if (i + 2 >= s.size() || !isHex(s[i + 1]) || !isHex(s[i + 2])) return false; } return true; }
	// Whether one of the Connection headers lists the option.
	inline bool connectionOption(const Headers& h, const std::string& option)
	{
		for (size_t i = 0; i < h.size(); ++i)
			if (ieq(h[i].first, "connection"))
				for (size_t p = 0, e; p <= h[i].second.size(); p = e + 1)
				{
					e = h[i].second.find(',', p); if (e == std::string::npos) e = h[i].second.size();
					size_t a = p, b = e; while (a < b && (h[i].second[a] == ' ' || h[i].second[a] == '\t')) ++a; while (b > a && (h[i].second[b - 1] == ' ' || h[i].second[b - 1] == '\t')) --b;
					if (ieq(h[i].second.substr(a, b - a), option)) return true;
				}
		return false;
	}
	inline std::string percentDecode(const std::string& s)
	{
		std::string r;
		for (size_t i = 0; i < s.size(); )
			if (s[i] == '%' && i + 2 < s.size() && isHex(s[i + 1]) && isHex(s[i + 2])) { r += (char)(hexv(s[i + 1]) * 16 + hexv(s[i + 2])); i += 3; }
			else r += s[i++];
		return r;
	}

	//
	// Responses, decoded as a conforming client does.
	//
	struct Response
	{
		std::string version; int status; Headers headers; std::string body; std::string reason;
		enum Framing { None, Length, Chunked, UntilClose } framing; long long length;
		bool complete;      // The whole body (and chunked terminator) is there.
		int chunks;
		std::string problem; // Non-empty: not a valid message.
		Response() : status(0), framing(None), length(-1), complete(false), chunks(0) {}
	};

	// Parses a response at pos; *next is the position after it (when complete) or s.size(). False if s has no complete head yet.
	inline bool parseResponse(const std::string& s, size_t pos, bool toHead, Response* r, size_t* next)
	{
		size_t e = s.find("\r\n\r\n", pos);
		if (e == std::string::npos) return false;
		size_t p = s.find("\r\n", pos);
		const std::string line = s.substr(pos, p - pos);
		// HTTP/d.d SP 3DIGIT SP reason
		size_t sp = line.find(' ');
		if (line.compare(0, 5, "HTTP/") != 0 || sp == std::string::npos) { r->problem = "bad status line: " + line; }
		else
		{
			r->version = line.substr(0, sp);
			const std::string rest = line.substr(sp + 1);
			if (rest.size() < 4 || !isDigit(rest[0]) || !isDigit(rest[1]) || !isDigit(rest[2]) || rest[3] != ' ') r->problem = "bad status line: " + line;
			else { r->status = atoi(rest.c_str()); r->reason = rest.substr(4); }
		}
		p += 2;
		while (p < e + 2)
		{
			size_t q = s.find("\r\n", p);
			const std::string l = s.substr(p, q - p);
			size_t colon = l.find(':');
			if (colon == std::string::npos || colon == 0) r->problem = "bad header line: " + l;
			else
			{
				size_t v = colon + 1; while (v < l.size() && l[v] == ' ') ++v;
				r->headers.push_back(Header(l.substr(0, colon), l.substr(v)));
			}
			p = q + 2;
		}
		p = e + 4;
		const bool chunked = ieq(value(r->headers, "transfer-encoding"), "chunked");
		const int nCl = count(r->headers, "content-length");
		if (nCl > 1) r->problem = "several content-length headers";
		if (count(r->headers, "transfer-encoding") > 1) r->problem = "several transfer-encoding headers";
		if (chunked && nCl) r->problem = "content-length with chunked coding";
		if (nCl)
		{
			const std::string v = value(r->headers, "content-length");
			if (v.empty() || v.find_first_not_of("0123456789") != std::string::npos) r->problem = "bad content-length: " + v;
			else r->length = atoll(v.c_str());
		}
		r->framing = chunked ? Response::Chunked : nCl ? Response::Length : Response::UntilClose;
		if (toHead || r->status == 204 || r->status == 304 || r->status / 100 == 1) { r->complete = true; *next = p; return true; }
		if (chunked)
		{
			for (;;)
			{
				size_t q = s.find("\r\n", p);
				if (q == std::string::npos) { *next = s.size(); return true; }
				const std::string sz = s.substr(p, q - p);
				if (sz.empty() || sz.size() > 8) { r->problem = "bad chunk size: " + sz; *next = s.size(); return true; }
				for (size_t i = 0; i < sz.size(); ++i) if (!isHex(sz[i])) { r->problem = "bad chunk size: " + sz; *next = s.size(); return true; }
				size_t n = strtoul(sz.c_str(), 0, 16);
				p = q + 2;
				if (n == 0)
				{
					if (s.size() < p + 2) { *next = s.size(); return true; }
					if (s.compare(p, 2, "\r\n") != 0) r->problem = "bad last chunk";
					r->complete = true; *next = p + 2; return true;
				}
				if (s.size() < p + n + 2) { r->body += s.substr(p, n); *next = s.size(); return true; }
				r->body += s.substr(p, n); ++r->chunks;
				if (s.compare(p + n, 2, "\r\n") != 0) { r->problem = "chunk not followed by CRLF"; *next = s.size(); return true; }
				p += n + 2;
			}
		}
		if (nCl)
		{
			const size_t have = s.size() - p;
			const size_t n = (long long)have < r->length ? have : (size_t)r->length;
			r->body = s.substr(p, n); r->complete = (long long)n == r->length; *next = p + n;
			return true;
		}
		r->body = s.substr(p); *next = s.size(); // Complete when the connection closes.
		return true;
	}

	inline std::string pattern(size_t n, unsigned seed = 0)
	{
		std::string s(n, 0); unsigned x = 12345 + seed * 7919;
		for (size_t i = 0; i < n; ++i) { x = x * 1103515245u + 12345u; s[i] = (char)(x >> 16); }
		return s;
	}
	inline std::string text(size_t n, unsigned seed = 0) { std::string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char)('a' + (i * 7 + i / 26 + seed) % 26); return s; }
}
#endif
