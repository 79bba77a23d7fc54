// C16: the response parser on every division of its input.
#include "units.h"
#include "HttpClient.h"
#include "resp.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static long long liveBytes() { return __sanitizer_get_current_allocated_bytes ? (long long)__sanitizer_get_current_allocated_bytes() : 0; }
using namespace mc;
using std::string;

static const std::vector<Resp>& responses()
{
	static std::vector<Resp> v; if (!v.empty()) return v;
	auto ints = [](int a, int b = 0, int c = 0) { std::vector<int> r(1, a); if (b) r.push_back(b); if (c) r.push_back(c); return r; };
	v.push_back(Resp().len("hello"));
	v.push_back(Resp().len(""));
	v.push_back(Resp().h("A", "1").h("Bc", "two words").len("x").h("Connection", "close"));
	v.push_back(Resp().h("Connection", "keep-alive").h("Empty", "", "").h("E2", "", "  ").len("y\r\n\r\nz"));
	{ Resp r; r.minor = 0; v.push_back(r.len("old")); } { Resp r; r.minor = 0; v.push_back(r.h("cOnnEction", "KEEP-alive").len("old2")); }
	{ Resp r; r.minor = 0; v.push_back(r.eof("until the end")); }
	v.push_back(Resp().eof("")); v.push_back(Resp().h("X", "y", "").eof("HTTP/1.1 200 OK\r\n\r\n"));
	v.push_back(Resp().chk("abc", ints(3))); v.push_back(Resp().chk("", std::vector<int>())); v.push_back(Resp().chk("abcdefghijklmnopqrstuvwxyz", ints(10, 15, 1)));
	{ Resp r; r.chk("0123456789abcdef0", ints(16, 1)); r.chunkExt = ";ext=1"; r.upperHex = true; r.padHex = 3; v.push_back(r); }
	{ Resp r; r.chk("aB", ints(1, 1)); r.trailers.push_back(ref::Header("X-T", "one")); v.push_back(r); }
	{ Resp r; r.chk("data\r\n0\r\n\r\n", ints(4, 7)); r.trailers.push_back(ref::Header("T1", "v")); r.trailers.push_back(ref::Header("T2", "")); r.trailers.push_back(ref::Header("T3", "w w")); v.push_back(r); }
	v.push_back(Resp().st(204, "No Content")); v.push_back(Resp().st(204, "No Content").h("Content-Length", "0"));
	v.push_back(Resp().st(304, "Not Modified").h("ETag", "\"x\"")); v.push_back(Resp().st(304, "Not Modified").h("Content-Length", "12"));
	v.push_back(Resp().st(100, "Continue")); v.push_back(Resp().st(404, "-").len("nope")); v.push_back(Resp().st(302, "").h("Location", "http://a/b?c").len(""));
	v.push_back(Resp().st(500, "Internal Server Error").h("a", "b").h("A", "c").h("a", "d").len("e"));
	v.push_back(Resp().st(999, "Strange: reason \xe9").h("!#$%&'*+-.^_`|~09", ": tricky;,\t\"\xff").len("\0\1\xff"));
	{ Resp r; r.h("Content-Length", "99").chk("short", ints(5)); v.push_back(r); }
	{ Resp r; string b(70, 'q'); r.len(b); v.push_back(r); }
	{ Resp r; r.h("Connectio", "close").h("Connections", "close").h("Content-Lengt", "7").h("Transfer-Encodin", "chunked").h("Content-Lengths", "7").len("z"); v.push_back(r); }
	{ Resp r; r.h("Connection", "closed").h("Transfer-Encoding", "chunke").len("zz"); v.push_back(r); }
	{ Resp r; r.h("transfer-encoding", "Chunked", ""); r.framing = Resp::Chunked; r.body = "mixed"; r.chunks = ints(5); r.h("Connection", "Close", "\t"); v.push_back(r); }
	v.push_back(Resp().h("Connection", "close, TE").len("listed")); v.push_back(Resp().h("Connection", "X-Foo,Close").h("X-Foo", "1").chk("listed", ints(6))); v.push_back(Resp().h("Connection", "a").h("Connection", "keep-alive ,\tcLose ,b").len("q")); v.push_back(Resp().h("Connection", "close-not, disclose,clos,e").len("q"));
	{ Resp r; r.minor = 0; v.push_back(r.h("Connection", "TE, keep-alive").len("listed")); } { Resp r; r.minor = 0; v.push_back(r.h("Connection", "keep-alives,keep, alive").len("listed")); }
	{ Resp r; r.h("CONTENT-LENGTH", "00004", "   ").framing = Resp::Length; r.body = "four"; v.push_back(r); }
	return v;
}
static const char* malformed[] = { "HTTP", "x", "FTTP/1.1 200 OK\r\n\r\n", "HTTP/x.1 200 OK\r\n\r\n", "HTTP/1.x 200 OK\r\n\r\n", "HTTP/1.1 2x0 OK\r\n\r\n", "HTTP/1.1 1000 OK\r\n\r\n", "HTTP/1.1 abc\r\n\r\n", "HTTP/1.1 200 OK\r\nA@: b\r\n\r\n", "HTTP/1.1 200 OK\r\n: b\r\n\r\n",
	"HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -1\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 1x\r\n\r\na", "HTTP/1.1 200 OK\r\nContent-Length: 99999999999999999999999\r\n\r\na", "HTTP/1.1 200 OK\r\nA: b\r\n\rX", "HTTP/1.1 200 OK\r\nA: b\rX\n\r\n", "HTTP/1.1 200 OK\rX",
	"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nx\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabcd\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\rX", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n-1\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nfffffffffffffffff\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n0\r\nT@: x\r\n\r\n", "GET / HTTP/1.1\r\n\r\n" };
enum { NMalformed = sizeof malformed / sizeof *malformed };

struct P : public Pillow::HttpResponseParser
{
	string events, streamed; ref::Headers atHeaders; bool eofAtHeaders, parsingInCallbacks; int clearIn; bool useBase;
	P() : eofAtHeaders(false), parsingInCallbacks(true), clearIn(0), useBase(true) {}
	void check() { parsingInCallbacks = parsingInCallbacks && isParsing(); }
	ref::Headers got() const { ref::Headers h; for (int i = 0; i < headers().size(); ++i) h.push_back(ref::Header(sb(headers().at(i).first), sb(headers().at(i).second))); return h; }
	void messageBegin() { events += 'B'; check(); Pillow::HttpResponseParser::messageBegin(); streamed.clear(); }
	void headersComplete() { events += 'H'; check(); atHeaders = got(); eofAtHeaders = completesOnEof(); Pillow::HttpResponseParser::headersComplete(); if (clearIn == 1) clear(); }
	void messageContent(const char* d, int n) { if (events.empty() || *events.rbegin() != 'c') events += 'c'; check(); streamed.append(d, n); Pillow::HttpResponseParser::messageContent(d, n); if (clearIn == 2) clear(); }
	void messageComplete() { events += 'E'; check(); Pillow::HttpResponseParser::messageComplete(); if (clearIn == 3) clear(); }
	bool done() const { return !events.empty() && *events.rbegin() == 'E'; }
};

static string hdr(const ref::Headers& h) { string s; for (size_t i = 0; i < h.size(); ++i) s += "[" + h[i].first + "=" + h[i].second + "]"; return mc::show(s, 500); }

// Injects s in the given pieces until a message completes, an error occurs or everything was injected. Returns the number of bytes consumed.
static size_t injectPieces(P& p, const string& s, const std::vector<size_t>& cuts)
{
	size_t at = 0;
	for (size_t i = 0; i <= cuts.size(); ++i)
	{
		const size_t end = i < cuts.size() ? cuts[i] : s.size();
		if (end <= at) continue;
		const string piece = s.substr(at, end - at); char* exact = new char[piece.size()]; memcpy(exact, piece.data(), piece.size()); // Of its exact size, so that reading beyond it is seen.
		const size_t n = p.inject(exact, (int)piece.size()); delete[] exact;
		at += n;
		if (p.done() || p.hasError() || n < piece.size()) break;
	}
	return at;
}

static string judge(const P& p, const Resp& r, size_t consumed, size_t expectConsumed, const string& before = "")
{
	if (p.hasError()) return "error '" + sb(p.errorString()) + "'";
	const string ev = before + (r.body.empty() || r.framing == Resp::None ? "BHE" : "BHcE");
	if (p.events != ev) return "callbacks " + p.events + " instead of " + ev;
	if (consumed != expectConsumed) return "consumed " + ref::num(consumed) + " bytes instead of " + ref::num(expectConsumed);
	if (p.statusCode() != r.status || p.httpMajor() != 1 || p.httpMinor() != r.minor) return "status " + ref::num(p.statusCode()) + " version " + ref::num(p.httpMajor()) + "." + ref::num(p.httpMinor());
	if (p.atHeaders != r.headers) return "headers when complete: " + hdr(p.atHeaders) + " instead of " + hdr(r.headers);
	if (p.got() != r.all()) return "headers at the end: " + hdr(p.got()) + " instead of " + hdr(r.all());
	if (p.streamed != r.body || sb(p.content()) != r.body) return "content [" + mc::show(sb(p.content())) + "] streamed [" + mc::show(p.streamed) + "] instead of [" + mc::show(r.body) + "]";
	if (p.shouldKeepAlive() != r.keepAlive()) return string("shouldKeepAlive() is ") + (p.shouldKeepAlive() ? "true" : "false");
	if (p.eofAtHeaders != (r.framing == Resp::Eof)) return "completesOnEof() is wrong";
	if (!p.parsingInCallbacks || p.isParsing()) return "isParsing() is wrong";
	return "";
}

static void complete(P& p, const Resp& r) { if (r.framing == Resp::Eof && !p.hasError()) p.injectEof(); }

static void oneSplit(Ctx& ctx, const Resp& r, const string& s, const std::vector<size_t>& cuts, const char* what)
{
	P p; const size_t n = injectPieces(p, s, cuts);
	if (r.framing == Resp::Eof && p.done()) { ctx.fail("a message ending at EOF completed before it (%s): %s", what, mc::show(s, 900).c_str()); return; }
	complete(p, r);
	const string why = judge(p, r, n, s.size());
	ctx.state(hash(hash(1, s), hash(n, cuts.empty() ? 0 : cuts.data(), cuts.size() * sizeof(size_t))));
	if (!why.empty()) { string c; for (size_t i = 0; i < cuts.size() && i < 8; ++i) c += " " + ref::num(cuts[i]); ctx.fail("%s; cut at%s (%s) of %s", why.c_str(), c.c_str(), what, mc::show(s, 900).c_str()); }
}
static void splits(Ctx& ctx, uint64_t root, int cutsMax)
{
	const Resp& r = responses()[root]; const string s = r.bytes(); std::vector<size_t> cuts;
	oneSplit(ctx, r, s, cuts, "whole");
	for (size_t i = 1; i < s.size(); ++i) cuts.push_back(i);
	oneSplit(ctx, r, s, cuts, "byte by byte");
	for (size_t a = 1; a < s.size() && !ctx.failed(); ++a)
	{
		oneSplit(ctx, r, s, std::vector<size_t>(1, a), "one cut");
		if (cutsMax >= 2) for (size_t b = a + 1; b < s.size() && !ctx.failed(); ++b)
		{
			size_t c[3] = { a, b, 0 }; oneSplit(ctx, r, s, std::vector<size_t>(c, c + 2), "two cuts");
			if (cutsMax >= 3) for (size_t d = b + 1; d < s.size() && !ctx.failed(); ++d) { c[2] = d; oneSplit(ctx, r, s, std::vector<size_t>(c, c + 3), "three cuts"); }
		}
	}
	ctx.log("%s", mc::show(s, 900).c_str());
}

// Two messages through one parser: everything of the first must be gone, and its end must be found exactly.
static void pairs(Ctx& ctx, uint64_t root)
{
	const std::vector<Resp>& v = responses(); const Resp& a = v[take(root, v.size())]; const Resp& b = v[take(root, v.size())];
	const string sa = a.bytes(), sb_ = b.bytes(), s = sa + sb_;
	const bool explicitClear = a.framing == Resp::Eof || !a.keepAlive();
	for (int mode = 0; mode < 3 && !ctx.failed(); ++mode) // No cut, every cut in the first, every cut in the second.
		for (size_t cut = mode == 0 ? 0 : mode == 1 ? 1 : sa.size() + 1; mode == 0 ? cut == 0 : mode == 1 ? cut < sa.size() : cut < s.size(); ++cut)
		{
			P p; std::vector<size_t> cuts; if (cut && mode == 1) cuts.push_back(cut);
			const string first = a.framing == Resp::Eof ? sa : s; // What follows a message that ends at EOF belongs to it.
			const size_t n = injectPieces(p, first, cuts); complete(p, a);
			string why = judge(p, a, n, sa.size());
			if (!why.empty()) { ctx.fail("first of two messages: %s; cut at %zu of %s", why.c_str(), cut, mc::show(s, 900).c_str()); return; }
			if (explicitClear || (cut + root) % 2)
			{
				p.clear();
				if (p.hasError() || p.statusCode() || p.headers().size() || !p.content().isEmpty()) { ctx.fail("clear() left something of %s", mc::show(sa, 900).c_str()); return; }
			}
			p.events.clear(); cuts.clear(); if (mode == 2) cuts.push_back(cut - sa.size());
			const size_t m = injectPieces(p, sb_, cuts); complete(p, b);
			why = judge(p, b, m, sb_.size());
			ctx.state(hash(hash(2, s), cut));
			if (!why.empty()) { ctx.fail("second of two messages%s: %s; cut at %zu of %s", explicitClear ? " (parser cleared)" : "", why.c_str(), cut, mc::show(s, 900).c_str()); return; }
			if (cut == 0 && mode != 0) break;
		}
	ctx.log("%s then %s", mc::show(sa, 400).c_str(), mc::show(sb_, 400).c_str());
}

// The parser is cleared (outside or inside a callback), or reaches the end of input, at every point of a message.
static void cleared(Ctx& ctx, uint64_t root)
{
	const std::vector<Resp>& v = responses(); const Resp& a = v[take(root, v.size())]; const Resp& b = v[take(root, v.size())]; const string sa = a.bytes(), sb_ = b.bytes();
	for (size_t k = 0; k < sa.size() && !ctx.failed(); ++k)
	{
		P p; injectPieces(p, sa.substr(0, k), std::vector<size_t>()); if (k % 2) p.injectEof();
		p.clear(); p.events.clear();
		const size_t n = injectPieces(p, sb_, std::vector<size_t>()); complete(p, b);
		const string why = judge(p, b, n, sb_.size()); ctx.state(hash(hash(3, sa + sb_), k));
		if (!why.empty()) ctx.fail("cleared after %zu bytes of %s%s, then %s: %s", k, mc::show(sa, 600).c_str(), k % 2 ? " and EOF" : "", mc::show(sb_, 600).c_str(), why.c_str());
	}
	for (int in = 1; in <= 3 && !ctx.failed(); ++in)
	{
		P p; p.clearIn = in; const size_t n = injectPieces(p, sa, std::vector<size_t>()); if (a.framing == Resp::Eof && in == 3) p.injectEof();
		const bool reached = in == 1 ? p.events.find('H') != string::npos : in == 2 ? p.events.find('c') != string::npos : p.events.find('E') != string::npos;
		if (reached && in == 1 && p.events != "BH") ctx.fail("cleared in headersComplete(), but callbacks went on: %s for %s", p.events.c_str(), mc::show(sa, 600).c_str());
		if (reached && in == 2 && p.events != "BHc") ctx.fail("cleared in messageContent(), but callbacks went on: %s for %s", p.events.c_str(), mc::show(sa, 600).c_str());
		if (reached && (p.hasError() || p.headers().size() || p.content().size())) ctx.fail("cleared in a callback, but something is left of %s", mc::show(sa, 600).c_str());
		(void)n; p.clear(); p.clearIn = 0; p.events.clear();
		const size_t m = injectPieces(p, sb_, std::vector<size_t>()); complete(p, b);
		const string why = judge(p, b, m, sb_.size()); ctx.state(hash(hash(4, sa + sb_), in));
		if (!why.empty()) ctx.fail("cleared in callback %d of %s, then %s: %s", in, mc::show(sa, 600).c_str(), mc::show(sb_, 600).c_str(), why.c_str());
	}
	ctx.log("%s / %s", mc::show(sa, 300).c_str(), mc::show(sb_, 300).c_str());
}

static void eofs(Ctx& ctx, uint64_t root)
{
	const Resp& r = responses()[root]; const string s = r.bytes(), head = r.head();
	for (size_t k = 0; k <= s.size() && !ctx.failed(); ++k)
		for (int oneByOne = 0; oneByOne < 2; ++oneByOne)
		{
			P p; std::vector<size_t> cuts; if (oneByOne) for (size_t i = 1; i < k; ++i) cuts.push_back(i);
			injectPieces(p, s.substr(0, k), cuts); const string before = p.events; p.injectEof(); ctx.state(hash(hash(5, s), k * 2 + oneByOne));
			const string at = "end of input after " + ref::num(k) + " bytes of " + mc::show(s, 900);
			if (k == 0) { if (p.hasError() || !p.events.empty()) ctx.fail("%s: callbacks %s, error '%s'", at.c_str(), p.events.c_str(), sb(p.errorString()).c_str()); }
			else if (r.framing == Resp::Eof && k >= head.size())
			{
				Resp part = r; part.body = r.body.substr(0, k - head.size()); const string why = judge(p, part, k, k);
				if (!why.empty()) ctx.fail("%s: %s", at.c_str(), why.c_str());
			}
			else if (k < s.size()) { if (!p.hasError() || p.events.find('E') != string::npos) ctx.fail("%s: no error (callbacks %s)", at.c_str(), p.events.c_str()); }
			else if (p.hasError() || p.events != before) ctx.fail("%s: callbacks %s after %s, error '%s'", at.c_str(), p.events.c_str(), before.c_str(), sb(p.errorString()).c_str());
		}
	ctx.log("end of input at every byte of %s", mc::show(s, 600).c_str());
}

static string outcome(const P& p, size_t n, bool bytes)
{
	if (p.hasError()) return "error " + ref::num(p.error()); // How much was reported before it is not specified.
	string o = "events ";
	o += p.events + " status " + ref::num(p.events.empty() ? 0 : p.statusCode()) + " content [" + sb(p.content()) + "]";
	if (bytes) o += " headers " + hdr(p.got()) + " consumed " + ref::num(n);
	return o;
}
static void rejects(Ctx& ctx, uint64_t root)
{
	const string s = malformed[root]; const bool prefix = s == "HTTP";
	std::vector<size_t> every; for (size_t i = 1; i < s.size(); ++i) every.push_back(i);
	string first;
	for (size_t a = 0; a <= s.size() && !ctx.failed(); ++a)
	{
		P p; std::vector<size_t> cuts; if (a == s.size()) cuts = every; else if (a) cuts.push_back(a);
		const size_t n = injectPieces(p, s, cuts); if (prefix) p.injectEof();
		if (!p.hasError()) ctx.fail("no error for %s (cut at %zu)", mc::show(s).c_str(), a);
		if (p.events.find('E') != string::npos) ctx.fail("a message completed for %s (cut at %zu)", mc::show(s).c_str(), a);
		if (p.errorString().isEmpty()) ctx.fail("no error text for %s", mc::show(s).c_str());
		const string o = outcome(p, n, true); if (a == 0) first = o; else if (o != first) ctx.fail("cut at %zu: %s, but whole: %s; of %s", a, mc::show(o).c_str(), mc::show(first).c_str(), mc::show(s).c_str());
		const string t = responses()[0].bytes(); p.clear(); p.events.clear(); const size_t m = injectPieces(p, t, std::vector<size_t>());
		const string why = judge(p, responses()[0], m, t.size()); ctx.state(hash(hash(6, s), a));
		if (!why.empty()) ctx.fail("cleared after the malformed %s: %s", mc::show(s).c_str(), why.c_str());
	}
	ctx.log("%s", mc::show(s).c_str());
}

// Every single-byte replacement, by representatives of every class of bytes: no oracle but that the division does not matter.
static void mutations(Ctx& ctx, uint64_t root, int deep)
{
	static const char reps[] = { 0, 1, '\t', '\n', '\r', ' ', '-', '0', '9', ':', ';', 'A', 'c', 'x', '~', 127, (char)200 };
	const string s = responses()[root].bytes(); std::vector<size_t> every; for (size_t i = 1; i < s.size(); ++i) every.push_back(i);
	for (size_t at = 0; at < s.size() && !ctx.failed(); ++at)
		for (size_t k = 0; k < (deep ? 256 : sizeof reps) && !ctx.failed(); ++k)
		{
			string m = s; m[at] = deep ? (char)k : reps[k]; string whole;
			for (size_t cut = 0; cut <= 4; ++cut)
			{
				P p; std::vector<size_t> cuts; if (cut == 1) cuts = every; else if (cut) { size_t c = at + cut - 2; if (c == 0 || c >= m.size()) continue; cuts.push_back(c); }
				const size_t n = injectPieces(p, m, cuts); const bool err = p.hasError(); if (!err && !p.done()) p.injectEof();
				const string o = outcome(p, n, true); if (cut == 0) whole = o;
				else if (o != whole) { ctx.fail("byte %zu replaced by %d: %s when %s, but %s when whole: %s", at, (int)m[at], mc::show(o).c_str(), cut == 1 ? "injected byte by byte" : "cut near it", mc::show(whole).c_str(), mc::show(m, 900).c_str()); break; }
				ctx.step();
			}
			ctx.state(hash(hash(7, s), at * 256 + (unsigned char)m[at]));
		}
	ctx.log("replacements in %s", mc::show(s, 600).c_str());
}

// Many and large headers and contents.
static const size_t sizes[] = { 0, 1, 15, 16, 255, 256, 4095, 4096, 32767, 32768, 65535, 65536, 131072, 1000000 };
static void large(Ctx& ctx, uint64_t root)
{
	const int what = take(root, 4); const size_t n = sizes[take(root, 14)]; static const size_t steps[] = { 1 << 30, 1, 1000, 4096, 65536 }; const size_t step = steps[take(root, 5)];
	Resp r; string big; for (size_t i = 0; i < n; ++i) big += (char)('a' + i * 7 % 26);
	if (what == 0) r.len(big); else if (what == 1) { std::vector<int> c; size_t p = 0, k = 1; while (p < n) { size_t z = std::min(k, n - p); c.push_back((int)z); p += z; k = k * 3 % 70001 + 1; } r.chk(big, c); } else if (what == 2) r.eof(big);
	else { if (n > 65536) return; size_t p = 0; int i = 0; while (p < n) { const size_t z = std::min<size_t>(n - p, (i * 37 % 900) + 1); r.h("H" + ref::num(i++), big.substr(p, z)); p += z + 10; } r.len("x"); }
	const string s = r.bytes(); std::vector<size_t> cuts; for (size_t i = step; i < s.size(); i += step) cuts.push_back(i);
	if (step == 1 && n > 70000) return;
	P p; const size_t m = injectPieces(p, s, cuts); complete(p, r); const string why = judge(p, r, m, s.size()); ctx.state(hash(hash(8, what * 100 + n), step));
	if (!why.empty()) ctx.fail("%s (%zu bytes, kind %d, injected %zu at a time)", why.substr(0, 400).c_str(), n, what, step);
	ctx.log("%zu bytes, kind %d, %zu at a time", n, what, step);
}

// What the framing headers say, at the limits of what they can say.
struct Framing { string head, body; int good; }; // good: 0 an error, 1 goes on forever, 2 complete, with "ab" for its content
static std::vector<Framing> framings()
{
	std::vector<Framing> v; const string h = "HTTP/1.1 200 OK\r\n", te = "Transfer-Encoding: chunked\r\n";
	auto length = [&](const string& l, int good) { Framing f = { h + "Content-Length: " + l + "\r\n\r\n", "ab", good }; v.push_back(f); };
	auto chunk = [&](const string& l, int good) { Framing f = { h + te + "\r\n" + l + "\r\n", good == 2 ? "ab\r\n0\r\n\r\n" : "ab", good }; v.push_back(f); };
	for (const char* l : { "3", "2147483647", "2147483648", "2147483650", "4294967295", "4294967296", "4294967298", "1000000000000", "9223372036854775807" }) length(l, 1);
	for (const char* l : { "18446744073709551616", "18446744073709551618", "27670116110564327424", "20000000000000000000", "36893488147419103234", "184467440737095516160002", "340282366920938463463374607431768211458", "1 2", "0 2", "2 2", "2 a", "+2", "-2", "2-", "0x2", "2.0", "two", "2,3" }) length(l, 0);
	length("2", 2); length("0002", 2); length(string(60, '0') + "2", 2); length("2 ", 2); length(" 2", 2);
	for (const char* l : { "3", "7fffffff", "80000000", "80000002", "FFFFFFFF", "100000000", "100000002", "7fffffffffffffff" }) chunk(l, 1);
	for (const char* l : { "10000000000000000", "10000000000000002", "18000000000000000", "1fffffffffffffff2", "100000000000000000000000000000002", "-2", "+2", "g", "" }) chunk(l, 0);
	chunk("2", 2); chunk("02", 2); chunk(string(60, '0') + "2", 2);
	for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) for (int between = 0; between < 2; ++between) for (int cs = 0; cs < 2; ++cs) // Several lengths.
	{
		static const char* l[] = { "2", "3", "0" }; if (a == b && a) continue;
		const string two = string("Content-Length: ") + l[a] + "\r\n" + (between ? "A: 7\r\n" : "") + (cs ? "content-length: " : "Content-Length: ") + l[b] + "\r\n";
		Framing f = { h + two + "\r\n", "ab", a == b ? 2 : 0 }; v.push_back(f);
		Framing g = { h + te + two + "\r\n", "2\r\nab\r\n0\r\n\r\n", 2 }; v.push_back(g);
		Framing k = { h + two + te + "\r\n", "2\r\nab\r\n0\r\n\r\n", 2 }; v.push_back(k);
	}
	return v;
}
static void framing(Ctx& ctx, uint64_t root)
{
	const Framing f = framings()[root]; const string s = f.head + f.body, t = responses()[0].bytes(); string first; const long long before = liveBytes();
	for (size_t cut = 0; cut <= s.size() && !ctx.failed(); ++cut)
	{
		P p; std::vector<size_t> cuts; if (cut == s.size()) for (size_t i = 1; i < s.size(); ++i) cuts.push_back(i); else if (cut) cuts.push_back(cut);
		const size_t n = injectPieces(p, s, cuts); ctx.state(hash(hash(9, s), cut)); string why;
		if (liveBytes() - before > (1 << 20)) why = "memory grew by " + ref::num(liveBytes() - before);
		else if (f.good == 0) { if (!p.hasError()) why = "no error"; else if (p.done()) why = "a message completed"; else if (!p.streamed.empty()) why = "content reported: " + mc::show(p.streamed); }
		else if (p.hasError()) why = "error '" + sb(p.errorString()) + "'";
		else if (p.streamed != "ab" || sb(p.content()) != "ab" || n != s.size()) why = "content [" + mc::show(p.streamed) + "] / [" + mc::show(sb(p.content())) + "], consumed " + ref::num(n);
		else if (p.events != (f.good == 2 ? "BHcE" : "BHc")) why = "callbacks " + p.events;
		else if (p.eofAtHeaders) why = "completesOnEof()";
		else if (f.good == 1) { p.injectEof(); if (!p.hasError() || p.done()) why = "no error at end of input"; }
		if (why.empty())
		{
			if (f.good != 2) p.clear();
			p.events.clear(); const size_t m = injectPieces(p, t, std::vector<size_t>()); why = judge(p, responses()[0], m, t.size()); if (!why.empty()) why = "the next response: " + why;
		}
		if (!why.empty()) ctx.fail("%s; cut at %zu of %s", why.c_str(), cut, mc::show(s).c_str());
	}
	ctx.log("%s", mc::show(s).c_str());
}

std::vector<Suite> suitesC16(Tier t)
{
	const bool th = t == Thorough; std::vector<Suite> v; const uint64_t n = responses().size();
	const int c = th ? 3 : 2; const int deep = th;
	v.push_back(Suite("splits", "each of " + ref::num(n) + " responses (statuses, versions, length, chunked with extensions and trailers, until EOF, bodiless) whole, byte by byte, and at every combination of up to " + ref::num(c) + " cuts", n, [c](Ctx& x, uint64_t r) { splits(x, r, c); }, 600));
	v.push_back(Suite("message-pairs", "every ordered pair of these responses through one parser, as one stream, with a cut at every position of either", n * n, pairs));
	v.push_back(Suite("cleared-anywhere", "every pair: the parser is cleared after every number of bytes of the first (with and without end of input), and inside each callback, then parses the second", n * n, cleared));
	v.push_back(Suite("end-of-input", "the input ends after every number of bytes of every response, injected whole and byte by byte", n, eofs));
	v.push_back(Suite("malformed", "every malformed response of a list, whole, at every cut, byte by byte; then the parser is cleared and used again", NMalformed, rejects));
	v.push_back(Suite("mutations", std::string("every byte of every response replaced by ") + (th ? "every other value" : "17 representative values") + ": the outcome is the same whole, byte by byte and cut around it", n, [deep](Ctx& x, uint64_t r) { mutations(x, r, deep); }, 600));
	v.push_back(Suite("sizes", "contents and header sets of 14 sizes up to 1000000 bytes, in 4 framings, injected in pieces of 5 sizes", 4 * 14 * 5, large));
	v.push_back(Suite("lengths", "content lengths and chunk sizes at and beyond the limits of 32 and 64 bits, malformed ones, several of them that agree or differ, with and without chunking: whole, at every cut, byte by byte; memory bounded by what arrived", framings().size(), framing));
	return v;
}
