// C01 (request parsing), C02 (rejection), C08 (parameters and decoding).
#include "conn.h"
using namespace mc;
using ref::Request;

static std::string alnumHeaders(int i) { return "X-H" + ref::num(i); }

std::vector<std::string> methods() { const char* m[] = { "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "M-SEARCH", "A", "ABCDEFGHIJKLMNOPQRST", "G.E_T$9" }; return std::vector<std::string>(m, m + 10); }

static std::vector<Request> targets()
{
	std::vector<Request> v;
	struct T { const char* path; const char* query; const char* fragment; };
	const T t[] = { { "/", 0, 0 }, { "/a", 0, 0 }, { "/a/b/c.html", 0, 0 }, { "/a%20b%C3%A9", 0, 0 }, { "/a", "x", 0 }, { "/a", "x=1&y=2", 0 }, { "/a", "", 0 }, { "/a", 0, "f" }, { "/a", "x=1", "f" },
		{ "/a", "", "f" }, { "/a", "x", "" }, { "/a", "", "" }, { "/a", 0, "" }, { "/a;p=1;q", "x", 0 }, { "/;p", 0, 0 }, { "//", 0, 0 }, { "//a//b", "q?r", 0 }, { "/a", "x=%41%26%3d&%C3%A9=%e9", "%41" },
		{ "/a:b@c&d=e+f", "a;b/c?d:e@f", "g;h/i?j" }, { "/%u41", "a+b=c+d", 0 }, { "/\xc3\xa9\"<>", "\xc3\xa9=\"<>", "\xff" } };
	for (size_t i = 0; i < sizeof t / sizeof *t; ++i)
	{
		Request r; r.path = t[i].path; if (t[i].query) { r.hasQuery = true; r.query = t[i].query; } if (t[i].fragment) { r.hasFragment = true; r.fragment = t[i].fragment; }
		v.push_back(r);
	}
	const char* o[] = { "*", "http://host:80/p?q=1", "x:", ":" };
	for (int i = 0; i < 4; ++i) { Request r; r.uri = o[i]; r.opaque = true; r.path = ""; v.push_back(r); }
	{ Request r; r.path = "/" + ref::text(1021); r.hasQuery = true; r.query = ref::text(1023) + "=" + ref::text(1024); v.push_back(r); }
	{ Request r; r.path = "/" + ref::text(1022); r.hasQuery = true; r.query = ref::text(1022); r.hasFragment = true; r.fragment = ref::text(1024); v.push_back(r); }
	return v;
}

static ref::Headers nHeaders(int n) { ref::Headers h; for (int i = 0; i < n; ++i) h.push_back(ref::Header(alnumHeaders(i), "v" + ref::num(i * 7))); return h; }

static std::vector<ref::Headers> headerSets()
{
	std::vector<ref::Headers> v; ref::Headers h;
	v.push_back(h);
	h.clear(); h.push_back(ref::Header("Host", "example.org:8080")); v.push_back(h);
	h.clear(); h.push_back(ref::Header("A", "")); h.push_back(ref::Header("B", "")); v.push_back(h);
	h.clear(); h.push_back(ref::Header("Cookie", "a=1; b=2")); h.push_back(ref::Header("Cookie", "c=3")); h.push_back(ref::Header("cookie", "d")); v.push_back(h);
	h.clear(); h.push_back(ref::Header("a!#$%&'*+-.^_`|~9", "v:w: x")); h.push_back(ref::Header("X", "trailing  ")); h.push_back(ref::Header("Y", "\tt\xff\x80\x01")); h.push_back(ref::Header("Z", "a\nb")); v.push_back(h);
	for (int n = 30; n <= 34; ++n) v.push_back(nHeaders(n));
	v.push_back(nHeaders(64)); v.push_back(nHeaders(65)); v.push_back(nHeaders(200));
	h = nHeaders(3); h[1].second = ref::text(3000); v.push_back(h);
	h = nHeaders(40); h[39].second = ref::text(20000); v.push_back(h);
	return v;
}

static std::vector<std::string> bodies()
{
	std::vector<std::string> v; v.push_back(""); v.push_back("x"); v.push_back(std::string("\0\r\n", 3)); v.push_back("GET / HTTP/1.1\r\n\r\n");
	std::string all; for (int i = 0; i < 256; ++i) all += (char)i;
	v.push_back(all);
	return v;
}

// Delivers s in the given cuts (sorted positions), checking after every segment that the request is announced exactly when complete.
static void deliver(Ctx& c, Rig& rig, const std::string& s, const std::vector<size_t>& cuts, size_t completeAt, uint64_t salt)
{
	size_t p = 0;
	for (size_t i = 0; i <= cuts.size() && !c.failed(); ++i)
	{
		const size_t e = i < cuts.size() ? cuts[i] : s.size();
		rig.dev->give(s.substr(p, e - p)); p = e;
		const int ready = rig.count('R');
		c.state(hash(hash(salt, p), hash((uint64_t)rig.conn->state(), ready)));
		if (ready != (p >= completeAt ? 1 : 0)) c.fail("after %zu of %zu bytes requestReady was emitted %d times, message: %s", p, completeAt, ready, show(s).c_str());
		const int st = rig.conn->state();
		const int want = p >= completeAt ? Pillow::HttpConnection::SendingHeaders : -1;
		if (want >= 0 ? st != want : (st != Pillow::HttpConnection::ReceivingHeaders && st != Pillow::HttpConnection::ReceivingContent)) c.fail("state %s after %zu of %zu bytes, message: %s", stateName(st), p, completeAt, show(s).c_str());
	}
}

static void checkSeen(Ctx& c, Rig& rig, const Request& r, const std::string& how)
{
	if (c.failed()) return;
	if (rig.seen.size() != 1) { c.fail("%zu requests", rig.seen.size()); return; }
	const Seen e = expected(r, rig.seen[0]);
	if (!(rig.seen[0] == e)) c.fail("%s: reported  %s\nexpected  %s\nsent %s", how.c_str(), show(rig.seen[0].text(), 1500).c_str(), show(e.text(), 1500).c_str(), show(r.bytes()).c_str());
	// Also still the same through the accessors afterwards, and lookups by name find the first occurrence.
	const Seen again = look(rig.conn);
	if (!c.failed() && !(again == rig.seen[0])) c.fail("%s: accessors changed: %s", how.c_str(), show(again.text(), 1500).c_str());
	for (size_t i = 0; i < r.headers.size() && !c.failed() && i < 40; ++i)
	{
		std::string k = r.headers[i].first; for (size_t j = 0; j < k.size(); ++j) if (ref::isAlpha(k[j])) k[j] ^= 32;
		if (sb(rig.conn->requestHeaderValue(qb(k))) != *ref::find(r.headers, k)) c.fail("%s: header %s looked up as [%s]", how.c_str(), k.c_str(), show(sb(rig.conn->requestHeaderValue(qb(k)))).c_str());
	}
	if (!rig.dev->out.empty()) c.fail("%s: bytes written without a response: %s", how.c_str(), show(rig.dev->out).c_str());
	if (rig.order() != "R") c.fail("%s: signals %s", how.c_str(), rig.order().c_str());
}

static void oneSplit(Ctx& c, const Request& r, const std::string& s, const std::vector<size_t>& cuts, int maxRead, uint64_t salt, bool initialData = false)
{
	Rig rig; rig.dev->maxRead = maxRead;
	std::string how = "cuts";
	for (size_t i = 0; i < cuts.size() && i < 30; ++i) how += " " + ref::num(cuts[i]);
	c.log("%s | %s", how.c_str(), show(s, 160).c_str());
	if (initialData && !cuts.empty())
	{
		rig.dev->feed(s.substr(0, cuts[0]));
		rig.start();
		pump();
		std::vector<size_t> rest(cuts.begin() + 1, cuts.end()); size_t p = cuts[0];
		for (size_t i = 0; i <= rest.size(); ++i) { const size_t e = i < rest.size() ? rest[i] : s.size(); if (e > p) rig.dev->give(s.substr(p, e - p)); p = e; }
		c.state(hash(salt, cuts[0]));
	}
	else { rig.start(); deliver(c, rig, s, cuts, s.size(), salt); }
	checkSeen(c, rig, r, how);
	if (c.failed()) return;
	rig.conn->writeResponse(200, Pillow::HttpHeaderCollection(), "ok"); // And it can be answered.
	if (rig.count('C') != 1) c.fail("%s: the response did not complete", how.c_str());
}

static std::vector<size_t> one(size_t a) { return std::vector<size_t>(1, a); }
static std::vector<size_t> everyByte(size_t n) { std::vector<size_t> v; for (size_t i = 1; i < n; ++i) v.push_back(i); return v; }

// Interesting split positions of a long message: everything near structure, plus buffer thresholds.
static std::vector<size_t> positions(const std::string& s, size_t dense)
{
	std::vector<size_t> v; const size_t n = s.size();
	if (n <= dense) return everyByte(n);
	size_t he = s.find("\r\n\r\n"); if (he == std::string::npos) he = n; else he += 4;
	for (size_t i = 1; i < n; ++i)
	{
		bool keep = i < 48 || n - i < 12 || (i + 8 > he && i < he + 8);
		if (!keep && i < he && he < 4000) keep = s[i] == '\r' || s[i] == '\n' || s[i - 1] == '\n' || s[i] == ':' || s[i - 1] == ':';
		if (!keep && (i % 1024 == 0 || i % 4096 == 1 || i % 8192 == 8191)) keep = true;
		if (keep) v.push_back(i);
	}
	return v;
}

static std::vector<Request> corpus()
{
	std::vector<Request> v; const std::vector<Request> ts = targets(); const std::vector<std::string> ms = methods(); const std::vector<ref::Headers> hs = headerSets(); const std::vector<std::string> bs = bodies();
	const char* versions[] = { "HTTP/1.1", "HTTP/1.0", "HTTP/2.10", "HTTP/0.9", "HTTP/123.456" };
	for (size_t m = 0; m < ms.size(); ++m) for (size_t t = 0; t < ts.size(); ++t) for (int ver = 0; ver < 2; ++ver) { Request r = ts[t]; r.method = ms[m]; r.version = versions[ver]; v.push_back(r); }
	for (size_t t = 0; t < ts.size(); ++t) for (size_t h = 0; h < hs.size(); ++h) for (size_t b = 0; b < bs.size(); ++b)
	{
		Request r = ts[t]; r.method = b ? "POST" : "GET"; r.version = versions[(t + h) % 5]; r.headers = hs[h];
		if (b || (t % 2)) { if ((t + b) % 3 == 0) { r.headers.insert(r.headers.begin(), ref::Header("content-LENGTH", ref::num(bs[b].size()))); r.body = bs[b]; } else r.content(bs[b]); }
		v.push_back(r);
	}
	return v;
}

// Head size x content size x arrival: the boundaries of the reads against the boundaries of the message.
static const size_t gridHeads[] = { 60, 300, 900, 1020, 1030, 2000, 4100, 9000, 20000, 32000 };
static const size_t gridBodies[] = { 0, 1, 60, 200, 500, 513, 800, 1025, 3000, 5000, 16000, 31000, 32760, 33000, 40000, 70000, 140000 };
enum { GridHeads = sizeof gridHeads / sizeof *gridHeads, GridBodies = sizeof gridBodies / sizeof *gridBodies, GridArrivals = 12 };
#define GRID_TEXT "10 head sizes (60 bytes .. 32000) x 17 content sizes (0 .. 140000) x 12 arrivals (whole; head alone; cut 1 before/after the head's end; half a head; content cut 1 from its start/end or in halves; steps of 536/1460/8192; the head byte by byte)"

static Request gridRequest(size_t head, size_t body, int salt)
{
	Request r; r.method = "POST"; r.path = "/grid" + ref::num(salt); r.hasQuery = true; r.query = "a=%41&b=" + ref::num(salt); r.h("X-First", "f" + ref::num(salt));
	r.content(ref::pattern(body, salt)); r.h("X-Last", ""); const size_t have = r.head().size();
	if (have < head) r.headers.back().second = ref::text(head - have, salt);
	return r;
}

static std::vector<size_t> gridCuts(int arrival, size_t head, size_t size)
{
	std::vector<size_t> v; size_t step = 0;
	switch (arrival)
	{
	case 1: v.push_back(head); break; case 2: v.push_back(head - 1); break; case 3: v.push_back(head + 1); break; case 4: v.push_back(head / 2); break;
	case 5: v.push_back(head); v.push_back(head + 1); break; case 6: v.push_back(head); v.push_back(size - 1); break; case 7: v.push_back(head / 2); v.push_back(head); v.push_back(head + (size - head) / 2); break;
	case 8: step = 536; break; case 9: step = 1460; break; case 10: step = 8192; break;
	case 11: if (head <= 2000) for (size_t i = 1; i <= head; ++i) v.push_back(i); else v.push_back(head - 2); break;
	}
	if (step) for (size_t p = step; p < size; p += step) v.push_back(p);
	std::vector<size_t> w; for (size_t i = 0; i < v.size(); ++i) if (v[i] > 0 && v[i] < size && (w.empty() || v[i] > w.back())) w.push_back(v[i]);
	return w;
}

std::vector<Suite> suitesC01(Tier tier)
{
	std::vector<Suite> v;
	static std::vector<Request> all = corpus();
	const size_t dense = tier == Quick ? 200 : 600;
	v.push_back(Suite("grammar-one-split", "every request of the component grammar (10 methods x 27 targets x versions; 27 targets x 15 header sets up to 200 headers x 5 bodies) x {whole, every single split (every position up to " + ref::num(dense) + " bytes, structural and threshold positions beyond), byte by byte, short reads of 1/3/7 bytes, first part already buffered at start}",
		all.size(), [dense](Ctx& c, uint64_t i) {
			const Request& r = all[(size_t)i]; const std::string s = r.bytes();
			const std::vector<size_t> ps = positions(s, dense); const uint64_t salt = hash(1, s);
			const int modes = (int)ps.size() + 8;
			const int m = c.choose(modes);
			if (m == 0) oneSplit(c, r, s, std::vector<size_t>(), 0, salt);
			else if (m == 1) oneSplit(c, r, s, s.size() < 3000 ? everyByte(s.size()) : ps, 0, salt);
			else if (m == 2) oneSplit(c, r, s, std::vector<size_t>(), s.size() < 3000 ? 1 : 701, salt);
			else if (m == 3) oneSplit(c, r, s, std::vector<size_t>(), s.size() < 3000 ? 3 : 4096, salt);
			else if (m == 4) oneSplit(c, r, s, one(s.size() / 2), s.size() < 3000 ? 7 : 5001, salt);
			else if (m == 5) oneSplit(c, r, s, one(s.size()), 0, salt, true);
			else if (m == 6) oneSplit(c, r, s, one(s.size() / 2), 0, salt, true);
			else if (m == 7) oneSplit(c, r, s, one(1), 0, salt, true);
			else oneSplit(c, r, s, one(ps[m - 8]), 0, salt);
		}));

	static std::vector<Request> mid; mid.clear();
	{
		Request a; a.method = "POST"; a.path = "/p%41"; a.hasQuery = true; a.query = "x=%42&y"; a.hasFragment = true; a.fragment = "f"; a.h("A", "").h("Bc", "d: e"); a.content("hello"); mid.push_back(a);
		Request b; b.path = "/"; b.hasQuery = true; b.query = ""; b.version = "HTTP/1.0"; b.h("K", "v"); mid.push_back(b);
		Request d; d.method = "PUT"; d.path = "/;x"; d.h("Expect", "x").h("content-length", "2"); d.body = "\r\n"; mid.push_back(d);
		Request e; e.uri = "*"; e.opaque = true; e.path = ""; e.method = "OPTIONS"; e.h("A", "b").h("A", "c"); mid.push_back(e);
	}
	v.push_back(Suite("all-double-splits", "4 medium requests x every pair of split positions", mid.size() * 160, [](Ctx& c, uint64_t i) {
			const int k = take(i, mid.size()); const Request& r = mid[k]; const std::string s = r.bytes(); const size_t a = i + 1;
			if (a + 1 >= s.size()) return;
			const size_t b = a + 1 + c.choose((int)(s.size() - a - 1));
			std::vector<size_t> cuts; cuts.push_back(a); cuts.push_back(b);
			oneSplit(c, r, s, cuts, 0, hash(2, s));
		}));

	const int segLen = tier == Quick ? 12 : 17;
	v.push_back(Suite("all-segmentations", "the request 'A /?b#c HTTP/1.1 CRLF D:e CRLF CRLF': every subset of split points inside its first and its last " + ref::num(segLen) + " bytes", 2ULL << (segLen - 4), [segLen](Ctx& c, uint64_t i) {
			Request r; r.method = "A"; r.path = "/"; r.hasQuery = true; r.query = "b"; r.hasFragment = true; r.fragment = "c"; r.h("D", "e");
			const std::string s = r.head(std::vector<std::string>(1, std::string()));
			const bool tail = i & 1; const uint64_t hi = i >> 1; const uint64_t mask = (hi << 4) | c.choose(16);
			std::vector<size_t> cuts; for (int b = 0; b < segLen; ++b) if (mask & (1ULL << b)) { size_t p = tail ? s.size() - segLen + b : b + 1; if (p > 0 && p < s.size() && (cuts.empty() || p > cuts.back())) cuts.push_back(p); }
			oneSplit(c, r, s, cuts, 0, hash(3, s));
		}));

	v.push_back(Suite("value-spacing", "header value spacings (none, one, several spaces, spaces only) x header count x every single split", 4 * 3 * 2, [](Ctx& c, uint64_t i) {
			static const char* gaps[] = { "", " ", "    ", "  " };
			const int g = take(i, 4), n = take(i, 3), empty = take(i, 2);
			Request r; std::vector<std::string> gp;
			for (int k = 0; k <= n; ++k) { r.h("N" + ref::num(k), empty ? "" : "v v"); gp.push_back(gaps[(g + k) % 4]); }
			const std::string s = r.head(gp);
			oneSplit(c, r, s, one(1 + c.choose((int)s.size() - 1)), 0, hash(4, s));
		}));

	static std::vector<size_t> sizes; sizes.clear();
	{ const size_t z[] = { 900, 1024, 4096, 16384, 32600, 32700, 32767, 32768, 32769, 33000, 65536, 100000, 300001 }; for (size_t i = 0; i < sizeof z / sizeof *z; ++i) sizes.push_back(z[i]); if (tier == Thorough) { sizes.push_back(1 << 20); sizes.push_back(3000000); } }
	v.push_back(Suite("large-content", "content sizes around the buffer thresholds x header counts {1, 40} x split patterns (whole, every structural/threshold position, 1000- and 4096-byte steps, short reads)", sizes.size() * 2, [](Ctx& c, uint64_t i) {
			const size_t n = sizes[take(i, sizes.size())]; const int hs = take(i, 2);
			Request r; r.method = "POST"; r.path = "/up"; r.hasQuery = true; r.query = "q=1"; r.headers = nHeaders(hs ? 40 : 1); r.content(ref::pattern(n));
			const std::string s = r.bytes(); const std::vector<size_t> ps = positions(s, 0);
			const int m = c.choose((int)ps.size() + 4);
			std::vector<size_t> cuts;
			if (m == 1) for (size_t p = 1000; p < s.size(); p += 1000) cuts.push_back(p);
			if (m == 2) for (size_t p = 4096; p < s.size(); p += 4096) cuts.push_back(p);
			if (m >= 4) cuts.push_back(ps[m - 4]);
			oneSplit(c, r, s, cuts, m == 3 ? 1460 : 0, hash(5, n * 2 + hs));
		}));

	v.push_back(Suite("large-head", "request heads of 32767 bytes (the longest inside the limit) and a little less (one long value; many headers; long query), with and without content, x split patterns", 3 * 4 * 2, [](Ctx& c, uint64_t i) {
			const int shape = take(i, 3), less = take(i, 4), body = take(i, 2);
			Request r; r.method = "POST"; r.path = "/h";
			if (shape == 1) r.headers = nHeaders(900);
			if (body) r.content("12345");
			const size_t target = 32767 - (less == 3 ? 500 : less);
			if (shape == 2) { r.hasQuery = true; r.query = ""; r.query = ref::text(target - r.head().size()); }
			else { r.h("Pad", ""); const size_t have = r.head().size(); r.headers.back().second = ref::text(target - have); }
			const std::string s = r.bytes();
			if (r.head().size() != target) { c.fail("harness: head size"); return; }
			const std::vector<size_t> ps = positions(s, 0);
			const int m = c.choose((int)ps.size() + 2);
			std::vector<size_t> cuts; if (m == 1) for (size_t p = 1000; p < s.size(); p += 1000) cuts.push_back(p); if (m >= 2) cuts.push_back(ps[m - 2]);
			oneSplit(c, r, s, cuts, 0, hash(6, s));
		}));

	v.push_back(Suite("head-content-grid", GRID_TEXT, GridHeads * GridBodies, [](Ctx& c, uint64_t i) {
			const size_t h = gridHeads[take(i, GridHeads)], b = gridBodies[take(i, GridBodies)]; const int a = c.choose(GridArrivals);
			const Request r = gridRequest(h, b, a); const std::string s = r.bytes(); oneSplit(c, r, s, gridCuts(a, s.size() - b, s.size()), 0, hash(70, s));
		}));

	v.push_back(Suite("failing-reads", "4 requests x a read error (-1) on every read of a delivery in up to 3 segments: the request is still reported as sent once its bytes can be read", 4, [](Ctx& c, uint64_t i) {
			Request r; if (i & 1) r.method = "POST"; r.path = "/fail"; r.h("Host", "h"); if (i & 1) r.content("12345"); if (i & 2) r.h("Pad", ref::text(5000));
			const std::string s = r.bytes(); const size_t z = s.size(); const size_t cuts[] = { 0, 1, z / 3, z / 2, z - 7, z - 1 };
			const size_t a = cuts[c.choose(6)], b = cuts[c.choose(6)]; if (b < a) return; const size_t p[] = { 0, a, b, z };
			Rig rig; rig.start();
			for (int k = 0; k < 3; ++k)
			{
				rig.dev->failReads = c.choose(3); const int fails = rig.dev->failReads;
				for (int n = 0; n <= fails; ++n) { rig.dev->give(n ? "" : s.substr(p[k], p[k + 1] - p[k])); c.state(hash(hash(77, p[k + 1]), (uint64_t)rig.conn->state())); }
				rig.dev->failReads = 0; rig.dev->give("");
				if (rig.count('R') != (p[k + 1] == z ? 1 : 0)) { c.fail("after %zu of %zu bytes %d requests", p[k + 1], z, rig.count('R')); return; }
			}
			checkSeen(c, rig, r, "with read errors");
		}));

	v.push_back(Suite("expect-continue", "Expect header spellings x content sizes x versions x every single split: one interim response, before the content is complete, to HTTP/1.1 clients only", 5 * 4 * 2, [](Ctx& c, uint64_t i) {
			static const char* spell[] = { "100-continue", "100-Continue", "100-CONTINUE", "something", "100-continue2" };
			const int e = take(i, 5), n = take(i, 4), ver = take(i, 2);
			static const size_t sz[] = { 0, 1, 5, 40000 };
			Request r; r.method = "POST"; r.version = ver ? "HTTP/1.0" : "HTTP/1.1"; r.h(ver ? "expect" : "Expect", spell[e]).content(ref::text(sz[n]));
			const std::string s = r.bytes(); const size_t headEnd = r.head().size(); const std::vector<size_t> ps = positions(s, 200);
			const int m = c.choose((int)ps.size() + 1);
			Rig rig; rig.start();
			const size_t cut = m == 0 ? 0 : ps[m - 1];
			const bool wants = e < 3 && sz[n] > 0 && !ver; const std::string interim = "HTTP/1.1 100 Continue\r\n\r\n";
			if (cut) { rig.dev->give(s.substr(0, cut)); const std::string w = wants && cut >= headEnd ? interim : ""; if (rig.dev->out != w) c.fail("after %zu bytes (head %zu) wrote [%s]", cut, headEnd, show(rig.dev->out).c_str()); }
			c.state(hash(hash(7, i), cut));
			rig.dev->give(s.substr(cut));
			c.state(hash(hash(8, i), cut));
			if (rig.dev->out != (wants ? interim : "")) c.fail("Expect: %s, %zu bytes, cut %zu: wrote [%s]", spell[e], sz[n], cut, show(rig.dev->out).c_str());
			if (rig.order() != "R") { c.fail("signals %s", rig.order().c_str()); return; }
			const Seen x = expected(r, rig.seen[0]); if (!(x == rig.seen[0])) c.fail("reported %s", show(rig.seen[0].text()).c_str());
		}));
	return v;
}

//
// C02
//

// Runs a complete byte stream through a connection whose handler answers every request at once, and compares with the reference.
static void runStream(Ctx& c, const std::string& s, const std::vector<size_t>& cuts, uint64_t salt)
{
	const ref::StreamResult want = ref::parseStream(s);
	if (want.ambiguous) return;
	Rig rig; rig.lookDecoded = false; int delivered = 0;
	const bool closeOn = false; (void)closeOn;
	rig.onReady = [&](Pillow::HttpConnection* conn) { ++delivered; conn->writeResponse(200, Pillow::HttpHeaderCollection(), "ok"); };
	// A request that asks for closing ends the stream.
	size_t nReq = want.requests.size(); bool closes = false;
	for (size_t i = 0; i < want.requests.size(); ++i)
	{
		const Request& r = want.requests[i];
		for (size_t k = 0; k < r.headers.size(); ++k) if (ref::ieq(r.headers[k].first, "connection") && r.headers[k].second.find_first_of("\v\f\r\n") != std::string::npos) return; // Whether that is white space is not specified.
		if (r.http11() ? ref::connectionOption(r.headers, "close") : !ref::connectionOption(r.headers, "keep-alive")) { nReq = i + 1; closes = true; break; }
	}
	c.log("%s", show(s, 200).c_str());
	rig.start();
	size_t p = 0;
	for (size_t i = 0; i <= cuts.size(); ++i)
	{
		const size_t e = i < cuts.size() ? cuts[i] : s.size();
		if (e <= p) continue;
		rig.dev->give(s.substr(p, e - p)); p = e;
		c.state(hash(hash(salt, p), hash((uint64_t)rig.conn->state(), rig.dev->out)));
	}
	// Interim responses are not of interest here.
	std::string out = rig.dev->out; size_t q; const std::string interim = "HTTP/1.1 100 Continue\r\n\r\n";
	while ((q = out.find(interim)) != std::string::npos) out.erase(q, interim.size());
	if (rig.seen.size() != nReq) { c.fail("%zu requests delivered, %zu expected; stream %s; wrote %s", rig.seen.size(), nReq, show(s).c_str(), show(out).c_str()); return; }
	for (size_t i = 0; i < nReq; ++i)
	{
		Seen x = expected(want.requests[i], rig.seen[i]); x.uriD = x.pathD = x.queryD = x.fragmentD = ""; x.params.clear();
		if (!(x == rig.seen[i])) { c.fail("request %zu reported %s; stream %s", i, show(rig.seen[i].text()).c_str(), show(s).c_str()); return; }
	}
	size_t pos = 0; size_t n = 0;
	for (; n < nReq; ++n)
	{
		ref::Response r; size_t next = 0;
		if (!ref::parseResponse(out, pos, want.requests[n].method == "HEAD", &r, &next) || !r.problem.empty() || !r.complete || r.status != 200) { c.fail("response %zu invalid (%s) in %s; stream %s", n, r.problem.c_str(), show(out).c_str(), show(s).c_str()); return; }
		pos = next;
	}
	const bool isClosed = rig.closed();
	if (closes || !want.error)
	{
		if (pos != out.size()) c.fail("unexpected output [%s] for stream %s", show(out.substr(pos)).c_str(), show(s).c_str());
		if (isClosed != closes) c.fail("connection is %s for stream %s", stateName(rig.conn->state()), show(s).c_str());
		return;
	}
	ref::Response r; size_t next = 0;
	if (!ref::parseResponse(out, pos, false, &r, &next) || !r.problem.empty()) { c.fail("no valid error response: [%s] for stream %s", show(out.substr(pos)).c_str(), show(s).c_str()); return; }
	if (want.error > 0 ? r.status != want.error : (r.status != 400 && r.status != 413 && r.status != 501)) c.fail("error status %d, expected %d, for stream %s", r.status, want.error, show(s).c_str());
	if (!ref::ieq(ref::value(r.headers, "connection"), "close")) c.fail("error response without Connection: close: %s", show(out.substr(pos)).c_str());
	if (next != out.size() || !r.body.empty()) c.fail("more than one error response: %s", show(out.substr(pos)).c_str());
	if (!isClosed || rig.dev->closeCount != 1 || rig.count('X') != 1) c.fail("not closed after the error response (state %s); stream %s", stateName(rig.conn->state()), show(s).c_str());
	// Nothing is accepted any more.
	if (!c.failed()) { rig.dev->notify(); rig.conn->writeResponse(200, Pillow::HttpHeaderCollection(), "x"); if (rig.dev->out.size() - (rig.dev->out.size() - out.size()) != out.size() || rig.seen.size() != nReq) c.fail("activity after the error"); }
}

std::vector<Suite> suitesC02(Tier tier)
{
	std::vector<Suite> v;
	static std::vector<std::string> base; base.clear();
	{
		Request a; a.path = "/a%20b"; a.hasQuery = true; a.query = "x=%41"; a.hasFragment = true; a.fragment = "f"; a.h("Host", "h:1").h("A", ""); base.push_back(a.bytes());
		Request b; b.method = "POST"; b.path = "/p;q"; b.h("Content-Length", "3").h("X", "y z"); b.body = "abc"; base.push_back(b.bytes());
		Request d; d.uri = "http://h/p?q#"; d.hasFragment = false; d.version = "HTTP/1.0"; d.h("Connection", "keep-alive"); base.push_back(d.bytes());
		Request e; e.uri = "*"; e.method = "OPTIONS"; e.h("C", "d"); base.push_back(e.bytes());
		Request f; f.method = "ABCDEFGHIJKLMNOPQRST"; f.path = "/"; f.version = "HTTP/12.34"; f.h("Connection", "keep-alive"); base.push_back(f.bytes());
	}
	static std::string okBefore = Request().h("A", "b").bytes(); static std::string okPost = []() { Request r; r.method = "POST"; r.content("xyz"); return r.bytes(); }();
	static std::vector<std::pair<int, int> > mutations; mutations.clear(); // base, position
	for (size_t b = 0; b < base.size(); ++b) for (size_t p = 0; p <= base[b].size(); ++p) mutations.push_back(std::make_pair((int)b, (int)p));
	const int follow = 3;
	v.push_back(Suite("single-byte-mutations", "5 base requests x every position x {delete, truncate, duplicate, replace by every byte value, insert every byte value} x {whole, split at the mutation, byte by byte} x {alone, after a GET, after a GET and a POST}" , mutations.size() * follow, [tier](Ctx& c, uint64_t i) {
			const int f = take(i, 3); const std::pair<int, int> mu = mutations[(size_t)i]; const std::string& b = base[mu.first]; const size_t p = mu.second;
			const int op = c.choose(515); std::string s = b;
			if (f != 0 && tier == Quick && op > 3 && op % 16 != (int)(p % 16)) return; // Every byte value at every position is tried alone; behind other requests a sixteenth of them.
			if (op == 512) { if (p >= b.size()) return; s.erase(p, 1); }
			else if (op == 513) s.erase(p);
			else if (op == 514) { if (p >= b.size()) return; s.insert(p, 1, b[p]); }
			else if (op < 256) { if (p >= b.size() || (unsigned char)b[p] == op) return; s[p] = (char)op; }
			else s.insert(p, 1, (char)(op - 256));
			const std::string before = f == 0 ? "" : f == 1 ? okBefore : okBefore + okPost;
			s = before + s;
			const int split = c.choose(3); std::vector<size_t> cuts;
			if (split == 1 && before.size() + p > 0 && before.size() + p < s.size()) cuts.push_back(before.size() + p);
			if (split == 2) cuts = everyByte(s.size());
			runStream(c, s, cuts, hash(10, s));
		}));

	static std::vector<std::string> lengths; lengths.clear();
	{
		const char* l[] = { "-1", "-5", "-134217728", "-2147483648", "134217729", "134217730", "200000000", "2147483647", "2147483648", "4294967296", "4294967297", "4294967300", "9223372036854775807", "9223372036854775808", "18446744073709551616", "18446744073709551619",
			"99999999999999999999999999", "abc", "", "0x10", "1e3", "3,3", "3;q", "3a", "a3", "--3", "- 3x", "-2147483649", "-99999999999999", "3.0", "0003", "0", "3", "00000000000000000000003", "NaN", "(3)", "3 abc", "134217728", "134217727", "000134217728", "100000000" };
		for (size_t i = 0; i < sizeof l / sizeof *l; ++i) lengths.push_back(l[i]);
	}
	v.push_back(Suite("within-the-limits", GRID_TEXT " x {alone, a second such request behind it in the same reads, a malformed one behind it}: requests within the limits are never rejected, and what is behind them is treated by its own merit", GridHeads * GridBodies * 3, [](Ctx& c, uint64_t i) {
			const size_t h = gridHeads[take(i, GridHeads)], b = gridBodies[take(i, GridBodies)]; const int behind = take(i, 3), a = c.choose(GridArrivals);
			std::string s = gridRequest(h, b, a).bytes(); const std::vector<size_t> cuts = gridCuts(a, s.size() - b, s.size());
			if (behind == 1) s += gridRequest(gridHeads[(b + a) % GridHeads], gridBodies[(h + a) % 8], 3).bytes(); if (behind == 2) s += "POST /bad HTTP/1.1\r\nContent-Length: -4\r\n\r\n";
			runStream(c, s, cuts, hash(14, s));
		}));
	v.push_back(Suite("content-length-forms", "41 content-length values (negative, zero-padded, just below, at and over 128 MB, beyond int/int64, garbage) x header spelling x Expect x {alone, after a GET} x every single split x byte by byte", lengths.size() * 3 * 2 * 2, [](Ctx& c, uint64_t i) {
			const std::string l = lengths[take(i, lengths.size())]; const int sp = take(i, 3), ex = take(i, 2), f = take(i, 2);
			static const char* spell[] = { "Content-Length", "content-length", "CONTENT-LENGTH" };
			Request r; r.method = "POST"; if (ex) r.h("Expect", "100-continue"); r.h(spell[sp], l).h("Z", "z");
			const std::string s = (f ? okBefore : "") + r.head() + "abc";
			const int m = c.choose((int)s.size() + 1); std::vector<size_t> cuts;
			if (m == (int)s.size()) cuts = everyByte(s.size()); else if (m > 0) cuts.push_back(m);
			runStream(c, s, cuts, hash(11, s));
		}));

	v.push_back(Suite("lengths-and-codings", "every pair of 14 headers (Content-Length 0, 3, 03, 7, -1, x, 200000000; Transfer-Encoding chunked, Chunked, identity, gzip, 'identity, chunked', 'chunked ' and another header), the second one possibly absent x with or without a header between them x {alone, after a GET} x {3 bytes, a chunked body and a request behind} x every single split x byte by byte", 14ull * 15 * 2 * 2 * 2, [](Ctx& c, uint64_t i) {
			static const char* h[][2] = { { "X-Y", "z" }, { "Content-Length", "0" }, { "Content-Length", "3" }, { "content-length", "03" }, { "Content-Length", "7" }, { "Content-Length", "-1" }, { "Content-length", "x" }, { "CONTENT-LENGTH", "200000000" },
				{ "Transfer-Encoding", "chunked" }, { "transfer-encoding", "Chunked" }, { "Transfer-Encoding", "Identity" }, { "Transfer-Encoding", "gzip" }, { "TRANSFER-ENCODING", "identity, chunked" }, { "Transfer-Encoding", "chunked " } };
			const int a = take(i, 14), b = take(i, 15), between = take(i, 2), f = take(i, 2), body = take(i, 2);
			Request r; r.method = "POST"; r.h(h[a][0], h[a][1]); if (between) r.h("B", ""); if (b) r.h(h[b - 1][0], h[b - 1][1]);
			const std::string s = (f ? okBefore : "") + r.head() + (body ? "3\r\nabc\r\n0\r\n\r\nGET /smuggled HTTP/1.1\r\n\r\n" : "abc");
			const int m = c.choose((int)s.size() + 1); std::vector<size_t> cuts;
			if (m == (int)s.size()) cuts = everyByte(s.size()); else if (m > 0) cuts.push_back(m);
			runStream(c, s, cuts, hash(19, s));
		}));

	v.push_back(Suite("head-size-limit", "heads of 32768-2 .. 32768+2 and 40000, 70000 bytes, complete or never ending, of three shapes (long value, many headers, long target) x {alone, after a GET} x split patterns", 3 * 8 * 2 * 2, [](Ctx& c, uint64_t i) {
			static const int delta[] = { -2, -1, 0, 1, 2, 7232, 37232, 100000 };
			const int shape = take(i, 3), d = take(i, 8), f = take(i, 2), endless = take(i, 2);
			Request r; const size_t target = 32768 + delta[d];
			if (shape == 1) r.headers = nHeaders(500);
			if (shape == 2) r.path = "/" + ref::text(target - r.head().size()); else { r.h("Pad", ""); const size_t have = r.head().size(); r.headers.back().second = ref::text(target - have); }
			std::string s = r.head(); if (endless) { s.erase(s.size() - 4); s += "xxxx"; }
			s = (f ? okBefore : "") + s;
			static const int steps[] = { 0, 1, 1000, 4096, 32768, 32767 }; const int m = c.choose(12); std::vector<size_t> cuts;
			if (m == 1) { cuts.push_back(s.size() - 1); }
			else if (m >= 6) { static const int at[] = { 32766, 32767, 32768, 32769, 32770, 5 }; if ((size_t)at[m - 6] < s.size()) cuts.push_back(at[m - 6]); }
			else if (steps[m]) for (size_t p = steps[m]; p < s.size(); p += steps[m]) cuts.push_back(p);
			runStream(c, s, cuts, hash(12, s));
		}));

	if (tier == Thorough)
		v.push_back(Suite("content-at-limit", "content of exactly 128 MB (accepted) delivered in 1 MB pieces", 1, [](Ctx& c, uint64_t) {
			Rig rig; rig.lookDecoded = false; rig.start(); std::string out;
			Request r; r.method = "POST"; r.h("Content-Length", "134217728"); rig.dev->give(r.head());
			const std::string piece = ref::pattern(1 << 20);
			size_t seenSize = 0; bool same = true;
			QObject::connect(rig.conn, &Pillow::HttpConnection::requestReady, [&](Pillow::HttpConnection* k) { seenSize = k->requestContent().size(); for (int i = 0; i < 128 && same; ++i) same = memcmp(k->requestContent().constData() + i * piece.size(), piece.data(), piece.size()) == 0; });
			for (int i = 0; i < 128; ++i) { if (rig.count('R')) c.fail("early"); rig.dev->give(piece); c.state(hash(13, i)); }
			if (rig.count('R') != 1 || seenSize != 134217728u || !same) c.fail("128 MB content: ready %d size %zu same %d", rig.count('R'), seenSize, same);
		}, 300));
	return v;
}

//
// C08
//

static void checkQuery(Ctx& c, const std::string& q, const std::string& next)
{
	Request r; r.path = "/p%41"; r.hasQuery = true; r.query = q;
	Rig rig; rig.start();
	rig.dev->give(r.bytes());
	c.state(hash(20, q));
	c.log("query %s", show(q, 200).c_str());
	if (rig.seen.size() != 1) { c.fail("query [%s]: %zu requests", show(q).c_str(), rig.seen.size()); return; }
	const Seen x = expected(r, rig.seen[0]);
	if (!(x == rig.seen[0])) { c.fail("query [%s]: reported %s\nexpected %s", show(q).c_str(), show(rig.seen[0].text(), 1500).c_str(), show(x.text(), 1500).c_str()); return; }
	const std::vector<std::pair<std::string, std::string> > ps = refParams(q);
	for (size_t i = 0; i < ps.size(); ++i)
	{
		std::string first; for (size_t j = 0; j < ps.size(); ++j) if (QString::fromUtf8(ps[j].first.c_str(), ps[j].first.size()).compare(QString::fromUtf8(ps[i].first.c_str(), ps[i].first.size()), Qt::CaseInsensitive) == 0) { first = ps[j].second; break; }
		if (su(rig.conn->requestParamValue(QString::fromUtf8(ps[i].first.c_str(), ps[i].first.size()).toUpper())) != first && su(rig.conn->requestParamValue(QString::fromUtf8(ps[i].first.c_str(), ps[i].first.size()))) != first) { c.fail("query [%s]: value of %s is wrong", show(q).c_str(), show(ps[i].first).c_str()); return; }
	}
	if (!rig.conn->requestParamValue("no such parameter").isNull()) c.fail("absent parameter is not null");
	// A second request on the connection has its own parameters only.
	rig.conn->writeResponse(200);
	Request r2; r2.path = "/second"; if (next != "-") { r2.hasQuery = true; r2.query = next; }
	rig.dev->give(r2.bytes());
	if (rig.seen.size() != 2) { c.fail("second request: %zu", rig.seen.size()); return; }
	const Seen y = expected(r2, rig.seen[1]);
	if (!(y == rig.seen[1])) c.fail("after query [%s]: reported %s\nexpected %s", show(q).c_str(), show(rig.seen[1].text(), 1500).c_str(), show(y.text(), 1500).c_str());
}

std::vector<Suite> suitesC08(Tier tier)
{
	std::vector<Suite> v;
	static const char* syms[] = { "a", "=", "&", "%41", "%26", "%3D", "B", "%c3%a9" };
	const int len = tier == Quick ? 5 : 6; uint64_t total = 0; for (uint64_t n = 1, k = 0; (int)k <= len; ++k, n *= 8) total += n;
	v.push_back(Suite("all-query-strings", "every query string of up to " + ref::num(len) + " symbols over {a, =, &, %41, %26, %3D, B, %c3%a9}, followed by a second request", total, [](Ctx& c, uint64_t i) {
			uint64_t n = 1; int k = 0; while (i >= n) { i -= n; n *= 8; ++k; }
			std::string q; for (int j = 0; j < k; ++j) q += syms[take(i, 8)];
			checkQuery(c, q, k % 3 == 0 ? "-" : k % 3 == 1 ? "z=%7a" : "");
		}));
	v.push_back(Suite("every-escape", "every %XX escape (both letter cases) alone and doubled in key, value, path and fragment position", 256 * 2, [](Ctx& c, uint64_t i) {
			const int cs = take(i, 2); char e[8]; snprintf(e, sizeof e, cs ? "%%%02X" : "%%%02x", (int)i);
			const int w = c.choose(5); const std::string s = e;
			if (w < 3) checkQuery(c, w == 0 ? "k" + s + "=v" : w == 1 ? "k=" + s + s : s, "-");
			else
			{
				Request r; r.path = w == 3 ? "/x" + s + "y" + s : "/"; r.hasFragment = true; r.fragment = w == 4 ? s + "z" : "";
				Rig rig; rig.start(); rig.dev->give(r.bytes()); c.state(hash(21, r.bytes()));
				if (rig.seen.size() != 1) { c.fail("no request for %s", s.c_str()); return; }
				const Seen x = expected(r, rig.seen[0]); if (!(x == rig.seen[0])) c.fail("reported %s expected %s", show(rig.seen[0].text()).c_str(), show(x.text()).c_str());
			}
		}));
	v.push_back(Suite("decode-lengths", "key, value, path and fragment lengths 1000..1050 and 2040..2060 with an escape at the start, middle or end", 72 * 3 * 3, [](Ctx& c, uint64_t i) {
			const int l = take(i, 72), where = take(i, 3), pos = take(i, 3); const size_t n = l < 51 ? 1000 + l : 2040 + (l - 51);
			std::string s = ref::text(n); s.replace(pos == 0 ? 0 : pos == 1 ? n / 2 : n - 3, 3, "%C3"); if (pos == 1) s.replace(n / 2 + 3, 3, "%a9");
			if (where == 0) checkQuery(c, s + "=1", "-"); else if (where == 1) checkQuery(c, "k=" + s, "k");
			else { Request r; r.path = "/" + s; r.hasFragment = true; r.fragment = s; Rig rig; rig.start(); rig.dev->give(r.bytes()); c.state(hash(22, n * 3 + pos)); if (rig.seen.size() != 1 || !(expected(r, rig.seen[0]) == rig.seen[0])) c.fail("path/fragment of length %zu decoded wrongly", n); }
		}));
	v.push_back(Suite("param-counts", "0..40 parameters (around the retained capacity), then a second request with 0..3 and a third with none", 41 * 4, [](Ctx& c, uint64_t i) {
			const int n = take(i, 41), m = (int)i; std::string q, q2;
			for (int k = 0; k < n; ++k) q += (k ? "&p" : "p") + ref::num(k) + "=" + ref::num(k * k);
			for (int k = 0; k < m; ++k) q2 += (k ? "&s" : "s") + ref::num(k) + "=" + ref::num(k);
			checkQuery(c, q, m ? q2 : "-");
		}));
	// Short histories of set/get over three names against a list model; then the next request is unaffected.
	const int depth = tier == Quick ? 4 : 5;
	v.push_back(Suite("set-get-histories", "every sequence of " + ref::num(depth) + " set/get operations over 3 names (two differing in case only) and 2 values on 3 initial queries, then a second request", 3, [depth](Ctx& c, uint64_t i) {
			static const char* init[] = { "-", "a=1&b=2&A=3", "c&a" }; static const char* names[] = { "a", "A", "b" }; static const char* values[] = { "v", "" };
			Request r; if (i) { r.hasQuery = true; r.query = init[i]; }
			Rig rig; rig.lookDecoded = false; rig.start(); rig.dev->give(r.bytes());
			std::vector<std::pair<std::string, std::string> > model = i ? refParams(init[i]) : std::vector<std::pair<std::string, std::string> >();
			std::string hist;
			for (int d = 0; d < depth && !c.failed(); ++d)
			{
				const int op = c.choose(10);
				if (op == 9) { hist += " list"; }
				else if (op < 6)
				{
					const std::string nm = names[op % 3], val = values[op / 3]; hist += " set " + nm + "=" + val; bool done = false;
					for (size_t k = 0; k < model.size() && !done; ++k) if (ref::ieq(model[k].first, nm)) { model[k] = std::make_pair(nm, val); done = true; }
					if (!done) model.push_back(std::make_pair(nm, val));
					rig.conn->setRequestParam(nm.c_str(), QString::fromLatin1(val.c_str()));
				}
				else
				{
					const std::string nm = names[op - 6]; hist += " get " + nm; const std::string* want = ref::find(model, nm);
					const QString got = rig.conn->requestParamValue(nm.c_str());
					if (!want ? !got.isNull() : su(got) != *want) c.fail("history%s: got [%s]", hist.c_str(), su(got).c_str());
				}
				c.state(hash(hash(23, i), hist));
			}
			const Seen now = look(rig.conn); if (now.params != model) c.fail("history%s: parameters are %s", hist.c_str(), show(now.text()).c_str());
			c.log("%s", hist.c_str());
			rig.conn->writeResponse(200); Request n; n.hasQuery = c.choose(2) == 1; n.query = "q=1"; rig.lookDecoded = true; rig.dev->give(n.bytes());
			if (!c.failed() && (rig.seen.size() != 2 || !(expected(n, rig.seen[1]) == rig.seen[1]))) c.fail("history%s: second request sees %s", hist.c_str(), rig.seen.size() > 1 ? show(rig.seen[1].text()).c_str() : "nothing");
		}));
	return v;
}
