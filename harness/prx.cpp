// C22: the proxy.
#include "prx.h"
#include <algorithm>
using namespace mc;
using std::string;

static std::vector<ref::Request> requests()
{
	std::vector<ref::Request> v; ref::Request q;
	auto add = [&](const char* method, const string& path, const char* query) -> ref::Request& { ref::Request r; r.method = method; r.path = path; if (query) { r.hasQuery = true; r.query = query; } r.h("Host", "example.org"); v.push_back(r); return v.back(); };
	add("GET", "", 0); add("GET", "/a%20b/%2Fc%41;p=1", "x=1&y=%20z+%26"); add("GET", "/plain", ""); add("GET", "/e", "a=/?:@&b=[c]&d=%3D%23").h("Accept-Encoding", "identity"); add("HEAD", "", "head=1"); add("HEAD", "/x", 0).h("Accept-Encoding", "gzip");
	add("POST", "", 0).content("a small body"); add("POST", "/none", "q").content(""); add("POST", "/big", 0).h("Content-Type", "application/x-thing").content(ref::pattern(5000, 3)); add("PUT", "/put", 0).h("Content-Type", "text/plain").content(string("\0\r\n\r\n\xff", 6)); add("DELETE", "/d", 0); add("PATCH", "/p", "x").h("content-type", "a/b").content("patched"); add("PROPFIND", "/dav", 0); add("OPTIONS", "", 0); add("GET", "/with-body", 0).content("body of a GET");
	add("GET", "/h", 0).h("X-One", "1").h("Accept", "text/html, */*;q=0.1").h("Empty", "").h("User-Agent", "explorer/1.0 (x)").h("Referer", "http://a/b?c").h("If-None-Match", "\"tag\"").h("Range", "bytes=0-").h("Cookie", "a=1; b=2").h("Authorization", "Basic eDp5").h("Accept-Language", "fr").h("Accept-Encoding", "gzip;q=0");
	add("GET", "/dup", 0).h("Multi", "one").h("multi", "two").h("Other", "x").h("MULTI", "three"); add("GET", "/cookies", 0).h("Cookie", "a=1").h("Cookie", "b=2");
	add("GET", "/old", 0).version = "HTTP/1.0"; add("GET", "/oldka", 0).h("Connection", "keep-alive").version = "HTTP/1.0"; add("GET", "/close", 0).h("Connection", "close"); add("GET", "/frag", "q=1").hasFragment = true; v.back().fragment = "part"; add("POST", "/large", 0).content(ref::text(300000, 5)); add("GET", "//double//slash/...dots.//x", 0); add("GET", "/" + string(3000, 'l'), "a");
	return v;
}

static std::vector<Resp> responses()
{
	std::vector<Resp> v; auto ints = [](int a, int b = 0) { std::vector<int> r(1, a); if (b) r.push_back(b); return r; };
	v.push_back(Resp().h("Content-Type", "text/html").len("hello")); v.push_back(Resp().len("")); v.push_back(Resp().h("X-A", "1").h("Content-Type", "a/b").chk("chunked content", ints(7, 8))); v.push_back(Resp().chk("", std::vector<int>())); v.push_back(Resp().eof("to the end")); v.push_back(Resp().h("Connection", "close").len("bye")); v.push_back(Resp().h("Until", "x").eof(""));
	v.push_back(Resp().st(204, "No Content")); v.push_back(Resp().st(304, "Not Modified").h("ETag", "\"x\"")); v.push_back(Resp().st(304, "Not Modified").h("Content-Length", "7")); v.push_back(Resp().st(404, "Not Found").len("nothing here")); v.push_back(Resp().st(404, "Not Found").len("")); v.push_back(Resp().st(500, "Error").len("")); v.push_back(Resp().st(500, "Error").h("Content-Type", "text/x").chk("failed", ints(6)));
	v.push_back(Resp().st(302, "Found").h("Location", "http://example.org/moved?x=1").len("")); v.push_back(Resp().st(301, "Moved").h("Location", "/r0").len("moved")); v.push_back(Resp().st(303, "See").h("Location", "x/y").eof("other")); v.push_back(Resp().st(206, "Partial").h("Content-Range", "bytes 0-3/9").len("part")); v.push_back(Resp().st(201, "Created").len("made"));
	v.push_back(Resp().h("Set-Cookie", "session=secret; Path=/").h("Set-Cookie", "b=2; Expires=Wed, 09 Jun 2031 10:18:14 GMT").len("cookies")); v.push_back(Resp().h("Multi", "one").h("Multi", "two").h("Vary", "Accept").len("m")); v.push_back(Resp().h("Content-Encoding", "gzip").len(gz("zipped content"))); v.push_back(Resp().h("Content-Encoding", "x-custom").len("custom"));
	v.push_back(Resp().len(ref::text(300000, 7))); v.push_back(Resp().chk(ref::text(100000, 3), ints(60000, 40000))); v.push_back(Resp().eof(ref::text(100000, 2)));
	static const int codes[] = { 202, 203, 205, 300, 305, 307, 400, 403, 405, 406, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 501, 502, 503, 504, 505 };
	for (size_t i = 0; i < sizeof codes / sizeof *codes; ++i) { v.push_back(Resp().st(codes[i], "S").h("Code", ref::num(codes[i])).len(i % 2 || codes[i] == 205 ? "" : "status " + ref::num(codes[i]))); v.push_back(Resp().st(codes[i], "S").h("Code", ref::num(codes[i])).chk(codes[i] == 205 ? "" : "chunked", codes[i] == 205 ? std::vector<int>() : ints(7))); }
	v.push_back(Resp().st(401, "Unauthorized").h("WWW-Authenticate", "Basic realm=\"x\"").len("who are you")); v.push_back(Resp().st(401, "Unauthorized").h("WWW-Authenticate", "Basic realm=\"x\"").len(""));
	v.push_back(Resp().h("Content-Length", "000")); v.push_back(Resp().h("X-Long", string(3000, 'v')).h("X-Latin", "caf\xe9").h("X-Empty", "").len("long")); v.push_back(Resp().st(200, "Fine").h("Age", "1").h("Cache-Control", "max-age=100").h("ETag", "\"e\"").h("Last-Modified", "Wed, 09 Jun 2021 10:18:14 GMT").len("cacheable")); Resp old = Resp().len("old"); old.minor = 0; v.push_back(old); old = Resp().eof("old until the end"); old.minor = 0; v.push_back(old);
	return v;
}

// One exchange on client c; the client's connection is left for the next if both sides may go on using it.
static bool exchange(ProxyRig& p, std::unique_ptr<Peer>& c, int id, ref::Request q, const Resp& r, int split, bool pipelined = false)
{
	q.path = "/r" + ref::num(id) + q.path;
	p.story = q.method + " " + mc::show(q.target(), 60) + " " + q.version + ", upstream " + mc::show(r.head(), 150) + ref::num(r.body.size()) + " bytes, split " + ref::num(split); p.ctx.log("%s", p.story.c_str());
	if (!c || c->fd < 0 || c->ended()) c.reset(p.client());
	if (!pipelined) c->give(q.bytes());
	if (!p.arrives(id)) { c->read(); p.fail("the request did not reach the upstream; the client has [" + mc::show(c->in, 200) + "]"); return false; }
	string e = checkRelayed(q, p.arrived[id]); if (!e.empty()) { p.fail(e); return false; }
	const bool head = q.method == "HEAD"; const string s = head ? r.head() : r.bytes(); const bool eof = r.framing == Resp::Eof && !head;
	if (split == 1) { const size_t at = r.head().size() + (s.size() - r.head().size()) / 2; if (!p.answer(id, s.substr(0, at)) || !p.answer(id, s.substr(at))) return false; }
	else if (split == 2) { const size_t at = r.head().size(); if (!p.answer(id, s.substr(0, at))) return false; if (at < s.size() && !p.answer(id, s.substr(at))) return false; }
	else if (split == 3 && s.size() < 400) { for (size_t i = 0; i < s.size(); ++i) if (!p.answer(id, s.substr(i, 1))) return false; }
	else if (!p.answer(id, s)) return false;
	p.done(id, eof); ref::Response m; const bool bare = head || r.status == 204 || r.status == 304;
	if (!until([&]() { return takeResponse(*c, head, &m); })) { ref::Response x; size_t n = 0; const bool any = ref::parseResponse(c->in, 0, head, &x, &n); p.fail(any ? "the response is never completed at the client: [" + mc::show(c->in, 300) + "]" : "the client gets no response: [" + mc::show(c->in, 200) + "]"); return false; }
	string body = bare ? "" : r.body;
	e = checkResponse(m, r, body, head, c->ended());
	if (!e.empty()) { p.fail(e); return false; }
	if (p.times[id] != 1) { p.fail("the request was sent upstream " + ref::num(p.times[id]) + " times"); return false; }
	// The connection goes on exactly if the client was told so.
	const bool told = q.http11() ? !ref::ieq(ref::value(m.headers, "connection"), "close") : ref::ieq(ref::value(m.headers, "connection"), "keep-alive");
	if (!told || (m.framing == ref::Response::UntilClose && !bare)) { if (!until([&]() { return c->ended(); }, 3)) { p.fail("the client's connection is not closed although it was told so"); return false; } }
	else if (bare && !head && r.status == 304) c.reset(); // Announced content that never comes: the connection may end.
	p.ctx.state(hash(hash(22, p.story), id));
	return true;
}

static void exchanges(Ctx& ctx, uint64_t root)
{
	const std::vector<ref::Request> qs = requests(); const std::vector<Resp> rs = responses(); const int qi = take(root, qs.size()), split = take(root, 4), part = take(root, 2); const ref::Request& q = qs[qi];
	ProxyRig p(ctx); std::unique_ptr<Peer> c; int id = 0;
	for (size_t k = part; k < rs.size() && !ctx.failed(); k += 2)
	{
		if (split == 3 && rs[k].bytes().size() >= 400) continue;
		if (!exchange(p, c, ++id, q, rs[k], split)) return;
	}
}

enum Failure { Refused, CloseAtOnce, ResetAtOnce, CloseInStatusLine, CloseInHeaders, ResetInHeaders, Garbage, CloseAfterHeaders, ResetAfterHeaders, CloseInContent, ResetInContent, NFailures };
static const char* failureNames[] = { "unreachable", "closes at once", "resets at once", "closes within the status line", "closes within the headers", "resets within the headers", "answers garbage", "closes after the headers", "resets after the headers", "closes within the content", "resets within the content" };
enum Shape { ByLength, ByChunks, ByLengthError, ByChunksError, ByClose, NShapes };

// Fails every request that comes (Qt's engine tries again on its own) until the client's exchange has ended.
static void failures(Ctx& ctx, uint64_t root)
{
	const int f = take(root, NFailures), shape = take(root, NShapes), version = take(root, 3), method = take(root, 3), gap = take(root, 2), before = take(root, 2);
	if (shape != ByLength && f < CloseAfterHeaders && !(f == CloseInHeaders || f == ResetInHeaders)) return;
	if (shape == ByClose && (f == CloseAfterHeaders || f == CloseInContent)) return; // Looks like its regular end.
	const bool head = method == 2; if (head && f >= CloseAfterHeaders) return; // Complete with its headers.
	ProxyRig p(ctx); p.story = string("upstream ") + failureNames[f]; std::unique_ptr<Peer> c(p.client()); ref::Request ok; ok.h("Host", "h");
	if (before && !exchange(p, c, 5, ok, Resp().len("before"), 0)) return;
	ref::Request q; q.method = method == 0 ? "GET" : method == 1 ? "POST" : "HEAD"; q.path = "/r1"; q.version = version == 0 ? "HTTP/1.1" : "HTTP/1.0"; q.h("Host", "h"); if (version == 2) q.h("Connection", "keep-alive"); if (method == 1) q.content("posted content");
	p.story = q.method + " " + q.version + (version == 2 ? " keep-alive" : "") + ", upstream " + failureNames[f] + ", shape " + ref::num(shape) + (gap ? ", seen apart" : ", all at once") + (before ? ", after a good exchange" : ""); ctx.log("%s", p.story.c_str());
	if (f == Refused) { p.l.close(); for (size_t i = 0; i < p.ups.size(); ++i) p.ups[i]->p->rst(); p.ups.clear(); spin(3); }
	Resp r; if (shape == ByLengthError || shape == ByChunksError) r.st(404, "Not Found"); else r.st(200, "OK"); r.h("Seen", "yes"); const string body = "the content of the response"; string s;
	if (shape == ByLength || shape == ByLengthError) r.len(body); else if (shape == ByClose) r.eof(body); else { std::vector<int> n(1, 11); n.push_back((int)body.size() - 11); r.chk(body, n); }
	s = r.bytes(); const size_t h = r.head().size(); size_t upto = h; bool reset = f == ResetAtOnce || f == ResetInHeaders || f == ResetAfterHeaders || f == ResetInContent; string tail;
	switch (f) { case CloseAtOnce: case ResetAtOnce: upto = 0; break; case CloseInStatusLine: upto = 7; break; case CloseInHeaders: case ResetInHeaders: upto = h - 3; break; case Garbage: upto = 0; tail = "FDSAFDSA FDSAF DSA\r\nFDSA: FDSA\r\n\r\nGARBAGE"; break; case CloseInContent: case ResetInContent: upto = h + (shape == ByChunks || shape == ByChunksError ? 3 + 11 + 2 + 4 + 5 : 18); break; /* Not within a chunk's size: then Qt's engine never finishes the reply. */  default: break; }
	const bool relayed = upto > h; // Content the client may have seen.
	c->give(q.bytes()); ref::Response m; double end = netNow() + 8; bool done = false;
	while (!done && netNow() < end)
	{
		until([&]() { p.poll(); done = takeResponse(*c, head, &m) || c->ended(); return done || p.upOf(1); }, 2); if (done) break;
		ProxyRig::Up* u = p.upOf(1); if (!u) continue;
		if (p.times[1] == 1) { const string e = checkRelayed(q, p.arrived[1]); if (!e.empty()) { p.fail(e); return; } }
		ctx.log("request seen %d times", p.times[1]); u->busy = 0; const string bytes = s.substr(0, upto) + tail;
		if (gap) { u->p->give(bytes.substr(0, upto > h ? h : upto / 2)); spin(2); u->p->give(bytes.substr(upto > h ? h : upto / 2)); struct timespec t = { 0, 3000000 }; nanosleep(&t, 0); spin(3); } else u->p->send(bytes);
		if (f != Garbage) { if (reset) u->p->rst(); else u->p->fin(); }
	}
	c->read(); const string have = mc::show(c->in, 300); ref::Response x; size_t n = 0; 
	if (!done) { if (!ref::parseResponse(c->in, 0, head, &x, &n)) p.fail("the client gets no response: [" + have + "]"); else p.fail("the client's response does not end: [" + have + "]"); return; }
	if (!m.problem.empty()) { p.fail("invalid response: " + m.problem + " " + have); return; }
	if (m.status == 0) { if (upto < h) { p.fail("the connection is closed without a response: [" + have + "]"); return; } } // Ended visibly, before any of it was sent.
	else if (m.status == 503) { if (!m.complete && !(m.framing == ref::Response::UntilClose && c->ended())) { p.fail("the 503 response is not complete"); return; } }
	else
	{
		// Only once the upstream's headers were there, and then recognisably incomplete (or, without any length, simply closed).
		if (upto < h) { p.fail("the client gets status " + ref::num(m.status) + " although the upstream never sent its headers"); return; }
		if (m.status != r.status) { p.fail("the client sees status " + ref::num(m.status) + " instead of " + ref::num(r.status) + " or 503"); return; }
		if (body.compare(0, m.body.size(), m.body) != 0) { p.fail("the client sees content the upstream did not send: [" + mc::show(m.body) + "]"); return; }
		if (m.framing != ref::Response::UntilClose && m.complete) { p.fail("an incomplete response is relayed as complete: [" + mc::show(m.body) + "]"); return; }
		if (!c->ended()) { p.fail("the incomplete response does not visibly end"); return; }
		(void)relayed;
	}
	if (f == Refused) { p.l.open(p.l.port); }
	// The next exchange goes well.
	if (!exchange(p, c, 7, ok, Resp().len("after"), 0)) return;
	ctx.state(hash(hash(221, p.story), m.status));
}

// Sequences of exchanges of one client, one after the other or pipelined.
static void sequences(Ctx& ctx, uint64_t root, int depth)
{
	const int mode = take(root, 2); ProxyRig p(ctx); std::vector<ref::Request> qs; std::vector<Resp> rs; std::vector<int> one(1, 7), kinds; string bytes;
	for (int i = 0; i < depth; ++i)
	{
		const int k = take(root, 8); kinds.push_back(k); ref::Request q; q.h("Host", "h").h("X-N", ref::num(i)); Resp r; r.h("X-R", ref::num(i));
		switch (k)
		{
		case 0: r.len("first kind"); break; case 1: r.chk("chunked", one); break; case 2: r.st(404, "Not Found").len(""); break; case 3: r.st(204, "No Content"); break; case 4: q.method = "HEAD"; r.len("of the head"); break;
		case 5: q.method = "POST"; q.content("posted " + ref::num(i)); r.st(201, "Created").len("made"); break; case 6: q.method = "PUT"; q.content(ref::pattern(40000, i)); r.len(ref::text(70000, i)); break; case 7: r.st(500, "Error").h("Set-Cookie", "k=v").chk("chunked", one); break;
		}
		qs.push_back(q); rs.push_back(r); ref::Request named = q; named.path = "/r" + ref::num(i + 1) + q.path; bytes += named.bytes();
	}
	std::unique_ptr<Peer> c(p.client()); p.story = "sequence"; if (mode == 1) c->give(bytes);
	for (int i = 0; i < depth; ++i)
	{
		if (!exchange(p, c, i + 1, qs[i], rs[i], i % 3, mode == 1)) return;
		if (mode == 1 && c->ended()) { if (kinds[i] != 3 && i + 1 < depth) p.fail("the connection was closed with pipelined requests"); return; } // A response without a length ends with its connection.
	}
	spin(2); c->read(); if (!c->in.empty()) { p.fail("the client gets something after the responses: [" + mc::show(c->in) + "]"); return; }
	if (c->ended() && kinds.back() != 3) p.fail("the connection was closed");
	ctx.state(hash(hash(222, bytes), mode));
}

// All interleavings of the events of several exchanges.
static void interleavings(Ctx& ctx, uint64_t root, int clients, int maxEvents)
{
	struct One { std::unique_ptr<Peer> c; int stage; bool gone, finished; Resp r; ref::Request q; int kind; One() : stage(0), gone(false), finished(false), kind(0) {} };
	ProxyRig p(ctx); std::vector<One> v(clients); std::vector<int> two(1, 5); two.push_back(6); string trace;
	for (int i = 0; i < clients; ++i)
	{
		const int k = v[i].kind = take(root, 4); One& o = v[i]; o.q.path = "/r" + ref::num(i + 1); o.q.h("Host", "h").h("X-Who", ref::num(i)); if (k == 3) { o.q.method = "POST"; o.q.content("posted by " + ref::num(i)); }
		o.r.h("X-R", ref::num(i)); const string body = "part1 " + ref::num(i) + "tail" + ref::num(i % 10); if (k == 1) { std::vector<int> n(1, 6); n.push_back((int)body.size() - 6); o.r.chk(body, n); } else if (k == 2) o.r.st(404, "Not Found").eof(body); else o.r.len(body);
		o.c.reset(p.client());
	}
	spin(2);
	// Stages: 0 not sent, 1 sent (at the upstream), 2 headers given, 3 first part given, 4 complete.
	for (int n = 0; n < maxEvents && !ctx.failed(); ++n)
	{
		struct Event { int who, what; }; std::vector<Event> events; auto offer = [&](int who, int what) { Event e = { who, what }; events.push_back(e); };
		for (int i = 0; i < clients; ++i) { One& o = v[i]; if (o.stage == 0 && !o.gone) offer(i, 0); if (o.stage >= 1 && o.stage <= 3) { offer(i, 1); if (!o.gone) offer(i, 2); } if (o.stage >= 1 && o.stage <= 3 && !o.gone) { offer(i, 3); offer(i, 4); } }
		if (events.empty()) break;
		const Event e = events[ctx.choose((int)events.size())]; One& o = v[e.who]; const int id = e.who + 1; trace += " " + string(1, 'a' + e.who) + "sufrx"[e.what]; p.story = "events" + trace; ctx.log("%s", p.story.c_str());
		const string s = o.r.bytes(); const size_t h = o.r.head().size(), mid = h + (o.kind == 1 ? 7 : (s.size() - h) / 2); // Not within a chunk's size, where Qt's engine does not notice a reset.
		if (e.what == 0) { o.c->give(o.q.bytes()); if (!p.arrives(id)) { p.fail("request " + ref::num(id) + " did not reach the upstream"); return; } const string x = checkRelayed(o.q, p.arrived[id]); if (!x.empty()) { p.fail(x); return; } o.stage = 1; }
		else if (e.what == 1) // The upstream goes on.
		{
			ProxyRig::Up* u = p.upOf(id);
			const size_t from = o.stage == 1 ? 0 : o.stage == 2 ? h : mid, to = o.stage == 1 ? h : o.stage == 2 ? mid : s.size(); ++o.stage;
			if (u) { u->p->give(s.substr(from, to - from)); if (o.stage == 4) { u->busy = 0; if (o.r.framing == Resp::Eof) u->p->fin(); } }
			if (o.stage == 4 && !o.gone) { ref::Response m; if (!until([&]() { return takeResponse(*o.c, false, &m); })) { p.fail("response " + ref::num(id) + " is never complete: [" + mc::show(o.c->in) + "]"); return; } const string x = checkResponse(m, o.r, o.r.body, false, o.c->ended()); if (!x.empty()) { p.fail(x); return; } o.finished = true; }
		}
		else if (e.what == 2) // The upstream fails.
		{
			ref::Response m; bool over = false; const int stage = o.stage; o.stage = 4;
			const bool ended = until([&]() { p.poll(); ProxyRig::Up* u = p.upOf(id); if (u) { u->busy = 0; u->p->rst(); } over = takeResponse(*o.c, false, &m) || o.c->ended(); return over; }); o.finished = true;
			if (!ended) { p.fail("after the upstream's failure, response " + ref::num(id) + " never ends: [" + mc::show(o.c->in) + "]"); return; }
			if (!m.problem.empty() || (m.status == 0 ? stage < 2 : m.status != 503 && (stage < 2 || m.status != o.r.status || (m.framing != ref::Response::UntilClose && m.complete) || !o.c->ended()))) { p.fail("after the upstream's failure, response " + ref::num(id) + " is status " + ref::num(m.status) + " " + m.problem); return; }
		}
		else { if (e.what == 3) o.c->rst(); else { o.c->fin(); o.c->rst(); } o.gone = true; spin(2); } // The client leaves.
		ctx.state(hash(hash(223, trace), (uint64_t)v[0].kind * 16 + v[clients - 1].kind));
	}
	// Everyone left gets what was promised.
	for (int i = 0; i < clients && !ctx.failed(); ++i)
	{
		One& o = v[i]; if (o.gone || o.finished || o.stage == 0) continue;
		const string s = o.r.bytes(); const size_t h = o.r.head().size(), mid = h + (o.kind == 1 ? 7 : (s.size() - h) / 2); ProxyRig::Up* u = p.upOf(i + 1); if (!u || u->p->ended()) { p.fail("exchange " + ref::num(i + 1) + " was disturbed: its upstream connection is gone"); return; }
		u->p->give(s.substr(o.stage == 1 ? 0 : o.stage == 2 ? h : mid)); u->busy = 0; if (o.r.framing == Resp::Eof) u->p->fin();
		ref::Response m; if (!until([&]() { return takeResponse(*o.c, false, &m); })) { p.fail("at the end, response " + ref::num(i + 1) + " is never complete: [" + mc::show(o.c->in) + "]"); return; }
		const string x = checkResponse(m, o.r, o.r.body, false, o.c->ended()); if (!x.empty()) p.fail("at the end, " + x);
	}
	if (!ctx.failed()) { std::unique_ptr<Peer> c(p.client()); ref::Request ok; ok.h("Host", "h"); const string was = p.story; exchange(p, c, 99, ok, Resp().len("afterwards"), 0); }
}

// Many exchanges at a time: all reach the upstream, each gets its own answer, in any of several orders.
static void together(Ctx& ctx, uint64_t root)
{
	static const int counts[] = { 1, 2, 5, 6, 7, 12, 13, 18, 19, 30 }; const int n = counts[take(root, 10)], order = take(root, 4), leave = take(root, 3), rounds = 2; ProxyRig p(ctx);
	std::vector<std::unique_ptr<Peer> > cs; for (int i = 0; i < n; ++i) cs.push_back(std::unique_ptr<Peer>(p.client())); spin(2); int base = 1;
	for (int round = 0; round < rounds && !ctx.failed(); ++round, base += n)
	{
		p.story = ref::num(n) + " exchanges at a time, order " + ref::num(order) + ", leaving " + ref::num(leave) + ", round " + ref::num(round); ctx.log("%s", p.story.c_str());
		for (int i = 0; i < n; ++i) { if (!cs[i] || cs[i]->fd < 0) cs[i].reset(p.client()); ref::Request q; q.path = "/r" + ref::num(base + i); q.h("Host", "h").content("of " + ref::num(base + i)); cs[i]->send(q.bytes()); }
		if (!until([&]() { p.poll(); for (int i = 0; i < n; ++i) if (!p.arrived.count(base + i)) return false; return true; })) { int k = 0; for (int i = 0; i < n; ++i) k += p.arrived.count(base + i); p.fail("only " + ref::num(k) + " of the requests reach the upstream"); return; }
		for (int i = 0; i < n; ++i) if (p.arrived[base + i].body != "of " + ref::num(base + i)) { p.fail("wrong content"); return; }
		if (leave) for (int i = 0; i < n; ++i) if (i % 3 == leave - 1) cs[i]->rst();
		for (int j = 0; j < n; ++j)
		{
			const int i = order == 0 ? j : order == 1 ? n - 1 - j : order == 2 ? (j * 7 + 3) % n : (j ^ 1) < n ? (j ^ 1) : j; if (order == 2 && n % 7 == 0 && j != 0) continue;
			if (cs[i]->fd < 0) { p.done(base + i); continue; }
			Resp r; r.h("Who", ref::num(base + i)).len("answer " + ref::num(base + i)); if (!p.answer(base + i, r.bytes())) return; p.done(base + i); ref::Response m;
			if (!until([&]() { return takeResponse(*cs[i], false, &m); })) { p.fail("exchange " + ref::num(base + i) + " gets no answer"); return; }
			const string e = checkResponse(m, r, r.body, false, false); if (!e.empty()) { p.fail(e); return; }
		}
		if (order == 2 && n % 7 == 0) for (int i = 0; i < n; ++i) cs[i]->rst(); // Unanswered ones leave.
		ctx.state(hash(hash(224, p.story), n));
	}
}

// Objects going away at every stage of an exchange: no crash, nothing else disturbed.
static void lifetimes(Ctx& ctx, uint64_t root)
{
	const int stage = take(root, 6), what = take(root, 6), kind = take(root, 3), other = take(root, 2), settle = take(root, 2); ProxyRig p(ctx);
	static const char* whats[] = { "the connection is deleted", "the proxy handler is deleted", "the server is deleted", "the client leaves", "the application closes the connection", "the proxied URL is changed" };
	p.story = string(whats[what]) + " at stage " + ref::num(stage) + ", kind " + ref::num(kind) + (other ? ", with another exchange" : "") + (settle ? ", then time passes" : ""); ctx.log("%s", p.story.c_str());
	std::unique_ptr<Peer> c(p.client()), d(other ? p.client() : 0); ref::Request q, q2; q.path = "/r1"; q.h("Host", "h").h("X-Repeated", "one").h("X-Repeated", "two").h("Cookie", "a=1").h("Cookie", "b=2"); if (kind == 1) { q.method = "POST"; q.content("x"); } else if (kind == 2) { q.method = "PUT"; q.content(ref::text(6000000, 9)); } q2.path = "/r2"; q2.h("Host", "h");
	Resp r; r.h("A", "b").len("0123456789"); const string s = r.bytes(); const size_t h = r.head().size();
	if (d) { d->give(q2.bytes()); if (!p.arrives(2)) { p.fail("the other request did not arrive"); return; } }
	Listener elsewhere; bool acted = false; QPointer<Pillow::HttpConnection> mine;
	auto act = [&]() {
		if (acted) return; acted = true;
		switch (what)
		{
		case 0: delete mine.data(); break; case 1: p.proxy.reset(); break; case 2: p.server.reset(); break; case 3: c->rst(); break; case 4: if (mine) mine->close(); break; case 5: p.proxy->setProxiedUrl(url(elsewhere.base())); break;
		}
		if (settle) { struct timespec t = { 0, 20000000 }; nanosleep(&t, 0); }
	};
	p.onReady = [&](Pillow::HttpConnection* x) { mine = x; };
	if (kind == 2) { size_t at = 0; const string b = q.bytes(); until([&]() { at += c->send(b, at); return mine || c->ended(); }, 10); } else { c->send(q.bytes()); until([&]() { return !mine.isNull(); }); }
	p.onReady = nullptr; if (!mine) { p.fail("harness: no request"); return; }
	if (stage == 0) act(); // Right after it was handed to the proxy, before anything ran.
	if (stage == 1) { until([&]() { if (p.l.pending()) return true; return false; }, 1); act(); }
	if (stage >= 2 && kind == 2 && stage == 2) { until([&]() { while (p.l.pending()) { std::unique_ptr<ProxyRig::Up> u(new ProxyRig::Up); u->p.reset(p.l.accept()); u->busy = 0; p.ups.push_back(std::move(u)); } for (size_t i = 0; i < p.ups.size(); ++i) { p.ups[i]->p->read(300000); if (p.ups[i]->p->in.size() > 100000) return true; } return false; }, 3); act(); } // Within the upload.
	if (!acted)
	{
		if (!p.arrives(1, 10)) { p.fail("the request did not arrive"); return; }
		const string e = checkRelayed(q, p.arrived[1]); if (!e.empty()) { p.fail(e); return; }
		if (stage == 2) act();
		if (stage >= 3 && !acted) p.answer(1, s.substr(0, h)); if (stage == 3) act();
		if (stage >= 4 && !acted) p.answer(1, s.substr(h, 5)); if (stage == 4) act();
		if (stage >= 5) { p.answer(1, s.substr(h + 5)); p.done(1); ref::Response m; if (!until([&]() { return takeResponse(*c, false, &m); }) || m.body != r.body) { p.fail("no good response"); return; } act(); }
	}
	for (int i = 0; i < 5; ++i) { spin(2); p.poll(); struct timespec t = { 0, 1000000 }; nanosleep(&t, 0); }
	if (stage < 2 && what != 5 && p.arrived.count(1)) { const string e = checkRelayed(q, p.arrived[1]); if (!e.empty() && p.arrived[1].body.size() == q.body.size()) { p.fail("after leaving: " + e); return; } }
	if (p.upOf(1) && stage < 5) p.upOf(1)->p->give(s.substr(stage <= 2 ? 0 : stage == 3 ? h : h + 5));
	if (what == 5 && stage < 5 && stage > 2) { ref::Response m; if (!until([&]() { return takeResponse(*c, false, &m); }) || m.body != r.body) { p.fail("the exchange under way was disturbed"); return; } }
	if (d && what != 1 && what != 2)
	{
		p.answer(2, Resp().len("other").bytes()); p.done(2); ref::Response m; if (!until([&]() { return takeResponse(*d, false, &m); }) || m.status != 200 || m.body != "other") { p.fail("the other exchange was disturbed"); return; }
		if (what != 5) { ref::Request ok; ok.h("Host", "h"); const string was = p.story; if (!exchange(p, d, 9, ok, Resp().len("next"), 0)) return; }
	}
	spin(3); ctx.state(hash(225, p.story));
}

// Many exchanges of two kinds in turn through one proxy: each goes as the first did, and nothing piles up.
static void longSequences(Ctx& ctx, uint64_t root, int total)
{
	enum { KOk, KChunked, KPost, KHead, KError, KUntilClose, KClosing, KFailing, KCutOff, KLeaving, KLeavingInContent, KOtherClient, KKinds };
	static const char* names[] = { "answered", "answered in chunks", "POST", "HEAD", "answered 404", "answered until the end", "client asks to close", "upstream fails", "upstream fails in the content", "client leaves", "client leaves in the content", "from a new client" };
	const int first = take(root, KKinds), second = take(root, KKinds); ProxyRig p(ctx); const string story = string(names[first]) + " and " + names[second] + " in turn"; long long before = 0; std::unique_ptr<Peer> c; size_t conns = 0;
	for (int i = 0; i < total && !ctx.failed(); ++i)
	{
		const int kind = (i / 3 + i) % 2 ? second : first, id = i + 1; ref::Request q; q.h("Host", "h").h("X-N", ref::num(i)); Resp r; r.h("X-R", ref::num(i)); const string body = "the answer to " + ref::num(i); std::vector<int> n(1, (int)body.size());
		if (i == total / 2) { p.arrived.clear(); p.times.clear(); spin(3); before = liveBytes(); }
		switch (kind)
		{
		case KOk: case KOtherClient: r.len(body); break; case KChunked: r.chk(body, n); break; case KPost: q.method = "POST"; q.content(body); r.len(body); break; case KHead: q.method = "HEAD"; r.len(body); break;
		case KError: r.st(404, "Not Found").len(body); break; case KUntilClose: r.eof(body); break; case KClosing: q.h("Connection", "close"); r.len(body); break; default: r.len(body); break;
		}
		if (kind == KOtherClient) c.reset();
		if (kind < KFailing || kind == KOtherClient) { if (!exchange(p, c, id, q, r, i % 3)) { p.fail("exchange " + ref::num(i) + " of " + story); return; } }
		else
		{
			q.path = "/r" + ref::num(id); if (!c || c->fd < 0 || c->ended()) c.reset(p.client()); c->give(q.bytes()); p.story = story + ", exchange " + ref::num(i); const string s = r.bytes(), part = s.substr(0, r.head().size() + 5); ref::Response m; bool over = false;
			if (kind == KFailing || kind == KCutOff)
			{
				if (!p.arrives(id)) { p.fail("the request did not reach the upstream"); return; }
				int tries = 0; const bool ended = until([&]() { p.poll(); ProxyRig::Up* u = p.upOf(id); if (u) { ++tries; u->busy = 0; if (kind == KCutOff) u->p->give(part); u->p->fin(); } over = takeResponse(*c, false, &m) || c->ended(); return over; });
				if (!ended || !m.problem.empty() || (kind == KFailing && m.status != 503) || (m.status != 503 && (m.complete || !c->ended()))) { p.fail("after the upstream's failure the client has status " + ref::num(m.status) + " [" + mc::show(c->in, 100) + "]"); return; }
			}
			else
			{
				if (!p.arrives(id)) { p.fail("the request did not reach the upstream"); return; }
				if (kind == KLeavingInContent) p.answer(id, part);
				c->rst(); spin(2); if (ProxyRig::Up* u = p.upOf(id)) { u->busy = 0; if (!u->p->ended()) u->p->give(kind == KLeavingInContent ? s.substr(part.size()) : s); }
			}
		}
		for (size_t k = p.ups.size(); k-- > 0;) { string().swap(p.ups[k]->p->in); if (p.ups[k]->p->ended()) p.ups.erase(p.ups.begin() + k); }
		if (i == 20) conns = p.conns.size(); if (i > 20 && p.conns.size() > conns + 8) { p.fail("connection objects pile up: " + ref::num(p.conns.size())); return; }
		ctx.step();
	}
	c.reset(); spin(3); p.arrived.clear(); p.times.clear(); const long long growth = liveBytes() - before; ctx.state(hash(69, story)); ctx.log("%s: grew by %lld", story.c_str(), growth);
	if (!ctx.failed() && before && growth > 100000 + 600ll * (total - total / 2)) ctx.fail("memory in use grew by %lld bytes over %d exchanges: %s", growth, total - total / 2, story.c_str());
}

std::vector<mc::Suite> suitesC22(mc::Tier tier)
{
	const bool t = tier == Thorough; std::vector<Suite> v; const size_t nq = requests().size(), nr = responses().size(); const string qs = ref::num(nq), rs = ref::num(nr);
	v.push_back(retried(Suite("exchanges", qs + " request shapes x " + rs + " upstream responses (status codes, framings, repeated headers, cookies, codings, sizes) x 4 ways the response arrives, one after the other on kept connections", nq * 4 * 2, exchanges, 120)));
	v.push_back(retried(Suite("failures", "11 failures of the upstream x 5 response shapes x 3 kinds of client x GET/POST/HEAD x observed apart or together x first or later exchange; then a good exchange", NFailures * NShapes * 3 * 3 * 2 * 2, failures, 120)));
	const int depth = t ? 4 : 3; uint64_t n = 2; for (int i = 0; i < depth; ++i) n *= 8;
	v.push_back(retried(Suite("sequences", "all sequences of " + ref::num(depth) + " exchanges of 8 kinds on one connection, one after the other and pipelined", n, [depth](Ctx& c, uint64_t r) { sequences(c, r, depth); }, 120)));
	const int events = t ? 6 : 4; v.push_back(retried(Suite("interleavings", "2 clients x 4 kinds of exchange each: all orders of up to " + ref::num(events) + " events (send, upstream headers/part/end, upstream failure, client leaving in two ways), then the rest completes", 16, [events](Ctx& c, uint64_t r) { interleavings(c, r, 2, events); }, 120)));
	if (t) v.push_back(retried(Suite("interleavings-3", "3 clients x 4 kinds of exchange each: all orders of up to 4 events, then the rest completes", 64, [](Ctx& c, uint64_t r) { interleavings(c, r, 3, 4); }, 120)));
	v.push_back(retried(Suite("together", "1 to 30 exchanges at a time x 4 orders of answering x clients leaving, twice on the same connections", 10 * 4 * 3, together, 120)));
	const int total = t ? 400 : 90;
	v.push_back(retried(Suite("long-sequences", ref::num(total) + " exchanges of two of 12 kinds in turn, every pair: each goes as the first one did, connections and memory in use do not pile up", 144, [total](Ctx& c, uint64_t r) { longSequences(c, r, total); }, 120)));
	v.push_back(retried(Suite("lifetimes", "6 kinds of objects leaving (connection, handler, server, client, application's close, changed URL) x 6 stages x 3 requests (a 6 MB upload among them) x with and without another exchange x whether Qt's HTTP thread runs before the event loop does", 6 * 6 * 3 * 2 * 2, lifetimes, 120)));
	return v;
}
