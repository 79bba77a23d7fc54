// C20: flow-controlled reading by the client.
#include "client.h"
using namespace mc;
using std::string;

static const int flowBuffers[] = { 0, 1, 2, 7, 64, 1000, 5000 };
static const char* framings[] = { "length", "length, Connection: close", "chunked", "until EOF", "gzip, length" };

struct Flow
{
	Ctx& ctx; Listener l; ClientRig rig; std::unique_ptr<Peer> p; string got, body, story; int R, inSignal, nSignals; bool bounded; size_t delivered; bool fresh;
	Flow(Ctx& ctx, int R, int inSignal) : ctx(ctx), R(R), inSignal(inSignal), nSignals(0), bounded(true), delivered(0), fresh(true)
	{
		rig.c->setReadBufferSize(R);
		rig.onContent = [this]() { ++nSignals; bound("in contentReadyRead"); if (this->inSignal == 1 || (this->inSignal == 2 && nSignals % 2)) take(); };
	}
	void bound(const char* when) { if (R > 0 && bounded && rig.c->content().size() > 2 * R) ctx.fail("%s: %d bytes of unconsumed content with a read buffer of %d; %s", when, rig.c->content().size(), R, story.c_str()); }
	void take() { got += sb(rig.c->consumeContent()); if (rig.c->content().size()) ctx.fail("content() is not empty after it was consumed; %s", story.c_str()); check(); }
	void check() { if (got.size() > body.size() || body.compare(0, got.size(), got) != 0) { size_t d = 0; while (d < got.size() && d < body.size() && got[d] == body[d]) ++d; ctx.fail("consumed content differs from what was sent at %zu (of %zu, %zu consumed); %s", d, body.size(), got.size(), story.c_str()); } }
	bool ask(const char* path)
	{
		got.clear(); delivered = 0; nSignals = 0; rig.shots.clear(); rig.c->get(url(l.base() + path)); if (fresh) { p.reset(); p.reset(l.accept()); fresh = false; }
		ref::Request q; if (!p || !until([&]() { return takeRequest(*p, &q) || p->ended(); }) || p->ended()) { ctx.fail("request %s did not arrive on %s connection; %s", path, p && p->ended() ? "the kept" : "a", story.c_str()); return false; }
		if (q.target() != path) { ctx.fail("request %s instead of %s", q.target().c_str(), path); return false; }
		return true;
	}
	bool finished() const { return !rig.shots.empty(); }
	// What has arrived becomes available once there is room.
	void progress() { if (finished() || rig.c->content().size() || got.size() >= delivered) return; if (!until([&]() { return finished() || rig.c->content().size() > 0 || got.size() >= delivered; }, 3)) ctx.fail("stalled: %zu bytes of content delivered, %zu consumed, none available; %s", delivered, got.size(), story.c_str()); }
	bool drainAll() // Everything was sent: consuming must bring the exchange to its end.
	{
		const double end = netNow() + 10; for (int i = 0; !finished(); ++i) { take(); if (ctx.failed()) return false; progress(); if (ctx.failed()) return false; spin(1); bound("while consuming"); if (netNow() > end) { ctx.fail("the exchange does not finish although all is consumed (%zu of %zu); %s", got.size(), body.size(), story.c_str()); return false; } }
		take(); if (rig.shots.back().error) { ctx.fail("finished with %s; %s", errorName(rig.shots.back().error), story.c_str()); return false; }
		if (!ctx.failed() && got != body) ctx.fail("%zu bytes consumed instead of %zu; %s", got.size(), body.size(), story.c_str());
		return !ctx.failed();
	}
	bool second() // The next exchange is not affected.
	{
		spin(4); if (!fresh && p->ended()) { ctx.fail("the connection was closed after the exchange; %s", story.c_str()); return false; }
		body = "the second content"; if (!ask("/second")) return false;
		p->give("HTTP/1.1 200 OK\r\nContent-Length: 18\r\n\r\n"); p->give(body); delivered = body.size(); return drainAll();
	}
};

static std::vector<string> wire(int framing, const std::vector<string>& pieces, string* head)
{
	string all; for (size_t i = 0; i < pieces.size(); ++i) all += pieces[i]; std::vector<string> w;
	switch (framing)
	{
	case 0: *head = "HTTP/1.1 200 OK\r\nContent-Length: " + ref::num(all.size()) + "\r\n\r\n"; w = pieces; break;
	case 1: *head = "HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: " + ref::num(all.size()) + "\r\n\r\n"; w = pieces; break;
	case 2: *head = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n"; for (size_t i = 0; i < pieces.size(); ++i) { char b[32]; snprintf(b, sizeof b, "%x\r\n", (int)pieces[i].size()); w.push_back(b + pieces[i] + "\r\n" + (i + 1 == pieces.size() ? "0\r\n\r\n" : "")); } break;
	case 3: *head = "HTTP/1.1 200 OK\r\n\r\n"; w = pieces; break;
	case 4: { const string z = gz(all); *head = "HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: " + ref::num(z.size()) + "\r\n\r\n"; for (size_t i = 0, at = 0; i < pieces.size(); ++i) { const size_t n = i + 1 == pieces.size() ? z.size() - at : z.size() / pieces.size(); w.push_back(z.substr(at, n)); at += n; } } break;
	}
	return w;
}

// Every schedule of the server's pieces, consumption and the event loop.
static void schedules(Ctx& c, uint64_t root, int depth)
{
	const int R = flowBuffers[take(root, 7)], framing = take(root, 5), inSignal = take(root, 3), sizes = take(root, 4), headWith = take(root, 2); const int unit = R ? R : 50; std::vector<string> pieces;
	static const int mult[4][3] = { { 1, 1, 1 }, { 3, 0, 2 }, { 10, 1, 0 }, { 0, 5, 7 } }; string all;
	for (int i = 0; i < 3; ++i) { pieces.push_back(ref::pattern(mult[sizes][i] * unit + (i == 2), i + sizes)); all += pieces.back(); }
	if (framing == 2) for (size_t i = 0; i < pieces.size();) if (pieces[i].empty()) pieces.erase(pieces.begin() + i); else ++i;
	Flow f(c, R, inSignal); f.body = all; f.bounded = framing != 4; string head; const std::vector<string> w = wire(framing, pieces, &head);
	static const char* modes[] = { "", ", consumed in contentReadyRead", ", consumed in every second contentReadyRead" };
	f.story = string(framings[framing]) + ", read buffer of " + ref::num(R) + modes[inSignal] + ", pieces"; for (size_t i = 0; i < pieces.size(); ++i) f.story += " " + ref::num(pieces[i].size()); f.story += ":";
	if (!f.ask("/first")) return;
	size_t next = 0; if (!headWith) f.p->give(head); bool fin = false;
	for (int d = 0; d < depth && !c.failed() && !f.finished(); ++d)
	{
		const int op = c.choose(5);
		if (op == 4) break;
		if (op == 0) { if (next >= w.size()) { if (framing != 1 && framing != 3) break; if (fin) break; fin = true; f.story += " server closes"; f.p->fin(); } else { f.story += " piece"; const size_t before = f.delivered; f.p->give((headWith && next == 0 ? head : "") + w[next]); f.delivered = before + (framing == 4 ? 0 : pieces[next].size()); ++next; } }
		else if (op == 1) { f.story += " consume"; f.take(); }
		else if (op == 2) { f.story += " loop"; spin(2); if (f.got.size() < f.delivered && !f.rig.c->content().size()) f.progress(); }
		else { f.story += " consume+loop"; f.take(); f.progress(); }
		f.bound("between events"); c.state(hash(hash(hash(20, f.story), f.got.size()), f.rig.c->content().size()));
	}
	c.log("%s", f.story.c_str());
	for (; next < w.size() && !c.failed(); ++next) { f.p->give((headWith && next == 0 ? head : "") + w[next]); f.bound("after a piece"); }
	f.delivered = framing == 4 ? 0 : all.size(); if ((framing == 3 || (framing == 1 && root % 2 == 0)) && !fin) { f.p->fin(); } if (framing == 1 || framing == 3) f.fresh = true;
	if (c.failed() || !f.drainAll()) return;
	f.second();
}

// Larger transfers in every combination of sizes, buffers and paces.
static void transfers(Ctx& c, uint64_t root)
{
	static const int sizes[] = { 0, 1, 1000, 20000, 70000, 300000 }, steps[] = { 1 << 30, 65536, 1448, 300 }, buffers[] = { 0, 1, 64, 1000, 4096, 30000, 100000 };
	const int n = sizes[take(root, 6)], step = steps[take(root, 4)], R = buffers[take(root, 7)], framing = take(root, 5), pace = take(root, 4);
	if (R == 1 && n > 1000) return; if (R == 64 && n > 20000) return; if (step == 300 && n > 70000) return;
	Flow f(c, R, pace == 0 ? 1 : pace == 1 ? 2 : 0); f.body = ref::pattern(n, step & 63); f.bounded = framing != 4; string head; std::vector<string> pieces; for (int at = 0; at < n; at += step) { pieces.push_back(f.body.substr(at, step)); if (n - at <= step) break; }
	if (pieces.empty() && framing != 2) pieces.push_back("");
	std::vector<string> w = wire(framing, pieces, &head); if (framing == 2 && w.empty()) w.push_back("0\r\n\r\n");
	f.story = string(framings[framing]) + ", " + ref::num(n) + " bytes in steps of " + ref::num(step) + ", read buffer of " + ref::num(R) + ", pace " + ref::num(pace); c.log("%s", f.story.c_str());
	if (!f.ask("/t")) return; f.p->give(head);
	// Not more than the other end's buffers take: sending goes on while it consumes.
	size_t i = 0, at = 0; const double end = netNow() + 20;
	while (i < w.size() && !c.failed())
	{
		const size_t k = f.p->send(w[i], at); at += k; if (at >= w[i].size()) { ++i; at = 0; }
		spin(1); f.bound("while sending"); if (pace == 3 || (pace == 2 && i % 3 == 0)) { f.take(); } if (!k && !w.empty() && i < w.size() && w[i].size()) { if (pace >= 1) f.take(); }
		if (netNow() > end) { c.fail("sending stalls; %s", f.story.c_str()); return; }
	}
	f.delivered = framing == 4 ? 0 : n; if (framing == 1 || framing == 3) { f.p->fin(); f.fresh = true; }
	if (!c.failed() && f.drainAll()) f.second(); c.state(hash(21, f.story));
}

// The buffer size changes within an exchange, and consumption happens at unusual moments.
static void moments(Ctx& c, uint64_t root)
{
	static const int buffers[] = { 0, 1, 50, 3000 }; const int first = buffers[take(root, 4)], then = buffers[take(root, 4)], when = take(root, 4), where = take(root, 6), framing = take(root, 4);
	Flow f(c, first, where == 4 ? 1 : 0); f.bounded = false; f.body = ref::pattern(400, 2); std::vector<string> pieces; pieces.push_back(f.body.substr(0, 150)); pieces.push_back(f.body.substr(150)); string head; const std::vector<string> w = wire(framing, pieces, &head);
	static const char* wheres[] = { "at the end", "in headersCompleted", "in finished", "before the request and after", "in contentReadyRead", "twice at each point" };
	f.story = string(framings[framing]) + ", read buffer of " + ref::num(first) + ", then " + ref::num(then) + " from point " + ref::num(when) + ", consumed " + wheres[where]; c.log("%s", f.story.c_str());
	if (where == 3) f.rig.c->consumeContent(); if (!f.ask("/m")) return;
	if (where == 1) f.rig.onHeaders = [&]() { f.take(); }; string atEnd; if (where == 2) f.rig.onFinished = [&]() { if (f.got.size() < f.body.size()) { f.got += sb(f.rig.c->consumeContent()); } };
	auto point = [&](int n) { if (n == when) f.rig.c->setReadBufferSize(then); if (where == 5) { f.take(); f.take(); } if (where == 3) { f.take(); spin(1); f.take(); } };
	point(0); f.p->give(head); point(1); f.p->give(w[0]); point(2); f.p->give(w[1]); point(3); f.delivered = 400; if (framing == 1 || framing == 3) { f.p->fin(); f.fresh = true; }
	if (!f.drainAll()) return; f.rig.onHeaders = f.rig.onFinished = nullptr; spin(4); f.second(); c.state(hash(22, f.story));
}

// Consuming, then ending the exchange in another way: nothing is left over for the next.
static void interrupted(Ctx& c, uint64_t root)
{
	static const int buffers[] = { 0, 10, 100 }; const int R = buffers[take(root, 3)], end = take(root, 4), n = take(root, 5), framing = take(root, 4); const bool consume = take(root, 2), again = take(root, 2);
	Flow f(c, R, 0); f.bounded = false; f.body = ref::pattern(500, 3); std::vector<string> pieces(1, f.body); string head; const std::vector<string> w = wire(framing, pieces, &head); static const char* ends[] = { "aborted", "closed by the server", "reset", "malformed" };
	f.story = string(framings[framing]) + ", read buffer of " + ref::num(R) + ", " + ends[end] + " after " + ref::num(n * 60) + " bytes" + (consume ? ", consumed before" : "") + (again ? ", request made inside finished()" : ""); c.log("%s", f.story.c_str());
	if (end == 3 && framing != 2) return; if (end == 1 && framing == 3) return;
	if (!f.ask("/i")) return; bool asked = false; if (again) f.rig.onFinished = [&]() { if (!asked) { asked = true; f.rig.c->get(url(f.l.base() + "/second")); } };
	f.p->give(head + w[0].substr(0, n * 60)); if (consume) f.take();
	switch (end) { case 0: f.rig.c->abort(); break; case 1: f.p->fin(); break; case 2: f.p->rst(); break; case 3: if (n * 60 < 500) { f.p->give(w[0].substr(n * 60, 505 - n * 60) + "junk\r\n"); } break; }
	const double limit = netNow() + 5; while (f.rig.shots.empty() && netNow() < limit) { if (!asked) f.take(); spin(1); if (c.failed()) return; }
	if (f.rig.shots.empty()) { c.fail("did not finish; %s", f.story.c_str()); return; }
	const int e = f.rig.shots[0].error; const bool fine = end == 0 ? e == Client::AbortedError : end == 1 ? e == Client::RemoteHostClosedError : end == 2 ? (e == Client::RemoteHostClosedError || e == Client::NetworkError || (framing == 3 && e == 0)) : e == Client::ResponseInvalidError;
	if (!fine) { c.fail("finished with %s; %s", errorName(e), f.story.c_str()); return; }
	f.fresh = true; f.body = "the second content"; f.rig.onFinished = nullptr;
	if (again) { f.got.clear(); f.rig.shots.clear(); std::unique_ptr<Peer> np(f.l.accept()); if (!np) { c.fail("no second connection; %s", f.story.c_str()); return; } f.p.swap(np); ref::Request q; if (!until([&]() { return takeRequest(*f.p, &q); }) || q.target() != "/second") { c.fail("the second request did not arrive; %s", f.story.c_str()); return; } f.p->give("HTTP/1.1 200 OK\r\nContent-Length: 18\r\n\r\n"); f.p->give(f.body); f.delivered = f.body.size(); f.fresh = false; f.drainAll(); }
	else f.second();
	c.state(hash(23, f.story));
}

std::vector<Suite> suitesC20(Tier t)
{
	const bool th = t == Thorough; std::vector<Suite> v; const int depth = th ? 5 : 3;
	v.push_back(retried(Suite("schedules", "7 read buffer sizes (unlimited, 1 .. 5000) x {length, length and close, chunked, until EOF, gzip} x consumption inside contentReadyRead {never, always, every second} x 4 size patterns relative to the buffer x head with or before the content: every sequence of up to " + ref::num(depth) + " events {next piece arrives or the server closes, consume, event loop runs, consume and loop}, then everything arrives and is consumed, and a second exchange follows", 7ull * 5 * 3 * 4 * 2, [depth](Ctx& c, uint64_t r) { schedules(c, r, depth); }, 120)));
	v.push_back(retried(Suite("transfers", "contents of {0, 1, 1000, 20000, 70000, 300000} bytes in steps of {300, 1448, 65536, all} x read buffers {unlimited, 1, 64, 1000, 4096, 30000, 100000} x 5 framings x 4 paces of consumption", 6ull * 4 * 7 * 5 * 4, transfers, 120)));
	v.push_back(retried(Suite("moments", "the read buffer size changed at any of 4 points of an exchange x consumption at unusual moments (in every signal, before the request, repeatedly) x 4 framings", 4ull * 4 * 4 * 6 * 4, moments, 120)));
	v.push_back(retried(Suite("interrupted", "consumption before an exchange is aborted, closed, reset or malformed at 5 points, with the next request inside finished() or later", 3ull * 4 * 5 * 4 * 2 * 2, interrupted, 120)));
	return v;
}
