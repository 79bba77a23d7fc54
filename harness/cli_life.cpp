// C17: every client request finishes exactly once with the right outcome, in sequences of exchanges of every kind.
#include "client.h"
using namespace mc;
using std::string;

enum Kind { Ok, OkChunked, OkClose, OkEof, Head, Http10, NotModified, Gzip, Malformed, FinInGzip, FinAtOnce, RstInBody, Refused, AbortAtOnce, AbortInGzip, AbortInHeaders, AbortHeadInHeaders, AbortInContent, Interim, Redirect, IdleClosed, IdleJunk, OtherHost, EarlyAnswer, FinInHeaders, AbortConnected, EofEmpty, ChunkedGzipBad, NKinds };
static const char* kindNames[] = { "ok", "ok chunked with trailer", "ok, Connection: close", "ok until EOF", "HEAD", "HTTP/1.0", "304 with length", "gzip", "malformed response", "closed in gzip content", "closed before the response", "reset in the content", "connection refused", "aborted at once", "aborted in gzip content", "aborted in headersCompleted", "HEAD aborted in headersCompleted", "aborted in contentReadyRead", "two interim responses", "redirect followed", "ok, then idle connection closed by the server", "ok, then unsolicited data", "ok from another host", "answer before the content was read", "closed in the headers", "aborted when connected", "ok until EOF, empty", "truncated chunked gzip" };
enum How { After, InFinished, InCallback, NHows };

struct Model { int error, error2; bool response; Resp resp; string body; bool reusable; Model() : error(0), error2(0), response(true), reusable(true) {} };

struct Drive
{
	Ctx& ctx; Listener a, b; ClientRig rig; std::unique_ptr<Peer> peer; bool peerUsable; bool peerOnB; int serial; string story; int keepAlive; int stale; size_t done; bool nextRefused; std::vector<string> issuedPath; std::function<void()> issueNext;
	explicit Drive(Ctx& ctx) : ctx(ctx), peerUsable(false), peerOnB(false), serial(0), keepAlive(-1), stale(0), done(0), nextRefused(false) {}
	bool fail(const string& s) { ctx.fail("%s; history: %s", s.c_str(), story.c_str()); return false; }

	bool onB(int kind) const { return kind == OtherHost; }
	string pathOf(int n) const { return "/r" + ref::num(n); }
	void issue(int kind)
	{
		const int n = ++serial; Listener& l = onB(kind) ? b : a; Client& c = *rig.c; const string u = l.base() + pathOf(n);
		if (kind == Refused) { Listener gone; const string g = gone.base(); gone.close(); c.get(url(g + pathOf(n))); return; }
		if (kind == Head || kind == AbortHeadInHeaders) c.head(url(u), qh(ref::Headers(1, ref::Header("N", ref::num(n)))));
		else if (kind == EarlyAnswer) c.post(url(u), Pillow::HttpHeaderCollection(), QByteArray(6 * 1024 * 1024, 'p'));
		else if (n % 3 == 0) c.post(url(u), qh(ref::Headers(1, ref::Header("N", ref::num(n)))), qb("content " + ref::num(n)));
		else c.get(url(u), qh(ref::Headers(1, ref::Header("N", ref::num(n)))));
	}

	// The server gets the request, on the connection it must come on.
	bool receive(int kind, bool mayReuse)
	{
		const bool toB = onB(kind); const bool reuse = mayReuse && peer && peerUsable && peerOnB == toB && keepAlive == -1;
		Listener& l = toB ? b : a;
		if (!reuse)
		{
			peer.reset(); peerOnB = toB;
			for (;; --stale)
			{
				peer.reset(l.accept()); if (!peer) return fail("no connection for the request");
				// What was aborted while connecting may have got there, even with its request.
				if (!stale) break;
				until([&]() { peer->read(1000); return !peer->in.empty() || peer->ended(); }); if (!peer->in.empty() && peer->in.find(" " + pathOf(serial) + " ") != string::npos) break;
				if (!until([&]() { return peer->ended(); })) return fail("the aborted request's connection was not closed");
			}
		}
		ref::Request q; Peer& p = *peer;
		if (kind == EarlyAnswer) { if (!until([&]() { p.read(1000); return p.in.size() > 50; })) return fail("no request"); p.in.clear(); return true; }
		if (!until([&]() { return takeRequest(p, &q) || p.eof || p.reset || l.pending(); }) || p.eof || p.reset) return fail(reuse ? "no request on the connection that is still usable" : "no request on the new connection");
		if (q.method.empty() && l.pending()) return fail("a new connection was made although the current one is usable");
		if (q.target() != pathOf(serial)) return fail("the server got a request for " + q.target() + " instead of " + pathOf(serial));
		if (!p.in.empty()) return fail("unexpected bytes after the request: " + mc::show(p.in));
		return true;
	}

	bool finished(const Model& m, size_t n) // n: how many finished() signals there must be by now.
	{
		if (!until([&]() { return rig.shots.size() >= n; })) return fail("the request did not finish");
		spin(2);
		if (rig.shots.size() > n + (nextRefused ? 1 : 0)) return fail("finished() was emitted " + ref::num(rig.shots.size()) + " times for " + ref::num(n) + " requests (events " + rig.events + ")");
		const Shot& s = rig.shots[n - 1]; done = n;
		if (s.error != m.error && s.error != m.error2) return fail(string("error is ") + errorName(s.error) + " instead of " + errorName(m.error));
		if (s.pending) return fail("responsePending() inside finished()");
		if (m.error == Client::NoError)
		{
			if (s.status != m.resp.status) return fail("status " + ref::num(s.status) + " instead of " + ref::num(m.resp.status));
			if (s.headers != m.resp.all()) return fail("headers " + hdrText(s.headers) + " instead of " + hdrText(m.resp.all()));
			if (s.content != m.body) return fail("content [" + mc::show(s.content, 100) + "] instead of [" + mc::show(m.body, 100) + "]");
		}
		return true;
	}

	// Runs one exchange whose request was issued. nextInCallback: the next request is issued by a handler.
	bool run(int kind, How how, bool reuse)
	{
		Model m; Client& c = *rig.c; const int n = serial; const size_t done = this->done; bool issued = false;
		auto next = [&]() { if (!issued && issueNext) { issued = true; issueNext(); } };
		rig.onFinished = [&, how]() { if (how == InFinished) next(); };
		auto abortHere = [&, how]() { c.abort(); if (how == InCallback) next(); };
		rig.onHeaders = rig.onContent = nullptr;
		const string text = "body of " + ref::num(n) + string((size_t)(n * 5 % 11), '.'); Resp& r = m.resp; r.h("Serial", ref::num(n)); m.body = text; string bytes;
		auto ints = [](int a, int b) { std::vector<int> v(1, a); if (b) v.push_back(b); return v; };
		const string zipped = gz(text + string(3000, 'z')); bool answered = true;
		switch (kind)
		{
		case Ok: case IdleClosed: case IdleJunk: case OtherHost: r.len(text); break;
		case OkChunked: r.chk(text, ints(3, (int)text.size() - 3)); r.trailers.push_back(ref::Header("X-Trailer", "t" + ref::num(n))); break;
		case OkClose: r.h("Connection", n % 3 == 0 ? "close" : n % 3 == 1 ? "TE, close" : "Close,x-y").len(text); m.reusable = false; break;
		case OkEof: case EofEmpty: if (kind == EofEmpty) m.body = ""; r.eof(m.body); m.reusable = false; break;
		case Head: r.h("Content-Length", "5"); m.body = ""; break;
		case Http10: r.minor = 0; r.len(text); m.reusable = false; break;
		case NotModified: r.st(304, "Not Modified").h("Content-Length", "12"); m.body = ""; break;
		case Gzip: r.h("Content-Encoding", "gzip").len(zipped); m.body = text + string(3000, 'z'); break;
		case Malformed: bytes = "HTTP/1.1 2x0 OK\r\n\r\n"; m.error = m.error2 = Client::ResponseInvalidError; m.reusable = false; break;
		case FinInGzip: r.h("Content-Encoding", "gzip").len(zipped); bytes = r.bytes(); bytes.resize(bytes.size() - 12); m.error = m.error2 = Client::RemoteHostClosedError; m.reusable = false; break;
		case ChunkedGzipBad: r.h("Content-Encoding", "gzip").chk(zipped, ints((int)zipped.size(), 0)); bytes = r.bytes(); bytes.resize(bytes.size() - 7); m.error = m.error2 = Client::RemoteHostClosedError; m.reusable = false; break;
		case FinInHeaders: bytes = "HTTP/1.1 200 OK\r\nPartial: he"; m.error = m.error2 = Client::RemoteHostClosedError; m.reusable = false; break;
		case FinAtOnce: bytes = ""; m.error = m.error2 = Client::RemoteHostClosedError; m.reusable = false; break;
		case RstInBody: r.len(text); bytes = r.bytes(); bytes.resize(bytes.size() - 2); m.error = Client::RemoteHostClosedError; m.error2 = Client::NetworkError; m.reusable = false; break;
		case Refused: m.error = m.error2 = Client::NetworkError; m.reusable = false; break;
		case AbortInGzip: case AbortInHeaders: case AbortInContent: r.h("Content-Encoding", "gzip").len(zipped); break;
		case AbortHeadInHeaders: r.h("Content-Length", "9"); break;
		case Interim: r.len(text); bytes = n % 3 == 0 ? "HTTP/1.1 102 Processing\r\n\r\nHTTP/1.1 103 Early Hints\r\nLink: </x>\r\n\r\n" : n % 3 == 1 ? "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 100 Continue\r\nX: y\r\n\r\n" : "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 103 Early Hints\r\nContent-Encoding: gzip\r\n\r\n"; bytes += r.bytes(); break;
		case Redirect: r.st(302, "Found").h("Location", "/moved/r" + ref::num(n)).len(""); m.body = ""; break;
		case EarlyAnswer: r.h("Connection", "close").len(text); m.reusable = false; break;
		}
		if (bytes.empty() && kind != FinAtOnce) bytes = r.bytes();
		const bool aborts = kind == AbortAtOnce || kind == AbortInGzip || kind == AbortInHeaders || kind == AbortHeadInHeaders || kind == AbortInContent || kind == AbortConnected;
		if (aborts) { m.error = m.error2 = Client::AbortedError; m.reusable = false; }
		if (kind == Refused && rig.shots.size() > done) {} // At once.
		else if (!c.responsePending()) return fail("responsePending() is false after the request was made");
		else if (c.error() != Client::NoError || c.statusCode() != 0 || c.headers().size() || c.content().size()) return fail("something of the previous response is left when a request was made");

		if (kind == AbortAtOnce) { rig.onFinished = [&]() { if (how != After) next(); }; ++stale; c.abort(); }
		else if (kind == Refused) {}
		else
		{
			if (!receive(kind, reuse)) return false;
			Peer& p = *peer;
			if (kind == AbortInHeaders || kind == AbortHeadInHeaders) rig.onHeaders = abortHere;
			if (kind == AbortInContent) rig.onContent = abortHere;
			if (kind == AbortConnected) { c.abort(); answered = false; }
			if (answered)
			{
				const size_t cut = bytes.size() / 2;
				if (n % 2 && kind != Interim) { p.give(bytes.substr(0, cut)); if (kind == AbortInGzip) { c.abort(); bytes.resize(cut); } p.give(bytes.substr(cut)); }
				else { if (kind == AbortInGzip) bytes.resize(bytes.size() - 9); p.give(bytes); if (kind == AbortInGzip) c.abort(); }
				if (kind == OkEof || kind == EofEmpty || kind == FinInGzip || kind == FinAtOnce || kind == FinInHeaders || kind == ChunkedGzipBad) { if (rig.shots.size() > done) return fail("finished before the end of the response"); p.fin(); }
				if (kind == RstInBody) p.rst();
			}
		}
		if (!finished(m, done + 1)) return false;
		if (kind == Redirect)
		{
			if (!rig.shots[done].redirected || rig.shots[done].location != "/moved/r" + ref::num(n)) return fail("redirection not reported");
			if (!issued) // Otherwise the next request was made instead of following it.
			{
				if (keepAlive == 1) { struct timespec t = { 0, 3000000 }; nanosleep(&t, 0); }
				c.followRedirection(); if (!c.responsePending()) return fail("followRedirection() made no request");
				if (keepAlive != -1) { peer.reset(); peer.reset(a.accept()); if (!peer) return fail("no connection for the redirection"); }
				ref::Request q; if (!until([&]() { return takeRequest(*peer, &q); }) || q.target() != "/moved/r" + ref::num(n)) return fail("redirection not followed: " + q.target());
				Model m2; m2.resp.h("Serial", "moved").len("moved"); m2.body = "moved"; rig.onFinished = [&, how]() { if (how == InFinished) next(); };
				peer->give(m2.resp.bytes()); if (!finished(m2, done + 2)) return false;
			}
		}
		peerUsable = m.reusable;
		rig.onFinished = nullptr; rig.onHeaders = rig.onContent = nullptr;
		if (kind == IdleClosed && !issued) { peer->fin(); peerUsable = false; }
		if (kind == IdleJunk && !issued) { peer->give("HTTP/1.1 408 Request Timeout\r\n\r\n"); if (!until([&]() { return peer->ended(); })) return fail("connection with unsolicited data not closed"); peerUsable = false; }
		if (!peerUsable && peer && !issued && kind != Refused && !until([&]() { return peer->ended(); })) return fail("the connection was not closed");
		if (!issued)
		{
			if (c.responsePending()) return fail("responsePending() without a request");
			const Shot now = rig.look(), &then = rig.shots.back();
			if (now.error != then.error || (then.error == 0 && (now.status != then.status || now.headers != then.headers || now.content != then.content))) return fail("the response changed after finished()");
			if (issueNext) { if (keepAlive == 1) { struct timespec t = { 0, 3000000 }; nanosleep(&t, 0); } issueNext(); }
		}
		return true;
	}
};

static void sequences(Ctx& ctx, uint64_t root, int depth)
{
	Drive d(ctx); static const int keepAlives[] = { -1, 0, 1 }; d.keepAlive = keepAlives[take(root, 3)]; d.rig.c->setKeepAliveTimeout(d.keepAlive);
	std::vector<int> kinds(depth); std::vector<How> hows(depth);
	for (int i = 0; i < depth; ++i) { kinds[i] = take(root, NKinds); hows[i] = (How)take(root, i + 1 < depth ? (int)NHows : 1); }
	for (int i = 0; i < depth; ++i) if (hows[i] == InCallback && kinds[i] != AbortInHeaders && kinds[i] != AbortHeadInHeaders && kinds[i] != AbortInContent) return; // Same as InFinished.
	if (d.keepAlive == 1) for (int i = 0; i + 1 < depth; ++i) if (hows[i] != After) return; // Whether it has expired would be a matter of timing.
	d.story = d.keepAlive == -1 ? "" : d.keepAlive == 0 ? "(keep-alive disabled) " : "(keep-alive expiring) ";
	for (int i = 0; i < depth; ++i) d.story += string(i ? ", then " : "") + kindNames[kinds[i]] + (i + 1 == depth || hows[i] == After ? "" : hows[i] == InFinished ? " [next made in finished()]" : " [next made in the aborting slot]");
	ctx.log("%s", d.story.c_str());
	d.issue(kinds[0]);
	for (int i = 0; i < depth; ++i)
	{
		if (i + 1 < depth) d.issueNext = [&d, &kinds, i]() { d.issue(kinds[i + 1]); }, d.nextRefused = kinds[i + 1] == Refused; else d.issueNext = nullptr, d.nextRefused = false;
		if (!d.run(kinds[i], hows[i], i > 0)) return;
		uint64_t h = 1; for (int k = 0; k <= i; ++k) h = hash(h, kinds[k] * 8 + hows[k]); ctx.state(hash(h, d.keepAlive + 5));
	}
	spin(3);
	while (d.stale-- > 0 && d.a.pending()) { Peer* p = d.a.accept(); if (!until([&]() { return p->ended(); })) ctx.fail("the aborted request's connection was not closed; history: %s", d.story.c_str()); delete p; }
	if (d.a.pending() || d.b.pending()) ctx.fail("an unexpected connection was made; history: %s", d.story.c_str());
}

// Two kinds of exchanges in turn, many times: nothing changes with their number, and nothing piles up.
static void longSequences(Ctx& ctx, uint64_t root, int total)
{
	const int first = take(root, NKinds), second = take(root, NKinds); if (first == EarlyAnswer || second == EarlyAnswer) return;
	Drive d(ctx); d.rig.c->setKeepAliveTimeout(-1); d.story = string(kindNames[first]) + " and " + kindNames[second] + " in turn"; ctx.log("%s", d.story.c_str()); const string story = d.story; long long before = 0;
	auto kind = [&](int i) { return (i / 3 + i) % 2 ? second : first; };
	d.issue(kind(0));
	for (int i = 0; i < total; ++i)
	{
		d.story = story + ", exchange " + ref::num(i); if (i == total / 2) before = liveBytes();
		if (i + 1 < total) d.issueNext = [&d, &kind, i]() { d.issue(kind(i + 1)); }, d.nextRefused = kind(i + 1) == Refused; else d.issueNext = nullptr, d.nextRefused = false;
		if (!d.run(kind(i), After, i > 0)) return;
		for (size_t k = 0; k + 1 < d.rig.shots.size(); ++k) { string().swap(d.rig.shots[k].content); ref::Headers().swap(d.rig.shots[k].headers); } d.rig.events.clear(); ctx.step();
	}
	spin(4); const long long growth = liveBytes() - before; ctx.state(hash(61, story)); ctx.log("grew by %lld", growth);
	if (before && growth > 60000 + 300ll * (total - total / 2)) ctx.fail("memory in use grew by %lld bytes over %d exchanges: %s", growth, total - total / 2, story.c_str());
}

// Exchanges with pauses between them, and answers that take long: the connection is kept for the keep-alive time after the end of each exchange.
static void idleTimes(Ctx& ctx, uint64_t root)
{
	const int limit = 300, pauses[] = { 0, 180, 480 }; int gap[3]; for (int i = 0; i < 3; ++i) gap[i] = pauses[take(root, 3)];
	const bool slow = take(root, 2), failing = take(root, 2); string story = "keep-alive for 300 ms;"; if (failing && slow) return;
	auto rest = [](int ms) { if (ms) until([]() { return false; }, ms / 1000.0); };
	Listener l; ClientRig rig; Client& c = *rig.c; c.setKeepAliveTimeout(limit); std::unique_ptr<Peer> peer; double lowFrom = 0, highFrom = 0; bool usable = false;
	for (int i = 0; i < 4; ++i)
	{
		const double before = netNow(); c.get(url(l.base() + "/i" + ref::num(i))); const double after = netNow();
		bool reused = false; const bool must = usable && after - highFrom < (limit - 5) / 1000.0, mustNot = !usable || before - lowFrom > (limit + 5) / 1000.0; ref::Request q;
		if (!until([&]() { reused = peer && takeRequest(*peer, &q); return reused || l.pending(); })) { ctx.fail("%s request %d does not arrive", story.c_str(), i); return; }
		if (!reused)
		{
			if (must) { ctx.fail("%s request %d is made on a new connection, %.0f ms after the end of the previous exchange", story.c_str(), i, (before - highFrom) * 1000); return; }
			std::unique_ptr<Peer> old(peer.release()); peer.reset(l.accept()); if (old && !until([&]() { return old->ended(); })) { ctx.fail("%s the expired connection is not closed", story.c_str()); return; }
			if (!peer || !until([&]() { return takeRequest(*peer, &q); })) { ctx.fail("%s request %d does not arrive on its new connection", story.c_str(), i); return; }
		}
		else if (mustNot) { ctx.fail("%s request %d is made on the connection that was idle for %.0f ms", story.c_str(), i, (before - lowFrom) * 1000); return; }
		if (q.target() != "/i" + ref::num(i)) { ctx.fail("%s %s arrives", story.c_str(), q.target().c_str()); return; }
		const bool broken = failing && i == 1; Resp r; r.h("Serial", ref::num(i)).len("body"); const string bytes = r.bytes();
		if (slow && i == 1) { peer->give(bytes.substr(0, 10)); rest(240); peer->give(bytes.substr(10, bytes.size() - 11)); rest(240); highFrom = netNow(); peer->give(bytes.substr(bytes.size() - 1)); }
		else { highFrom = netNow(); if (broken) { peer->give(bytes.substr(0, bytes.size() - 1)); peer->fin(); } else peer->give(bytes); }
		if (!until([&]() { return (int)rig.shots.size() > i; })) { ctx.fail("%s request %d does not finish", story.c_str(), i); return; }
		lowFrom = netNow(); const Shot& sh = rig.shots.back(); usable = !broken;
		if (sh.error != (broken ? Client::RemoteHostClosedError : Client::NoError) || (!broken && (sh.content != "body" || ref::value(sh.headers, "serial") != ref::num(i)))) { ctx.fail("%s request %d: %s", story.c_str(), i, errorName(sh.error)); return; }
		story += slow && i == 1 ? " an exchange of 480 ms," : broken ? " a broken exchange," : " an exchange,"; if (i < 3) { rest(gap[i]); story += " " + ref::num(gap[i]) + " ms later"; }
		ctx.state(hash(67, story)); ctx.step();
	}
	spin(2); if (rig.shots.size() != 4) ctx.fail("%s finished() %zu times", story.c_str(), rig.shots.size()); ctx.log("%s", story.c_str());
}

static std::vector<Resp> plainResponses() // With gzip left to C18.
{
	std::vector<Resp> v; auto ints = [](int a, int b = 0) { std::vector<int> r(1, a); if (b) r.push_back(b); return r; };
	v.push_back(Resp().h("A", "1").len("hello")); v.push_back(Resp().h("Empty", "").h("B", "2").len("")); v.push_back(Resp().h("Connection", "close").len("bye"));
	v.push_back(Resp().chk("abcde", ints(2, 3))); { Resp r; r.chk("ab", ints(2)); r.trailers.push_back(ref::Header("T", "x")); v.push_back(r); }
	v.push_back(Resp().h("X", "y").eof("until")); { Resp r; r.minor = 0; v.push_back(r.eof("old")); } { Resp r; r.minor = 0; v.push_back(r.h("Connection", "keep-alive").len("ka")); }
	v.push_back(Resp().st(204, "No Content")); v.push_back(Resp().st(404, "Not Found").len("none")); v.push_back(Resp().st(304, "Not Modified").h("Content-Length", "3"));
	return v;
}
enum End { Stays, Fin, Rst, Abort, NEnds };

// One response cut anywhere, then nothing, the connection closed, reset, or aborted; with interim responses before; then a second request.
static void cuts(Ctx& ctx, uint64_t root)
{
	const std::vector<Resp> v = plainResponses(); const Resp r = v[take(root, v.size())]; const int interim = take(root, 4); const bool second = take(root, 2);
	string pre; for (int i = 0; i < interim; ++i) pre += i == 1 ? "HTTP/1.1 103 Early Hints\r\nX-Interim: 1\r\n\r\n" : i == 2 ? "HTTP/1.1 102 Processing\r\nContent-Length: 5\r\n\r\n" : "HTTP/1.1 100 Continue\r\n\r\n";
	const string s = pre + r.bytes(); const size_t headEnd = pre.size() + r.head().size();
	Drive d(ctx);
	for (size_t cut = 0; cut <= s.size() && !ctx.failed(); ++cut)
		for (int end = Stays; end < NEnds && !ctx.failed(); ++end)
		{
			if (end == Rst && cut % 3) continue; // What a reset finds depends on the position as a closing does.
			d.story = "(" + ref::num(interim) + " interim) " + mc::show(s, 700) + " cut at " + ref::num(cut) + (end == Stays ? "" : end == Fin ? ", then closed" : end == Rst ? ", then reset" : ", then aborted");
			d.rig.c.reset(); d.rig.shots.clear(); d.rig.events.clear(); d.peer.reset(); d.serial = 0;
			ClientRig rig; Client& c = *rig.c; int later = 0;
			const string path = "/x"; c.get(url(d.a.base() + path));
			d.peer.reset(d.a.accept()); ref::Request q; if (!d.peer || !until([&]() { return takeRequest(*d.peer, &q); })) { d.fail("no request"); return; }
			if (second) rig.onFinished = [&]() { if (!later++) c.get(url(d.a.base() + "/second")); };
			const bool whole = cut == s.size() && r.framing != Resp::Eof;
			d.peer->give(s.substr(0, cut)); if (!whole && !rig.shots.empty()) { d.fail("finished before the end of the response"); return; }
			int error = Client::NoError; bool ok = true;
			if (end == Stays) { d.peer->give(s.substr(cut)); if (r.framing == Resp::Eof) { if (!rig.shots.empty()) { d.fail("finished before the end of the response"); return; } d.peer->fin(); } }
			else if (end == Fin) { d.peer->fin(); ok = whole || (r.framing == Resp::Eof && cut >= headEnd); error = ok ? Client::NoError : Client::RemoteHostClosedError; }
			else if (end == Rst) { d.peer->rst(); ok = whole; error = ok ? Client::NoError : Client::RemoteHostClosedError; }
			else { c.abort(); ok = whole; error = ok ? Client::NoError : Client::AbortedError; }
			if (!until([&]() { return !rig.shots.empty(); })) { d.fail("the request did not finish"); return; }
			const Shot sh = rig.shots[0];
			if (end == Rst && r.framing == Resp::Eof && cut >= headEnd && sh.error == Client::NoError) ok = true, error = Client::NoError; // A reset is reported like a closing by the socket: the end of the response.
			if (sh.error != error && !(end == Rst && !ok && sh.error == Client::NetworkError)) { d.fail(string("error is ") + errorName(sh.error) + " instead of " + errorName(error)); return; }
			const string body = (end == Fin || end == Rst) && r.framing == Resp::Eof && cut >= headEnd ? r.body.substr(0, cut - headEnd) : r.framing == Resp::None ? "" : r.body;
			if (ok && (sh.status != r.status || sh.headers != r.all() || sh.content != body)) { d.fail("status " + ref::num(sh.status) + " headers " + hdrText(sh.headers) + " content [" + mc::show(sh.content) + "]"); return; }
			if (ok && rig.events.compare(0, body.empty() ? 2 : 3, body.empty() ? "HF" : "HcF") != 0) { d.fail("signals " + rig.events); return; }
			const bool atOnce = whole && (end != Stays || second); // It finished before the closing, resetting or aborting: the second request was under way by then, when made inside finished().
			const bool reused = ok && r.keepAlive() && end == Stays;
			if (!second) { spin(2); if (!later++) c.get(url(d.a.base() + "/second")); }
			if (second && atOnce && (end == Abort || (end != Stays && r.keepAlive())))
			{
				if (!until([&]() { return rig.shots.size() >= 2; })) { d.fail("the second request did not finish"); return; }
				const int e2 = rig.shots[1].error; const bool fine = end == Abort ? e2 == Client::AbortedError : (e2 == Client::RemoteHostClosedError || (end == Rst && e2 == Client::NetworkError));
				if (!fine) { d.fail(string("the second request, under way when the connection ended, finished with ") + errorName(e2)); return; }
				spin(2); if (rig.shots.size() != 2) { d.fail("finished() was emitted too often: " + rig.events); return; }
				while (d.a.pending()) { Peer* p = d.a.accept(); delete p; } // That of the aborted request, if it got that far.
			}
			else
			{
				std::unique_ptr<Peer> other; Peer* p = d.peer.get();
				if (!reused) { other.reset(d.a.accept()); p = other.get(); if (!p) { d.fail("no new connection for the second request"); return; } }
				ref::Request q2; if (!until([&]() { return takeRequest(*p, &q2) || p->eof || p->reset; }) || q2.target() != "/second") { d.fail("the second request did not arrive"); return; }
				Resp r2; r2.h("Second", "yes").len("second"); p->give(r2.bytes());
				if (!until([&]() { return rig.shots.size() >= 2; })) { d.fail("the second request did not finish"); return; }
				const Shot s2 = rig.shots[1];
				if (s2.error || s2.status != 200 || s2.headers != r2.headers || s2.content != "second") { d.fail(string("second response: ") + errorName(s2.error) + " status " + ref::num(s2.status) + " headers " + hdrText(s2.headers) + " content [" + mc::show(s2.content) + "]"); return; }
				spin(2); if (rig.shots.size() != 2) { d.fail("finished() was emitted too often: " + rig.events); return; }
			}
			ctx.state(hash(hash(2, s), cut * 8 + end * 2 + second));
		}
	ctx.log("%s, cut everywhere", mc::show(s, 700).c_str());
}

// Requests and aborts inside the signals of an exchange: one request at a time; what is refused is never sent, what is accepted finishes once.
static void inSignals(Ctx& ctx, uint64_t root)
{
	static const char* places[] = { "headersCompleted", "contentReadyRead", "finished", "finished (aborted)", "finished (closed early)", "finished (malformed)", "finished (refused)", "no signal" };
	const int place = take(root, 8), split = take(root, 2); std::vector<int> ops; string story = string("in ") + places[place] + ":";
	for (int k = 0; k < 3; ++k) { const int op = take(root, 4); if (op == 3) break; ops.push_back(op); story += op == 0 ? " request" : op == 1 ? " abort" : " request to another server"; }
	while (root) { if (take(root, 4) != 0) return; } // Each sequence once.
	Listener a, b; ClientRig rig; Client& c = *rig.c; ctx.log("%s", story.c_str());
	int active = 1, serial = 1, fired = 0; bool activeOnB = false; std::vector<std::pair<int, int> > wantShots; // (request, error)
	auto act = [&]() {
		if (fired++) return;
		for (size_t k = 0; k < ops.size(); ++k)
		{
			if (ops[k] == 1) { if (active) { wantShots.push_back(std::make_pair(active, (int)Client::AbortedError)); active = 0; } c.abort(); }
			else { ++serial; if (!active) { active = serial; activeOnB = ops[k] == 2; } c.get(url((ops[k] == 2 ? b : a).base() + "/q" + ref::num(serial))); }
			if ((int)rig.shots.size() != (int)wantShots.size()) { ctx.fail("%s: finished() emitted %zu times instead of %zu after operation %zu", story.c_str(), rig.shots.size(), wantShots.size(), k); return; }
		}
	};
	if (place == 6) { Listener gone; const string g = gone.base(); gone.close(); rig.onFinished = [&]() { if (active == 1) { active = 0; wantShots.push_back(std::make_pair(1, (int)Client::NetworkError)); act(); } }; c.get(url(g + "/q1")); }
	else c.get(url(a.base() + "/q1"));
	std::unique_ptr<Peer> p; bool first = true;
	if (place != 6)
	{
		p.reset(a.accept()); ref::Request q; if (!p || !until([&]() { return takeRequest(*p, &q); })) { ctx.fail("%s: no request", story.c_str()); return; }
		if (place == 0) rig.onHeaders = act; if (place == 1) rig.onContent = act;
		const int err = place == 3 ? Client::AbortedError : place == 4 ? Client::RemoteHostClosedError : place == 5 ? Client::ResponseInvalidError : Client::NoError;
		rig.onFinished = [&]() { if (active == 1 && first) { first = false; active = 0; wantShots.push_back(std::make_pair(1, err)); if (place >= 2) act(); } };
		if (place < 2) rig.onFinished = [&]() { if (active == 1) { active = 0; wantShots.push_back(std::make_pair(1, (int)Client::NoError)); } };
		const string s = "HTTP/1.1 200 OK\r\nContent-Length: 4\r\nSerial: 1\r\n\r\nbody";
		if (place == 7) act(); // While the response is awaited.
		else if (place == 3) { p->give(s.substr(0, split ? s.size() - 1 : 20)); c.abort(); }
		else if (place == 4) { p->give(s.substr(0, split ? s.size() - 1 : 20)); p->fin(); }
		else if (place == 5) { p->give(split ? "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n" : "garbage\r\n\r\n"); }
		if (place == 7 ? active == 1 : (place <= 2)) { if (split) { p->give(s.substr(0, s.size() - 2)); p->give(s.substr(s.size() - 2)); } else p->give(s); if (place == 7) until([&]() { return !rig.shots.empty(); }); }
	}
	if (!until([&]() { return fired || ctx.failed(); }) || ctx.failed()) { ctx.fail("%s: the signal did not come; signals %s", story.c_str(), rig.events.c_str()); return; }
	spin(3); rig.onHeaders = rig.onContent = nullptr;
	if (active > 1) // The request that was accepted last is served.
	{
		std::unique_ptr<Peer> other; Peer* use = p.get(); ref::Request q; const string path = "/q" + ref::num(active); const int error = Client::NoError;
		auto arrives = [&]() { if (use && !use->ended() && takeRequest(*use, &q)) return true; Listener& l = activeOnB ? b : a; if ((!other || other->ended()) && l.pending()) { other.reset(l.accept()); use = other.get(); } return use && takeRequest(*use, &q); };
		bool ok = until(arrives); while (ok && q.target() != path) { if (q.target() == "/q1" || atoi(q.target().c_str() + 2) > active) { ctx.fail("%s: request %s arrives instead of %s", story.c_str(), q.target().c_str(), path.c_str()); return; } if (use == other.get()) other.reset(); use = other.get(); ok = until(arrives); } // An aborted one may have got that far.
		if (!ok) { ctx.fail("%s: request %s does not arrive", story.c_str(), path.c_str()); return; }
		wantShots.push_back(std::make_pair(active, error)); use->give("HTTP/1.1 201 Created\r\nContent-Length: 2\r\nSerial: " + ref::num(active) + "\r\n\r\nok");
	}
	until([&]() { return rig.shots.size() >= wantShots.size(); }); spin(3);
	if (rig.shots.size() != wantShots.size()) { ctx.fail("%s: finished() emitted %zu times instead of %zu", story.c_str(), rig.shots.size(), wantShots.size()); return; }
	for (size_t k = 0; k < wantShots.size(); ++k)
	{
		const Shot& s = rig.shots[k];
		if (s.error != wantShots[k].second) { ctx.fail("%s: outcome %zu is %s instead of %s", story.c_str(), k, errorName(s.error), errorName(wantShots[k].second)); return; }
		if (!s.error && (ref::value(s.headers, "serial") != ref::num(wantShots[k].first) || s.content != (wantShots[k].first == 1 ? "body" : "ok"))) { ctx.fail("%s: outcome %zu is not that of request %d", story.c_str(), k, wantShots[k].first); return; }
	}
	if (c.responsePending()) ctx.fail("%s: still pending", story.c_str());
	for (int k = 0; k < 2 && !ctx.failed(); ++k) while ((k ? b : a).pending()) { std::unique_ptr<Peer> x((k ? b : a).accept()); until([&]() { x->read(); return x->ended() || !x->in.empty(); }, 0.5); ref::Request q; if (x->in.size() && takeRequest(*x, &q) && !(q.target() < "/q" + ref::num(serial + 1))) ctx.fail("%s: a refused request was sent", story.c_str()); }
	ctx.state(hash(hash(hash(13, place), split), story));
}

// A redirection, followed: the request that is made, where, and its outcome.
static void redirections(Ctx& ctx, uint64_t root)
{
	static const int statuses[] = { 302, 300, 301, 303, 307, 304, 305, 200, 404 };
	static const char* methods[] = { "GET", "HEAD", "POST", "PUT", "DELETE", "PATCH" };
	struct Form { const char* location; const char* target; bool other; };
	static const Form forms[] = { { "http://A/new?x=1", "/new?x=1", false }, { "http://B/new", "/new", true }, { "/abs/path", "/abs/path", false }, { "rel", "/dir/sub/rel", false }, { "../up", "/dir/up", false }, { "?q=2", "/dir/sub/page?q=2", false },
		{ "a%20b?c=%2F%26", "/dir/sub/a%20b?c=%2F%26", false }, { "//B/n", "/n", true }, { "http://B", "/", true } };
	const int st = statuses[take(root, 9)]; const int mi = take(root, 6); const Form f = forms[take(root, 9)]; const int how = take(root, 2), closes = take(root, 2), chain = take(root, 2);
	Listener a, b; auto subst = [&](string s) { size_t p = s.find("//A"); if (p != string::npos) s.replace(p + 2, 1, a.base().substr(7)); p = s.find("//B"); if (p != string::npos) s.replace(p + 2, 1, b.base().substr(7)); return s; };
	const string data = mi == 2 || mi == 3 || mi == 5 ? "the data" : ""; const string story = string(methods[mi]) + " answered with " + ref::num(st) + " Location: " + f.location + (how ? ", followed in finished()" : ", followed later") + (closes ? ", connection closed" : "") + (chain ? ", twice" : "");
	ClientRig rig; Client& c = *rig.c; const bool redirect = st != 304 && st != 305 && st != 200 && st != 404; bool follow = how; 
	rig.onFinished = [&]() { if (follow) { follow = false; if (c.redirected()) c.followRedirection(); } };
	c.request(methods[mi], url(a.base() + "/dir/sub/page?old=1"), Pillow::HttpHeaderCollection() << Pillow::HttpHeader("X-U", "v"), qb(data));
	string method = methods[mi], want = data, target = "/dir/sub/page?old=1"; std::unique_ptr<Peer> p(a.accept()); bool otherNow = false;
	for (int leg = 0; leg <= 1 + chain; ++leg)
	{
		if (!p) { ctx.fail("%s: no connection for request %d", story.c_str(), leg); return; }
		ref::Request q; if (!until([&]() { return takeRequest(*p, &q) || p->ended(); }) || q.method != method || q.target() != target || q.body != want || ref::value(q.headers, "x-u") != "v" || (otherNow ? b : a).base() != "http://" + ref::value(q.headers, "host"))
		{ ctx.fail("%s: request %d is %s %s with %zu bytes of content [%s] instead of %s %s with %zu", story.c_str(), leg, q.method.c_str(), q.target().c_str(), q.body.size(), hdrText(q.headers).c_str(), method.c_str(), target.c_str(), want.size()); return; }
		const bool last = leg == 1 + chain || !redirect; Resp r;
		if (leg == 0) r.st(st, "X").h("Location", subst(f.location)); else if (!last) r.st(302, "Found").h("location", "again?n=3"); else r.st(200, "OK");
		if (closes) r.h("Connection", "close");
		const bool none = method == "HEAD" || r.status == 304; const string text = "leg " + ref::num(leg); if (!none) r.len(text); else if (method == "HEAD") r.h("Content-Length", ref::num(text.size())); // Without one, the client may close the connection.
		follow = how && !last; p->give(r.bytes());
		if (!until([&]() { return (int)rig.shots.size() == leg + 1; })) { ctx.fail("%s: request %d did not finish", story.c_str(), leg); return; }
		const Shot s = rig.shots[leg];
		if (s.error || s.status != r.status || s.content != (none ? "" : text) || s.redirected != !(last)) { ctx.fail("%s: request %d finished with %s, status %d, content [%s], redirected() %d", story.c_str(), leg, errorName(s.error), s.status, s.content.c_str(), s.redirected); return; }
		if (last) { if (c.responsePending()) ctx.fail("%s: still pending", story.c_str()); break; }
		if (s.location != (leg == 0 ? subst(f.location) : "again?n=3")) { ctx.fail("%s: location %s", story.c_str(), s.location.c_str()); return; }
		if (!how) { spin(1); c.followRedirection(); }
		if (leg == 0) { if (st == 303 && method != "HEAD") { method = "GET"; want = ""; } target = f.target; } else target = target.substr(0, target.rfind('/', target.find('?')) + 1) + "again?n=3";
		const bool other = leg == 0 ? f.other : otherNow; if (closes || other != otherNow) p.reset(), p.reset((other ? b : a).accept()); otherNow = other;
	}
	ctx.state(hash(hash(14, story), 0)); ctx.log("%s", story.c_str());
}

std::vector<Suite> suitesC17(Tier t)
{
	const bool th = t == Thorough; std::vector<Suite> v; const int depth = th ? 3 : 2;
	uint64_t n = 3 * NKinds; for (int i = 1; i < depth; ++i) n *= NKinds * NHows;
	v.push_back(retried(Suite("response-cuts", "11 responses after 0 to 3 interim responses (100, 102, 103), cut after every number of bytes, then continued, closed, reset or aborted; then a second request made inside finished() or later", plainResponses().size() * 4 * 2, cuts, 240)));
	v.push_back(retried(Suite("calls-in-signals", "up to 3 operations {request, request to another server, abort} made at once inside headersCompleted, contentReadyRead, finished after success, abort, closing, malformed response or refusal, or while the response is awaited: one request at a time is accepted, each accepted one finishes once", 8 * 2 * 64, inSignals)));
	v.push_back(retried(Suite("idle-times", "4 exchanges with every combination of pauses of 0, 180 or 480 ms between them, one of them lasting 480 ms or broken, keep-alive of 300 ms: kept or replaced by the time since the end of the last exchange", 27 * 4, idleTimes)));
	v.push_back(retried(Suite("redirections", "9 statuses (redirections and others) x 6 methods, half of them with content x 9 forms of Location (absolute, on another server, relative to the server, directory, parent or page) x followed inside finished() or later x on the same or a new connection x once or twice in a row: the request that is made, where it goes, and its outcome", 9 * 6 * 9 * 8, redirections)));
	const int total = th ? 600 : 90;
	v.push_back(retried(Suite("long-sequences", ref::num(total) + " exchanges of two of " + ref::num(NKinds) + " kinds in turn, every pair of kinds: each is served as the first one was, memory in use does not grow", (uint64_t)NKinds * NKinds, [total](Ctx& c, uint64_t r) { longSequences(c, r, total); }, 120)));
	v.push_back(retried(Suite("sequences", "every sequence of " + ref::num(depth) + " exchanges of " + ref::num(NKinds) + " kinds (successful, failing, aborted at every stage, redirected, ...), the next request made later, inside finished() or inside the slot that aborts, with keep-alive unlimited, disabled or expiring", n, [depth](Ctx& c, uint64_t r) { sequences(c, r, depth); })));
	return v;
}
