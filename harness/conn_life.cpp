// C06 (lifecycle), C07 (request data validity), C09 (reuse of a connection object).
#include "conn.h"
#include "net.h"
#include "reply.h"
using namespace mc;
using ref::Request;
typedef Pillow::HttpConnection Conn;

//
// C06: a plain reference state machine, executed in lock step with the implementation.
//
enum Op { Feed, WrAbc, WrEmpty, WhLen3, WhChunked, WhUnknown, WhLen0, WcAb, WcAbc, WcEmpty, WcC, End, Close, Drain1, DrainAll, DevClose, NOps };
static const char* opNames[] = { "input arrives", "writeResponse(abc)", "writeResponse()", "writeHeaders(length 3)", "writeHeaders(chunked)", "writeHeaders()", "writeHeaders(length 0)", "writeContent(ab)", "writeContent(abc)", "writeContent()", "writeContent(c)", "endContent", "close", "1 byte leaves", "all output leaves", "device closes" };

struct Config { std::vector<int> onReady, onCompleted, onClosed; bool autoDrain; };

static Reply replyFor(int op)
{
	Reply r;
	if (op == WrAbc) return Reply::whole(200, "abc"); if (op == WrEmpty) return Reply::whole(200, "");
	r.how = Reply::Pieces;
	if (op == WhLen3) r.h("Content-Length", "3"); if (op == WhLen0) r.h("Content-Length", "0"); if (op == WhChunked) r.h("Transfer-Encoding", "chunked");
	return r;
}

struct Model
{
	struct Msg { Request q; Reply r; Outcome o; int error; Msg() : error(0) {} }; // error: 400/413 error response, 100: interim.
	int state; std::vector<std::string> segs; size_t nextSeg; std::string fed; size_t served, continued; Request cur;
	long long len, sent; bool chunked, keep, head, undrained, devOpen; int outOps;
	std::vector<Msg> out; std::string events; Config cfg;
	Model() : state(Conn::ReceivingHeaders), nextSeg(0), served(0), continued(0), len(-1), sent(0), chunked(false), keep(true), head(false), undrained(false), devOpen(true), outOps(0) {}

	void output() { ++outOps; if (!cfg.autoDrain) undrained = true; }
	void emitSignal(char k) { events += k; events += (char)('0' + state); const std::vector<int>& a = k == 'R' ? cfg.onReady : k == 'C' ? cfg.onCompleted : cfg.onClosed; for (size_t i = 0; i < a.size(); ++i) apply(a[i]); }
	void interim(const Request& q)
	{
		if (continued > served || q.version != "HTTP/1.1" || !ref::ieq(ref::value(q.headers, "expect"), "100-continue") || declaredLength(q.headers, 0) <= 0) return;
		continued = served + 1; Msg m; m.error = 100; out.push_back(m); output();
	}
	void process()
	{
		if (state != Conn::ReceivingHeaders && state != Conn::ReceivingContent) return;
		const ref::StreamResult s = ref::parseStream(fed);
		if (served < s.requests.size())
		{
			cur = s.requests[served]; interim(cur); ++served;
			state = Conn::SendingHeaders; len = -1; sent = 0; chunked = false; keep = true; head = cur.method == "HEAD";
			emitSignal('R');
		}
		else if (s.error) { Msg m; m.error = s.error; out.push_back(m); output(); flushing(); }
		else if (s.partial)
		{
			Request q; size_t next; const size_t at = s.ends.empty() ? 0 : s.ends.back();
			if (ref::parseHead(fed, at, &q, &next) == ref::HeadOk) { interim(q); state = Conn::ReceivingContent; }
		}
	}
	void headers(int op)
	{
		if (state != Conn::SendingHeaders) return;
		Msg m; m.q = cur; m.r = replyFor(op); const Outcome o = prescribe(cur, m.r, false);
		m.o = o; m.o.body = ""; m.o.complete = false; len = o.length; chunked = o.chunked; keep = o.keepAlive; head = o.head;
		out.push_back(m); output(); state = Conn::SendingContent;
		if (len == 0 || head) { out.back().o.complete = true; completed(); }
	}
	void content(const std::string& s)
	{
		if (state != Conn::SendingContent || len == 0 || (len > 0 && sent + (long long)s.size() > len) || s.empty() || head) return;
		sent += s.size(); out.back().o.body += s; output();
		if (sent == len) { out.back().o.complete = true; completed(); }
	}
	void end()
	{
		if (state != Conn::SendingContent || len >= 0) return;
		if (chunked) output(); else keep = false;
		out.back().o.complete = true; completed();
	}
	void completed()
	{
		state = Conn::Completed; emitSignal('C');
		if (state != Conn::Completed) return;
		if (keep) { state = Conn::ReceivingHeaders; process(); } else flushing();
	}
	void flushing() { state = Conn::Flushing; if (!undrained) closed(); }
	void closed() { if (state == Conn::Closed) return; state = Conn::Closed; devOpen = false; emitSignal('X'); }
	void apply(int op)
	{
		switch (op)
		{
		case Feed: if (nextSeg < segs.size() && devOpen) { fed += segs[nextSeg++]; process(); } break;
		case WrAbc: { const int n = (int)out.size(); headers(op); if ((int)out.size() > n && state == Conn::SendingContent) content("abc"); } break;
		case WrEmpty: case WhLen3: case WhChunked: case WhUnknown: case WhLen0: headers(op); break;
		case WcAb: content("ab"); break; case WcAbc: content("abc"); break; case WcEmpty: break; case WcC: content("c"); break;
		case End: end(); break; case Close: closed(); break; case DevClose: if (devOpen) closed(); break;
		case Drain1: break; // Never the last byte here (every output is longer).
		case DrainAll: if (undrained) { undrained = false; if (state == Conn::Flushing) closed(); } break;
		}
	}
	std::string key() const { return ref::num(state) + "," + ref::num(nextSeg) + "," + events + "," + ref::num(outOps) + (undrained ? "u" : "") + (devOpen ? "o" : ""); }
};

struct Impl
{
	Rig rig; Config cfg; std::vector<std::string> segs; size_t nextSeg; std::string events;
	Impl(const Config& cfg, const std::vector<std::string>& segs) : cfg(cfg), segs(segs), nextSeg(0)
	{
		rig.lookDecoded = false; rig.dev->autoDrain = cfg.autoDrain;
		rig.onReady = [this](Conn* k) { note('R', k); for (size_t i = 0; i < this->cfg.onReady.size(); ++i) apply(this->cfg.onReady[i]); };
		rig.onCompleted = [this](Conn* k) { note('C', k); for (size_t i = 0; i < this->cfg.onCompleted.size(); ++i) apply(this->cfg.onCompleted[i]); };
		rig.onClosed = [this](Conn* k) { note('X', k); for (size_t i = 0; i < this->cfg.onClosed.size(); ++i) apply(this->cfg.onClosed[i]); };
		rig.start();
	}
	void note(char k, Conn* c) { events += k; events += (char)('0' + c->state()); }
	void apply(int op)
	{
		Conn* k = rig.conn;
		switch (op)
		{
		case Feed: if (nextSeg < segs.size() && rig.dev->isOpen()) rig.dev->give(segs[nextSeg++]); break;
		case WrAbc: case WrEmpty: { const Reply r = replyFor(op); k->writeResponse(r.status, qh(r.headers), qb(r.body)); } break;
		case WhLen3: case WhChunked: case WhUnknown: case WhLen0: { const Reply r = replyFor(op); k->writeHeaders(r.status, qh(r.headers)); } break;
		case WcAb: k->writeContent("ab"); break; case WcAbc: k->writeContent("abc"); break; case WcEmpty: k->writeContent(QByteArray()); break; case WcC: k->writeContent("c"); break;
		case End: k->endContent(); break; case Close: k->close(); break; case DevClose: rig.dev->close(); break;
		case Drain1: if (rig.dev->pending > 1) rig.dev->drain(1); break;
		case DrainAll: if (rig.dev->pending > 0) rig.dev->drain(rig.dev->pending); break;
		}
	}
};

static std::string decodeAll(const std::string& out, const Model& m)
{
	size_t pos = 0;
	for (size_t i = 0; i < m.out.size(); ++i)
	{
		size_t next = out.size(); const Model::Msg& e = m.out[i];
		if (e.error)
		{
			ref::Response r; if (!ref::parseResponse(out, pos, false, &r, &next)) return "response " + ref::num(i) + " missing";
			if (!r.problem.empty()) return r.problem;
			if (e.error > 0 ? r.status != e.error : (r.status != 400 && r.status != 413)) return "status " + ref::num(r.status) + " instead of " + ref::num(e.error);
			if (e.error != 100 && !ref::ieq(ref::value(r.headers, "connection"), "close")) return "error response without Connection: close";
			if (e.error != 100) next = out.size();
		}
		else { const std::string p = checkMessage(out, pos, e.q, e.r, e.o, &next); if (!p.empty()) return "response " + ref::num(i) + ": " + p; }
		pos = next;
	}
	return pos == out.size() ? "" : "bytes nobody asked for: " + show(out.substr(pos), 200);
}

static std::vector<std::string> script(int i)
{
	static const char* s[8][6] = {
		{ "GET /a HTTP/1.1\r\n\r\n", "GET /b HTTP/1.1\r\n\r\n", "HEAD /c HTTP/1.1\r\n\r\n", 0 },
		{ "POST /a HTTP/1.1\r\nContent-Le", "ngth: 3\r\n\r\na", "bcHEAD /b HTTP/1.1\r\n\r\n", "GET /c HTTP/1.0\r\n\r\n", 0 },
		{ "GET /a HTTP/1.1\r\n\r\nHEAD /b HTTP/1.1\r\n\r\nGET /c HTTP/1.1\r\n\r\n", "BAD\r\n", 0 },
		{ "POST /a HTTP/1.1\r\nExpect: 100-continue\r\nContent-Length: 2\r\n\r\n", "xy", "GET /b HTTP/1.1\r\nConnection: close\r\n\r\nGET /c HTTP/1.1\r\n\r\n", 0 },
		{ "GET /a HTTP/1.0\r\n\r\nGET /b HTTP/1.0\r\n\r\n", "GET /c HTTP/1.0\r\n\r\n", 0 },
		{ "HEAD /a HTTP/1.1\r\n\r\n", "POST /b HTTP/1.1\r\nContent-Length: -1\r\n\r\n", "GET /c HTTP/1.1\r\n\r\n", 0 },
		{ "HEAD /a HTTP/1.1\r\n\r\nHEAD /b HTTP/1.0\r\nConnection: keep-alive\r\n\r\nPOST /c HTTP/1.1\r\nContent-Length: 999999999999\r\n\r\n", "x", 0 },
		{ "GET /a HTTP/1.0\r\nConnection: keep-alive\r\n\r\n", "GET /b HT", "TP/1.1\r\n\r\n\r\n", 0 } };
	std::vector<std::string> v; for (int k = 0; s[i][k]; ++k) v.push_back(s[i][k]); return v;
}
enum { NScripts = 8 };

static void lockstep(Ctx& c, const Config& cfg, const std::vector<std::string>& segs, int depth, int noops, uint64_t salt)
{
	Model m; m.cfg = cfg; m.segs = segs; Impl impl(cfg, segs);
	for (int d = 0; d < depth + noops; ++d)
	{
		std::vector<int> ops; const std::string before = m.key();
		for (int op = 0; op < NOps; ++op)
		{
			if ((op == Drain1 || op == DrainAll) && (cfg.autoDrain || !m.undrained)) continue;
			if (op == Feed && (m.nextSeg >= segs.size() || !m.devOpen)) continue;
			bool effective = true;
			if (op != Feed && op != Drain1) { Model t = m; t.apply(op); effective = t.key() != before; }
			if (effective ? depth > 0 : noops > 0) ops.push_back(effective ? op : op + 100);
		}
		if (ops.empty()) break;
		const int pick = c.choose((int)ops.size() + 1); if (pick == (int)ops.size()) break;
		const int op = ops[pick] % 100; if (ops[pick] >= 100) --noops; else --depth;
		const size_t outBefore = impl.rig.dev->out.size(); const int outOps = m.outOps;
		c.log("%s", opNames[op]);
		m.apply(op); impl.apply(op);
		c.state(hash(hash(salt, m.key()), (uint64_t)m.len));
		if (impl.rig.conn->state() != m.state) { c.fail("after %s: state %s instead of %s", opNames[op], stateName(impl.rig.conn->state()), stateName(m.state)); return; }
		if (impl.events != m.events) { c.fail("after %s: signals (with states) %s instead of %s", opNames[op], impl.events.c_str(), m.events.c_str()); return; }
		if ((impl.rig.dev->out.size() != outBefore) != (m.outOps != outOps)) { c.fail("after %s: output %s", opNames[op], impl.rig.dev->out.size() != outBefore ? show(impl.rig.dev->out.substr(outBefore), 200).c_str() : "missing"); return; }
		if (m.devOpen ? !impl.rig.bothOpen() : !impl.rig.bothClosed()) { c.fail("after %s: device %s", opNames[op], m.devOpen ? "closed" : "not closed"); return; }
		if (m.served && impl.rig.seen.size() == m.served && impl.rig.seen.back().uri != m.cur.target()) { c.fail("after %s: request %s delivered instead of %s", opNames[op], impl.rig.seen.back().uri.c_str(), m.cur.target().c_str()); return; }
		if (m.state == Conn::Closed && (impl.rig.conn->inputDevice() || impl.rig.conn->outputDevice())) { c.fail("a closed connection keeps its device"); return; }
	}
	const std::string p = decodeAll(impl.rig.dev->out, m);
	if (!p.empty()) c.fail("%s; output %s", p.c_str(), show(impl.rig.dev->out, 800).c_str());
}

static std::vector<int> ops(int a = -1, int b = -1, int c = -1, int d = -1) { std::vector<int> v; const int x[] = { a, b, c, d }; for (int i = 0; i < 4; ++i) if (x[i] >= 0) v.push_back(x[i]); return v; }

std::vector<Suite> suitesC06(Tier tier)
{
	std::vector<Suite> v; const int d1 = tier == Thorough ? 11 : 9, d2 = tier == Thorough ? 6 : 5;
	v.push_back(Suite("any-call-order", "8 input scripts (successive, pipelined, split, malformed, oversized, expecting 100, HTTP/1.0) x output draining {at once, explicitly}: every sequence of up to " + ref::num(d1) + " events or calls that the reference machine reacts to, with one call that makes no sense inserted anywhere, out of 16 (input, every response method, endContent, close, output draining, device close)", NScripts * 2, [d1](Ctx& c, uint64_t i) {
			Config cfg; cfg.autoDrain = take(i, 2); lockstep(c, cfg, script(take(i, NScripts)), d1, 1, hash(30, i));
		}));
	v.push_back(Suite("two-devices", "as above, to depth " + ref::num(d2 + 1) + ", with one device for the input and another one for the output; both are closed with the connection", NScripts * 2, [d2](Ctx& c, uint64_t i) {
			TwoDevices two; Config cfg; cfg.autoDrain = take(i, 2); lockstep(c, cfg, script(take(i, NScripts)), d2 + 1, 1, hash(32, i));
		}));
	v.push_back(Suite("calls-inside-signals", "as above, to depth " + ref::num(d2) + ", with calls made inside the signal handlers: requestReady {none, answer, start length-3 answer, chunked answer, start chunked, close, device closes, input arrives, answer and then call everything again} x requestCompleted {none, close, every response method, device closes, input arrives} x closed {none, every method}", NScripts * 2 * 9 * 5 * 2, [d2](Ctx& c, uint64_t i) {
			Config cfg; cfg.autoDrain = take(i, 2); const int s = take(i, NScripts), r = take(i, 9), k = take(i, 5), x = take(i, 2);
			switch (r) { case 1: cfg.onReady = ops(WrAbc); break; case 2: cfg.onReady = ops(WhLen3, WcAb); break; case 3: cfg.onReady = ops(WhChunked, WcAb, End); break; case 4: cfg.onReady = ops(WhChunked); break; case 5: cfg.onReady = ops(Close); break; case 6: cfg.onReady = ops(DevClose); break; case 7: cfg.onReady = ops(Feed); break; case 8: cfg.onReady = ops(WrEmpty, WrAbc, WcAb, End); break; }
			switch (k) { case 1: cfg.onCompleted = ops(Close); break; case 2: cfg.onCompleted = ops(WrAbc, WhLen3, WcAb, End); break; case 3: cfg.onCompleted = ops(DevClose); break; case 4: cfg.onCompleted = ops(Feed); break; }
			if (x) cfg.onClosed = ops(WrAbc, WcAb, End, Close);
			lockstep(c, cfg, script(s), d2, 1, hash(31, i));
		}));
	return v;
}

//
// C07
//
static Request dataRequest(int kind)
{
	Request q; q.path = "/data";
	switch (kind)
	{
	case 1: q.hasQuery = true; q.query = "a=1&b=%41%42&c"; q.hasFragment = true; q.fragment = "frag%20ment"; q.path = "/p%20q"; q.h("X-One", "1").h("X-Two", "two two"); break;
	case 2: q.method = "POST"; q.h("Host", "h"); q.content(ref::pattern(100, 1)); break;
	case 3: q.method = "PUT"; q.path = "/" + ref::text(900, 2); for (int i = 0; i < 40; ++i) q.h("H" + ref::num(i), ref::text(20, i)); q.content(ref::pattern(70000, 2)); break;
	case 4: q.method = "HEAD"; q.hasQuery = true; q.query = ""; for (int i = 0; i < 20; ++i) q.query += (i ? "&k" : "k") + ref::num(i) + "=" + ref::num(i); break;
	case 5: q.version = "HTTP/1.0"; q.h("Connection", "keep-alive"); q.h("Big", ref::text(30000, 3)); break;
	}
	return q;
}

std::vector<Suite> suitesC07(Tier tier)
{
	std::vector<Suite> v; const int depth = tier == Thorough ? 7 : 5;
	v.push_back(Suite("accessors-while-serving", "6 kinds of requests (query, content, 70 KB content, 40 headers, 30 KB header), each as the first or a later request of a connection, accessors first read at once or only later: every interleaving of up to " + ref::num(depth) + " events {small or large input arrives, response call, output drains, close, device closes}, every accessor compared after each", 6ull * 4 * 4 * 2, [depth](Ctx& c, uint64_t i) {
			const Request q = dataRequest(take(i, 6)); const int rk = take(i, 4), before = take(i, 4), eager = take(i, 2);
			Reply r; if (rk == 0) r = Reply::whole(200, ref::text(2000)); else { r.how = Reply::Pieces; r.pieces.push_back("abc"); r.pieces.push_back(ref::text(9000)); if (rk == 1) r.h("Content-Length", "9003"); if (rk == 2) r.h("Transfer-Encoding", "chunked").h("X-Pad", ref::text(5000)); }
			const Outcome o = prescribe(q, r); std::vector<std::function<void(Conn*)> > ops = calls(r, o);
			Rig rig; rig.lookDecoded = eager; rig.dev->autoDrain = false; bool serving = false; Seen want; bool target = false; int looks = 0;
			auto verify = [&](const char* when) { if (!serving || c.failed()) return; ++looks; const Seen s = look(rig.conn); if (!(s == expected(q, s))) c.fail("%s: request data now %s\ninstead of %s", when, show(s.text(), 700).c_str(), show(expected(q, s).text(), 700).c_str()); };
			rig.onReady = [&](Conn* k) { if (!target) { k->writeResponse(200, Pillow::HttpHeaderCollection(), "prev"); return; } if (rig.seen.size() > 1 && serving) return; if (rig.seen.back().uri != q.target()) return; serving = true; if (eager) verify("at requestReady"); };
			rig.onCompleted = [&](Conn*) { verify("in requestCompleted"); serving = false; };
			rig.onClosed = [&](Conn*) { verify("in closed"); serving = false; };
			rig.start();
			if (before == 1) { Request p; p.method = "POST"; p.content(ref::text(50000)); rig.dev->give(p.bytes()); }
			if (before == 2) { Request p; for (int k = 0; k < 35; ++k) p.h("P" + ref::num(k), "v"); rig.dev->give(p.bytes()); }
			target = true;
			if (before == 3) { const std::string s = q.bytes(); for (size_t p = 0; p < s.size(); p += 997) rig.dev->give(s.substr(p, 997)); } else rig.dev->give(q.bytes());
			if (!serving) { c.fail("not delivered"); return; }
			size_t op = 0; int fed = 0;
			for (int d = 0; d < depth && serving && !c.failed(); ++d)
			{
				const int what = c.choose(7); const char* name = "";
				switch (what)
				{
				case 0: name = "response call"; if (op < ops.size()) ops[op++](rig.conn); break;
				case 1: name = "small input"; rig.dev->give("GET /next HTTP/1.1\r\n\r\n"); ++fed; break;
				case 2: name = "large input"; rig.dev->give("POST /nn HTTP/1.1\r\nContent-Length: 60000\r\n\r\n" + ref::text(60000)); ++fed; break;
				case 3: name = "output drains"; if (rig.dev->pending) rig.dev->drain(rig.dev->pending / 2 + 1); break;
				case 4: name = "close"; rig.conn->close(); break;
				case 5: name = "device closes"; rig.dev->close(); break;
				case 6: return;
				}
				c.log("%s", name); verify(name); c.state(hash(hash(rig.stateHash(40), q.bytes()), (uint64_t)(((before * 2 + eager) * 4 + rk) * 64 + d * 8 + what)));
			}
		}));
	v.push_back(Suite("arrival-grid", "6 head sizes (60 .. 32000 bytes, 0 .. 40 headers) x 10 content sizes (0 .. 70000) x 9 arrivals (whole, head alone, head and half the content, half a head, content in 1-byte or 500-byte or 8192-byte pieces ...) x the request before it {none, small, large, with more headers}; then 3 further events {input small or large, response piece, end}; every accessor compared after each", 6ull * 10 * 9 * 4, [](Ctx& c, uint64_t i) {
			static const size_t heads[] = { 60, 400, 1000, 1100, 9000, 32000 }, bodies[] = { 0, 1, 100, 300, 500, 513, 1000, 5000, 33000, 70000 };
			const int hk = take(i, 6); const size_t h = heads[hk], b = bodies[take(i, 10)]; const int arrival = take(i, 9), before = take(i, 4);
			Request q; q.method = "POST"; q.path = "/g%41"; q.hasQuery = true; q.query = "k=%42&l"; q.h("First", "1"); if (b) q.content(ref::pattern(b, hk)); if (hk & 1) for (int k = 0; k < 40 && q.head().size() + 40 < h; ++k) q.h("H" + ref::num(k), "v" + ref::num(k)); q.h("Last", ""); if (q.head().size() < h) q.headers.back().second = ref::text(h - q.head().size(), 4);
			Rig rig; bool serving = false, target = false; rig.lookDecoded = (arrival + before) & 1; rig.dev->autoDrain = false;
			auto verify = [&](const char* when) { if (!serving || c.failed()) return; const Seen s = look(rig.conn); if (!(s == expected(q, s))) c.fail("%s: request data %s\ninstead of %s", when, show(s.text(), 700).c_str(), show(expected(q, s).text(), 700).c_str()); };
			rig.onReady = [&](Conn* k) { if (!target) { k->writeResponse(200, Pillow::HttpHeaderCollection(), "prev"); return; } if (rig.seen.back().uri == q.target()) { serving = true; verify("at requestReady"); } };
			rig.onCompleted = [&](Conn*) { verify("in requestCompleted"); serving = false; }; rig.onClosed = [&](Conn*) { verify("in closed"); serving = false; };
			rig.start();
			if (before) { Request p; if (before == 1) p.h("P", "v"); if (before == 2) { p.method = "PUT"; p.content(ref::text(90000)); } if (before == 3) for (int k = 0; k < 45; ++k) p.h("P" + ref::num(k), "v"); rig.dev->give(p.bytes()); }
			target = true; const std::string s = q.bytes(); const size_t he = s.size() - b; size_t pos = 0; std::vector<std::string> noise;
			auto piece = [&](size_t n) { n = std::min(n, s.size() - pos); rig.dev->give(s.substr(pos, n)); pos += n; noise.push_back(std::string(n + 10, 'N')); noise.push_back(std::string(pos, 'M')); if (noise.size() > 6) noise.erase(noise.begin(), noise.begin() + 3); };
			switch (arrival)
			{
			case 1: piece(he); break; case 2: piece(he); piece(b / 2); break; case 3: piece(he / 2); break; case 4: piece(he); for (int k = 0; k < 300; ++k) piece(1); break; case 5: piece(he + 1); while (pos < s.size()) piece(500); break;
			case 6: piece(he - 1); piece(1); while (pos < s.size()) piece(8192); break; case 7: while (pos < he) piece(97); break; case 8: piece(he - 1); break;
			}
			if (pos < s.size()) piece(s.size());
			if (!serving) { c.fail("not delivered"); return; }
			Pillow::HttpHeaderCollection ch; ch << Pillow::HttpHeader("Transfer-Encoding", "chunked"); bool headers = false;
			for (int d = 0; d < 3 && serving && !c.failed(); ++d)
			{
				const int what = c.choose(4);
				if (what == 0) rig.dev->give("GET /next?x HTTP/1.1\r\nA: b\r\n\r\n"); else if (what == 1) rig.dev->give("PUT /nn HTTP/1.1\r\nContent-Length: 40000\r\n\r\n" + ref::text(40000));
				else if (what == 2) { if (!headers) rig.conn->writeHeaders(200, ch); else rig.conn->writeContent(rig.conn->requestContent().size() ? rig.conn->requestContent() : QByteArray("x")); headers = true; }
				else if (headers) rig.conn->endContent(); else rig.conn->writeResponse(200, Pillow::HttpHeaderCollection(), rig.conn->requestContent());
				verify("after an event"); c.state(hash(hash(rig.stateHash(42), h * 131 + b), (uint64_t)(((arrival * 4 + before) * 4 + d) * 4 + what)));
			}
		}));
	v.push_back(Suite("late-decoding", "6 kinds of requests: each decoded accessor and the parameters read for the first time at every point of a chunked response, in every order of two accessors", 6ull * 5 * 5 * 4, [](Ctx& c, uint64_t i) {
			const Request q = dataRequest(take(i, 6)); const int a = take(i, 5), b = take(i, 5), at = take(i, 4);
			Rig rig; rig.lookDecoded = false; rig.start(); rig.dev->give(q.bytes() + "GET /other?zz=1#f HTTP/1.1\r\nX: y\r\n\r\n");
			const Seen e = expected(q, look(rig.conn, false)); Conn* k = rig.conn;
			auto get = [&](int w) { std::string got, want; switch (w) { case 0: got = su(k->requestUriDecoded()); want = e.uriD; break; case 1: got = su(k->requestPathDecoded()); want = e.pathD; break; case 2: got = su(k->requestQueryStringDecoded()); want = e.queryD; break; case 3: got = su(k->requestFragmentDecoded()); want = e.fragmentD; break;
				case 4: for (int j = 0; j < k->requestParams().size(); ++j) got += su(k->requestParams().at(j).first) + "=" + su(k->requestParams().at(j).second) + "&"; for (size_t j = 0; j < e.params.size(); ++j) want += e.params[j].first + "=" + e.params[j].second + "&"; break; }
				c.step(); if (got != want) c.fail("accessor %d gives [%s] instead of [%s]", w, show(got).c_str(), show(want).c_str()); };
			Pillow::HttpHeaderCollection h; h << Pillow::HttpHeader("Transfer-Encoding", "chunked");
			if (at >= 1) k->writeHeaders(200, h); if (q.method == "HEAD" && at >= 1) return;
			if (at >= 2) k->writeContent("abc"); if (at >= 3) rig.dev->give("GET /third HTTP/1.1\r\n\r\n");
			get(a); get(b); get(a);
			c.state(hash(41, i));
		}));
	return v;
}

//
// C09
//
struct Session { std::vector<std::string> segs; std::vector<Reply> replies; int end; bool waitingData; bool async; size_t maxOps; bool touchParams; Session() : end(0), waitingData(false), async(false), maxOps(1000), touchParams(false) {} };
// end: 0 nothing, 1 close(), 2 the device closes, 3 close() inside requestReady, 4 inside requestCompleted

struct Trace
{
	std::vector<Seen> seen; std::string out, events; int finalState; bool devOpen;
	bool operator==(const Trace& o) const { return seen == o.seen && out == o.out && events == o.events && finalState == o.finalState && devOpen == o.devOpen; }
	std::string text() const { std::string s = "signals " + events + " state " + stateName(finalState) + " output " + mc::show(out, 300); for (size_t i = 0; i < seen.size() && i < 3; ++i) s += "\n  " + mc::show(seen[i].text(), 500); return s; }
};

static Trace runSession(Conn* reuse, const Session& s, bool finish)
{
	Trace t; Rig rig(reuse); std::vector<std::function<void(Conn*)> > todo; size_t done = 0;
	rig.onReady = [&](Conn* k) {
		t.events += "R" + ref::num(k->responseStatusCode()) + "/" + ref::num(k->responseContentLength());
		if (s.touchParams) { k->requestParamValue("nothing"); k->setRequestParam("added", "value"); }
		if (s.end == 3) { k->close(); return; }
		const size_t n = rig.seen.size() - 1; if (n >= s.replies.size()) return;
		// A request as the connection reports it is enough to know whether it is a HEAD.
		Request q; q.method = rig.seen[n].method; q.version = rig.seen[n].version; q.headers = rig.seen[n].headers;
		std::vector<std::function<void(Conn*)> > ops = calls(s.replies[n], prescribe(q, s.replies[n]));
		if (s.async) todo.insert(todo.end(), ops.begin(), ops.end());
		else for (size_t j = 0; j < ops.size() && done < s.maxOps; ++j) { ++done; ops[j](k); }
	};
	rig.onCompleted = [&](Conn* k) { t.events += "C"; if (s.end == 4) k->close(); };
	rig.onClosed = [&](Conn*) { t.events += "X"; };
	size_t first = 0;
	if (s.waitingData && !s.segs.empty()) { rig.dev->feed(s.segs[0]); first = 1; }
	rig.start();
	if (s.waitingData && s.maxOps) pump();
	for (size_t i = first; i <= s.segs.size(); ++i)
	{
		for (size_t guard = 0; !todo.empty() && done < s.maxOps && guard < 1000; ++guard) { const std::function<void(Conn*)> f = todo.front(); todo.erase(todo.begin()); ++done; f(rig.conn); }
		if (i < s.segs.size()) rig.dev->give(s.segs[i]);
	}
	if (s.end == 1 || (finish && s.end == 0)) rig.conn->close();
	if (s.end == 2) rig.dev->close();
	t.seen = rig.seen; t.out = rig.dev->out; t.finalState = rig.conn->state(); t.devOpen = rig.dev->isOpen();
	if (rig.conn->state() != Conn::Closed) rig.conn->close();
	return t;
}

static std::string big(size_t n) { return ref::text(n, 9); }

static std::vector<Session> sessions(bool second)
{
	std::vector<Session> v; Session s; Reply len = Reply::whole(200, "hello"), empty = Reply::whole(200, ""); Reply chunked = Reply::inPieces(std::vector<std::string>(3, "piece")); chunked.h("Transfer-Encoding", "chunked"); Reply unknown = Reply::inPieces(std::vector<std::string>(2, "data")); Reply longer = Reply::inPieces(std::vector<std::string>(1, "part")); longer.h("Content-Length", "10"); Reply bigHead = Reply::whole(200, "x"); bigHead.h("X-Pad", big(6000)); Reply midHead = Reply::whole(200, "x"); midHead.h("X-Pad", big(3000));
	auto add = [&](std::initializer_list<std::string> segs, std::initializer_list<Reply> rs, int end = 1, bool async = false, size_t maxOps = 1000, bool waiting = false, bool params = false) { Session x; x.segs = segs; x.replies = rs; x.end = end; x.async = async; x.maxOps = maxOps; x.waitingData = waiting; x.touchParams = params; v.push_back(x); };
	const std::string get = "GET /a?x=1&y=2#f HTTP/1.1\r\nHost: h\r\nX-A: 1\r\n\r\n", get10 = "GET /ten HTTP/1.0\r\n\r\n", head = "HEAD /h HTTP/1.1\r\n\r\n", post = "POST /p HTTP/1.1\r\nContent-Length: 5\r\n\r\n12345", ka10 = "GET /k HTTP/1.0\r\nConnection: keep-alive\r\n\r\n";
	std::string manyHeaders = "GET /m HTTP/1.1\r\n"; for (int i = 0; i < 40; ++i) manyHeaders += "H" + ref::num(i) + ": v\r\n"; manyHeaders += "\r\n";
	std::string manyParams = "GET /q?"; for (int i = 0; i < 20; ++i) manyParams += "p" + ref::num(i) + "=1&"; manyParams += " HTTP/1.1\r\n\r\n";
	// Complete exchanges, then closed in various ways.
	add({ get }, { len }); add({ get, get }, { len, chunked }, 2); add({ get10 }, { len }, 0); add({ get }, { unknown }, 0); add({ head }, { len }); add({ post }, { empty }, 0); add({ ka10 + ka10 }, { len, len }); add({ manyHeaders }, { len }); add({ manyParams }, { len }, 1, false, 1000, false, true);
	add({ "POST /big HTTP/1.1\r\nContent-Length: 70000\r\n\r\n" + big(70000) }, { len }, 1); add({ get }, { bigHead }); add({ get }, { midHead, len });
	add({ "garbage\r\n\r\n" }, {}, 0); add({ "GET /x HTTP/1.1\r\nContent-Length: 5x\r\n\r\n" }, {}, 0);
	add({ get }, { len }, 1, false, 1000, true); add({ get + head }, { chunked, len }, 1, true); add({ "GET / HTTP/1.1\r\nPad: " + big(20000) + "\r\n\r\n" }, { len });
	// Interrupted ones.
	add({}, {}); add({ "GET /par" }, {}); add({ "GET /par HTTP/1.1\r\nHost: exam" }, {}, 2); add({ "POST /p HTTP/1.1\r\nContent-Length: 10\r\n\r\n123" }, {}); add({ get }, {}); add({ get }, {}, 2); add({ get }, {}, 3); add({ get + get }, { len, len }, 4); add({ get }, { longer }); add({ get }, { chunked }, 1, true, 2); add({ get }, { unknown }, 2, true, 1);
	add({ get + head + post + get10 }, { chunked, len }, 1, true, 3); add({ manyHeaders }, {}); add({ manyParams }, {}, 1, false, 1000, false, true); add({ "POST /big HTTP/1.1\r\nContent-Length: 70000\r\n\r\n" + big(50000) }, {}); add({ "GET / HTTP/1.1\r\nPad: " + big(30000) }, {}); add({ "GET / HTTP/1.1\r\nPad: " + big(50000) }, {}, 0); add({ get }, { len }, 1, false, 0, true); add({ get }, { bigHead }, 1, true, 0); add({ "POST /e HTTP/1.1\r\nExpect: 100-continue\r\nContent-Length: 4\r\n\r\n" }, {});
	// Refused for how their content is framed, and those that look alike but are not.
	add({ "POST /t HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n" }, { len }, 0); add({ "POST /d HTTP/1.1\r\nContent-Length: 2\r\nContent-Length: 3\r\n\r\nabc" }, { len }, 0); add({ "POST /d HTTP/1.1\r\nContent-Length: 2\r\nA: b\r\nContent-Length: 2\r\n\r\nab" + get }, { len, empty }, 0);
	add({ "POST /t HTTP/1.1\r\nTransfer-Encoding: chunked\r\nPad: " + big(300) }, {}); add({ "POST /d HTTP/1.1\r\nContent-Length: 2\r\nContent-Length: 3\r\n" }, {}, 2);
	add({ "GET /a? HTTP/1.1\r\n\r\n", "GET /a# HTTP/1.0\r\nA:\r\nA: c\r\n\r\n" }, { len, chunked }, 0); add({ "PUT /%41%zz?%3d=%26&b HTTP/1.1\r\nContent-Length: 0\r\n\r\n" + get10 }, { len, unknown }, 0, true);
	add({ "POST /big HTTP/1.1\r\nContent-Length: 70000\r\n\r\n" + big(70000) + get }, { len }, 1, true, 1); add({ head }, { longer }, 4); add({ post + post }, {}, 3);
	(void)second;
	return v;
}

// What the device of an earlier use does later must not reach the connection any more.
struct OldDevice
{
	enum Kind { Memory, Two, Tcp, Local, NKinds }; enum Stage { Idle, HalfHead, Pending, Unsent, Flushing, NStages }; enum { NEvents = 6 };
	int kind; QPointer<MemDevice> mem; QPointer<OutSide> out; QPointer<QIODevice> sock; Peer* peer; Listener* listener;
	OldDevice(int kind) : kind(kind), peer(0), listener(0)
	{
		if (kind <= Two) { mem = new MemDevice; mem->autoDrain = false; if (kind == Two) out = new OutSide(mem); }
		else if (kind == Tcp)
		{
			listener = new Listener; peer = connectTo(listener->ip, listener->port); int size = 4096; setsockopt(peer->fd, SOL_SOCKET, SO_RCVBUF, &size, sizeof size); struct pollfd p = { listener->fd, POLLIN, 0 }; poll(&p, 1, 2000);
			const int fd = ::accept4(listener->fd, 0, 0, SOCK_CLOEXEC); setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &size, sizeof size); QTcpSocket* s = new QTcpSocket; s->setSocketDescriptor(fd); sock = s;
		}
		else { int fds[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, fds) != 0) _exit(77); QLocalSocket* s = new QLocalSocket; s->setSocketDescriptor(fds[0]); sock = s; peer = new Peer(fds[1]); }
	}
	~OldDevice() { delete out; delete mem; delete sock; delete peer; delete listener; }
	QIODevice* input() { return sock ? sock.data() : mem.data(); }
	void give(const std::string& s) { if (mem) mem->give(s); else peer->give(s, 2); }
	bool unsent() { return mem ? mem->pending > 0 : sock && sock->bytesToWrite() > 0; }
	void event(int e) // Those of a socket are what its peer and its owner can do to it, those of other devices what their owner can.
	{
		if (mem && e == 5 && out) { out->open(QIODevice::WriteOnly | QIODevice::Unbuffered); out->close(); }
		else if (mem) { if (!mem->isOpen() && e < 4) mem->open(QIODevice::ReadWrite | QIODevice::Unbuffered); switch (e) { case 0: mem->give("GET /old HTTP/1.1\r\n\r\n"); break; case 1: mem->drain(mem->pending); break; case 2: mem->close(); break; case 3: emit mem->readChannelFinished(); break; case 4: delete out; delete mem; break; } }
		else if (sock) switch (e)
		{
		case 0: peer->give("GET /old HTTP/1.1\r\n\r\n", 0.05); break;
		case 1: for (int k = 0; k < 200 && sock && sock->bytesToWrite() > 0; ++k) { peer->read(); spin(1); } peer->read(); break;
		case 2: peer->rst(); break; case 3: peer->fin(); break; case 4: delete sock; break;
		case 5: if (QAbstractSocket* a = qobject_cast<QAbstractSocket*>(sock)) a->abort(); else static_cast<QLocalSocket*>(sock.data())->abort(); break;
		}
		spin(2);
	}
};

// Serves one client up to the point given; then an event at its old device; then the rest.
static std::string serveWith(Conn* conn, int point, const std::function<void()>& event)
{
	Rig rig(conn); rig.dev->autoDrain = false; std::string t; int p = 0;
	auto mark = [&]() { if (p++ == point) event(); t += stateName(rig.conn->state()); t += (rig.dev->isOpen() ? "+" : "-") + ref::num(rig.dev->closeCount) + " "; };
	Pillow::HttpHeaderCollection h; h << Pillow::HttpHeader("Transfer-Encoding", "chunked");
	rig.start(); mark(); rig.dev->give("GET /b?x=1 HTT"); mark(); rig.dev->give("P/1.1\r\nA: b\r\n\r\n"); mark(); rig.conn->writeHeaders(200, h); rig.conn->writeContent("abc"); mark(); rig.conn->endContent(); mark();
	rig.dev->give("POST /c HTTP/1.1\r\nConnection: close\r\nContent-Length: 4\r\n\r\n12"); mark(); rig.dev->give("34"); rig.conn->writeResponse(200, Pillow::HttpHeaderCollection(), "last"); mark(); rig.dev->drain(rig.dev->pending); mark();
	for (size_t k = 0; k < rig.seen.size(); ++k) t += "\n  " + rig.seen[k].text();
	t += "\n  signals " + rig.order() + " output " + show(rig.dev->out, 600);
	if (!rig.closed()) rig.conn->close();
	return t;
}
enum { NPoints = 8 };

std::vector<Suite> suitesC09(Tier tier)
{
	std::vector<Suite> v; const size_t n = sessions(false).size();
	v.push_back(Suite("reuse-pairs", "every ordered pair of " + ref::num(n) + " sessions (complete, interrupted at every stage, erroneous, large, parameters touched, data waiting at initialisation; ended by close(), by the device, inside a signal): the second on the reused object against a fresh object", n * n, [](Ctx& c, uint64_t i) {
			const uint64_t id = i; const std::vector<Session> all = sessions(false); const size_t n = all.size(); const Session& a = all[take(i, n)]; const Session& b = all[take(i, n)];
			Conn* conn = new Conn; runSession(conn, a, true); c.state(hash(50, id)); if (c.choose(2)) pump();
			const Trace got = runSession(conn, b, false); c.step(); const Trace want = runSession(0, b, false); c.step();
			if (!(got == want)) c.fail("reused connection: %s\nfresh connection: %s", got.text().c_str(), want.text().c_str());
			delete conn; pump();
		}));
	v.push_back(Suite("two-devices", "every ordered pair of the sessions, one of them or both with one device for the input and another one for the output", n * n * 3, [](Ctx& c, uint64_t i) {
			const uint64_t id = i; const std::vector<Session> all = sessions(false); const size_t n = all.size(); const Session& a = all[take(i, n)]; const Session& b = all[take(i, n)]; const int how = take(i, 3) + 1;
			Conn* conn = new Conn; { TwoDevices two(how & 1); runSession(conn, a, true); } c.state(hash(52, id));
			Trace got; { TwoDevices two(how & 2); got = runSession(conn, b, false); } c.step(); const Trace want = runSession(0, b, false); c.step();
			if (!(got == want)) c.fail("reused connection: %s\nfresh connection: %s", got.text().c_str(), want.text().c_str());
			delete conn; pump();
		}));
	v.push_back(retried(Suite("old-device", "an earlier use of the object on a device {in memory, separate input and output, TCP socket, local socket} that stopped {idle, in a head, with a request pending, in a response with output unsent, flushing} by {close(), the device or its peer}; at each of 8 points of the next use {input, output drained, closed or reset, end of input, deleted, aborted} at the old device", OldDevice::NKinds * OldDevice::NStages * 2 * NPoints * OldDevice::NEvents, [](Ctx& c, uint64_t i) {
			const uint64_t id = i; const int kind = take(i, OldDevice::NKinds), stage = take(i, OldDevice::NStages), byPeer = take(i, 2), point = take(i, NPoints), event = take(i, OldDevice::NEvents);
			OldDevice old(kind); Conn* conn = new Conn; conn->initialize(old.input(), old.out ? (QIODevice*)old.out : old.input()); spin(1);
			if (stage == OldDevice::HalfHead) old.give("GET /a HTTP/1.1\r\nHos"); else if (stage >= OldDevice::Pending) old.give(stage == OldDevice::Flushing ? "GET /a HTTP/1.0\r\n\r\n" : "GET /a HTTP/1.1\r\n\r\n");
			const int want = stage >= OldDevice::Pending ? Conn::SendingHeaders : Conn::ReceivingHeaders; if (!until([&]() { return conn->state() == want; }, 2)) { c.fail("state %s in the first use", stateName(conn->state())); delete conn; return; }
			if (stage >= OldDevice::Unsent) { conn->writeResponse(200, Pillow::HttpHeaderCollection(), QByteArray(kind <= OldDevice::Two ? 100 : 8 << 20, 'x')); if (!old.unsent()) { c.fail("everything sent at once"); delete conn; return; } }
			if (!byPeer) conn->close(); else { if (old.mem) old.mem->close(); else old.peer->rst(); if (!until([&]() { return conn->state() == Conn::Closed; }, 2)) { c.fail("state %s after the device closed", stateName(conn->state())); delete conn; return; } }
			c.step(); const std::string got = serveWith(conn, point, [&]() { old.event(event); }), fresh = serveWith(0, -1, []() {}); c.state(hash(54, id));
			if (got != fresh) c.fail("device kind %d, stopped at stage %d%s, event %d at point %d: %s\ninstead of %s", kind, stage, byPeer ? " by the peer" : "", event, point, got.c_str(), fresh.c_str());
			delete conn; pump();
		})));
	const size_t m = tier == Thorough ? n : 12;
	v.push_back(Suite("reuse-chains", "every chain of three of " + ref::num(m) + " sessions on one object, each compared with a fresh object", m * m * m, [m, n](Ctx& c, uint64_t i) {
			const std::vector<Session> all = sessions(false); Conn* conn = new Conn;
			for (int k = 0; k < 3 && !c.failed(); ++k)
			{
				size_t x = take(i, m); if (m < n) x = x * 37 % n; // Spread over the list.
				const Trace got = runSession(conn, all[x], false), want = runSession(0, all[x], false); c.state(hash(hash(51, k), x));
				if (!(got == want)) c.fail("use %d of the object: %s\nfresh connection: %s", k, got.text().c_str(), want.text().c_str());
			}
			delete conn; pump();
		}));
	return v;
}
