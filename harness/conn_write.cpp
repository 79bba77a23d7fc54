// C03 (response framing), C04 (keep-alive), C05 (pipelining).
#include "conn.h"
#include "reply.h"
using namespace mc;
using ref::Request;
typedef Pillow::HttpConnection Conn;

static ref::Header H(const char* a, const std::string& b) { return ref::Header(a, b); }

static std::vector<std::string> split(const std::string& s, const std::vector<size_t>& sizes)
{
	std::vector<std::string> v; size_t p = 0;
	for (size_t i = 0; i < sizes.size(); ++i) { v.push_back(s.substr(p, sizes[i])); p += sizes[i]; if (p > s.size()) p = s.size(); }
	return v;
}

static Request simple(int method, bool v11, int connection)
{
	static const char* conn[] = { 0, "close", "keep-alive", "Close", "KEEP-ALIVE", "CLOSE", "Keep-Alive", "upgrade", "", "TE, close", "keep-alive, TE", "Upgrade,CLOSE ,x", "closed, not-close", "x,Keep-Alive", "close ", "\tclose\t", "keep-alive \t" };
	Request q; q.path = "/q"; q.version = v11 ? "HTTP/1.1" : "HTTP/1.0";
	if (method == 1) q.method = "HEAD"; else if (method == 2) q.method = "POST"; else if (method == 3) q.method = "OPTIONS";
	if (connection == 17) q.h("Connection", "TE").h("connection", v11 ? "close" : "keep-alive");
	else if (conn[connection]) q.h(connection % 2 ? "connection" : "Connection", conn[connection]);
	if (method == 2) q.content("request body");
	return q;
}

// One exchange and what follows it: the connection must be reusable or closed as prescribed.
// follow: 0 the next request comes later, 1 it was pipelined with the first, 2 it comes in the middle of the response.
static void exchange(Ctx& c, const Request& q, const Reply& r, bool inHandler, int follow, bool slowOutput, uint64_t salt)
{
	const Outcome o = prescribe(q, r);
	Request q2; q2.path = "/follow"; q2.method = follow == 1 ? "HEAD" : "GET"; q2.h("X-Two", "2");
	const Reply r2 = Reply::whole(200, "follow up");
	const std::vector<std::function<void(Conn*)> > ops = calls(r, o);
	c.log("%s %s conn=[%s] <- %s%s follow %d%s", q.method.c_str(), q.version.c_str(), ref::value(q.headers, "connection").c_str(), r.text().c_str(), inHandler ? " inside the handler" : "", follow, slowOutput ? " slow" : "");
	Rig rig; rig.lookDecoded = false; rig.dev->autoDrain = !slowOutput; rig.start();
	bool first = true;
	rig.onReady = [&](Conn* k) {
		if (!first) { k->writeResponse(200, Pillow::HttpHeaderCollection(), "follow up"); return; }
		first = false;
		if (inHandler) for (size_t i = 0; i < ops.size(); ++i) { if (follow == 2 && i == 1) rig.dev->give(q2.bytes()); ops[i](k); }
	};
	rig.dev->give(follow == 1 ? q.bytes() + q2.bytes() : q.bytes());
	if (!inHandler)
	{
		for (size_t i = 0; i < ops.size(); ++i) { if (follow == 2 && i == 1) rig.dev->give(q2.bytes()); ops[i](rig.conn); c.state(rig.stateHash(salt)); }
	}
	c.state(rig.stateHash(salt));
	bool gaveSecond = follow == 1 || (follow == 2 && ops.size() > 1);
	if (!o.complete)
	{
		// Fewer bytes than declared: the response stays open until the application gives up.
		if (rig.conn->state() != Conn::SendingContent) { c.fail("state %s after an incomplete response", stateName(rig.conn->state())); return; }
		if (rig.order() != "R") { c.fail("signals %s for an incomplete response", rig.order().c_str()); return; }
		rig.conn->close();
	}
	else if (!o.keepAlive && slowOutput)
	{
		for (int i = 0; rig.dev->pending > 0; ++i)
		{
			if (rig.dev->closeCount || rig.conn->state() != Conn::Flushing) { c.fail("state %s, %d device closes with %lld bytes still to be sent", stateName(rig.conn->state()), rig.dev->closeCount, rig.dev->pending); return; }
			if (i == 0 && !gaveSecond) { rig.dev->give(q2.bytes()); gaveSecond = true; }
			rig.dev->drain(i < 2 ? 1 : i == 2 ? rig.dev->pending / 2 + 1 : rig.dev->pending);
			c.state(rig.stateHash(hash(salt, i)));
		}
	}
	else if (slowOutput) rig.dev->drain(rig.dev->pending);
	if (!gaveSecond && o.complete) rig.dev->give(q2.bytes());
	c.state(rig.stateHash(salt));
	size_t next = 0;
	const std::string p = checkMessage(rig.dev->out, 0, q, r, o, &next);
	if (!p.empty()) { c.fail("%s", p.c_str()); return; }
	const bool stays = o.keepAlive && o.complete;
	const std::string wantOrder = stays ? "RCRC" : o.complete ? "RCX" : "RX";
	if (rig.order() != wantOrder) { c.fail("signals %s instead of %s; output %s", rig.order().c_str(), wantOrder.c_str(), show(rig.dev->out, 600).c_str()); return; }
	if (stays)
	{
		if (rig.conn->state() != Conn::ReceivingHeaders || rig.dev->closeCount) { c.fail("state %s after a keep-alive exchange", stateName(rig.conn->state())); return; }
		if (rig.seen.size() != 2 || rig.seen[1].path != "/follow" || rig.seen[1].method != q2.method || rig.seen[1].headers != q2.headers || !rig.seen[1].content.empty()) { c.fail("the following request was seen as %s", rig.seen.back().text().c_str()); return; }
		size_t end = 0; const std::string p2 = checkMessage(rig.dev->out, next, q2, r2, prescribe(q2, r2), &end);
		if (!p2.empty()) { c.fail("following response: %s", p2.c_str()); return; }
		if (end != rig.dev->out.size()) { c.fail("%zu bytes after the last response: %s", rig.dev->out.size() - end, show(rig.dev->out, 600).c_str()); return; }
	}
	else
	{
		if (rig.conn->state() != Conn::Closed || !rig.bothClosed() || rig.dev->closeCount != 1) { c.fail("state %s, device %s, after a response that ends the connection", stateName(rig.conn->state()), rig.bothClosed() ? "closed" : "open"); return; }
		if (o.complete && rig.dev->pendingAtClose) { c.fail("device closed with %lld bytes not yet sent", rig.dev->pendingAtClose); return; }
		if (next != rig.dev->out.size()) { c.fail("%zu bytes after the response: %s", rig.dev->out.size() - next, show(rig.dev->out, 600).c_str()); return; }
	}
	if (!(rig.seen[0] == expected(q, rig.seen[0])) && rig.seen[0].uri != q.target()) c.fail("request seen as %s", rig.seen[0].text().c_str());
}

static bool bodiless(int s) { return s / 100 == 1; }

static const char* clChoices[] = { 0, "=", "0", "+2", "-2", "abc", "-5", "", "5000000000", "2147483648", "99999999999999", "12x" };
enum { NCl = 12 };
static const char* teChoices[] = { 0, "chunked", "Chunked", "identity" };
static const char* connChoices[] = { 0, "close", "Close", "keep-alive", "Keep-Alive", "CLOSE", "x, Close", "close,y", "closed, x" };

static Reply replyOf(int cl, int te, int conn, int extra, int prog, size_t n)
{
	Reply r; const std::string body = ref::pattern(n, (unsigned)(n + prog));
	if (extra & 1) r.h("X-First", "1");
	if (te) r.h(te == 2 ? "transfer-encoding" : extra & 2 ? "TRANSFER-Encoding" : "Transfer-Encoding", teChoices[te]);
	if (cl)
	{
		std::string v = clChoices[cl];
		if (v == "=") v = ref::num((long long)n); else if (v == "+2") v = ref::num((long long)n + 2); else if (v == "-2") v = ref::num(n > 2 ? (long long)n - 2 : 0);
		r.h(extra & 1 ? "content-length" : extra & 2 ? "CONTENT-LENGTH" : "Content-Length", v);
	}
	if (extra & 2) r.h(cl & 1 ? "CONTENT-type" : "Content-Type", "text/html; charset=utf-8");
	static const char* connectionNames[] = { "Connection", "connection", "CONNECTION", "cOnnEction" };
	if (conn) r.h(connectionNames[(conn + prog * 3 + extra + cl) % 4], connChoices[conn]);
	if (extra & 1) { r.h("Set-Cookie", "a=b"); r.h("Set-Cookie", "c=d"); r.h("X-Empty", ""); }
	if (prog == 0) r.body = body;
	else
	{
		r.how = Reply::Pieces; std::vector<size_t> z;
		if (prog == 1) z.push_back(n);
		else if (prog == 2) { z.push_back(n / 3); z.push_back(0); z.push_back(n - n / 3); }
		else if (prog == 3) { z.push_back(1); z.push_back(n); z.push_back(n > 1 ? n - 1 : 0); } // One piece too many when the length is declared.
		r.pieces = prog == 3 ? std::vector<std::string>() : split(body, z);
		if (prog == 3) { r.pieces.push_back(body.substr(0, 1)); r.pieces.push_back(body + "!"); r.pieces.push_back(n > 1 ? body.substr(1) : std::string()); }
		if (prog == 4) r.pieces.clear();
	}
	return r;
}

std::vector<Suite> suitesC03(Tier tier)
{
	std::vector<Suite> v;
	v.push_back(Suite("status-codes", "status codes -1..1000 and far outside x GET/HEAD x HTTP/1.1, 1.0 x {writeResponse, writeHeaders and content, writeResponseString}; no body with 1xx; the body given with 204 and 304 must not be sent", 1006ull * 2 * 2 * 3, [](Ctx& c, uint64_t i) {
			int s = take(i, 1006) - 1; const int m = take(i, 2), ver = take(i, 2), how = take(i, 3);
			static const int odd[] = { 100000, -100, -2147483647, 2147483647 };
			if (s > 1000) s = odd[s - 1001];
			Reply r; r.status = s; const std::string b = bodiless(s) ? "" : "body";
			if (how == 1) { r.how = Reply::Pieces; r.h("Content-Length", ref::num(b.size())); r.pieces.push_back(b); } else { r.body = b; if (how == 2) r.how = Reply::WholeString; }
			exchange(c, simple(m, ver, 0), r, i & 1, 0, false, hash(1, s));
		}));
	const int nBody = tier == Thorough ? 7 : 3;
	v.push_back(Suite("header-combinations", "method {GET,HEAD,POST} x version x client Connection {none, close, keep-alive} x reply Content-Length {none, exact, 0, more, less, invalid, negative, empty, > 2^31, > 2^32} x Transfer-Encoding {none, chunked, Chunked, identity} x Connection {none, close, Close, keep-alive} x 4 extra header sets x writing {whole, one piece, three pieces with an empty one, pieces exceeding the length, none} x body sizes; inside the handler or later; next request later, pipelined or mid-response",
		3ull * 2 * 3 * NCl * 4 * 4 * 4 * 5 * nBody, [nBody](Ctx& c, uint64_t i) {
			static const size_t sizes[] = { 5, 0, 300, 1, 1500, 8192, 40000 };
			const int m = take(i, 3), ver = take(i, 2), qc = take(i, 3), cl = take(i, NCl), te = take(i, 4), rc = take(i, 4), extra = take(i, 4), prog = take(i, 5), n = take(i, nBody);
			const Request q = simple(m, ver, qc); const Reply r = replyOf(cl, te, rc, extra, prog, sizes[n]);
			const int f = c.choose(3);
			exchange(c, q, r, c.choose(2), f, false, hash(2, i));
		}));
	v.push_back(Suite("sizes", "body sizes around every power of two up to 64 KB and response header sizes around 1024, 4096, 16384, 40000 bytes x {whole, length and pieces, chunked pieces, until close} x piece sizes", 16ull * 12 * 4 * 4, [](Ctx& c, uint64_t i) {
			static const size_t bodySizes[] = { 0, 1, 9, 10, 15, 16, 17, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 70001 };
			static const size_t headSizes[] = { 0, 900, 930, 960, 1000, 1024, 2000, 4000, 4040, 4096, 16384, 40000 };
			static const size_t pieces[] = { 100000, 16, 1000, 4096 };
			const size_t n = bodySizes[take(i, 16)], hs = headSizes[take(i, 12)]; const int mode = take(i, 4), pi = take(i, 4);
			const std::string body = ref::pattern(n, 3); Reply r; if (hs) r.h("X-Pad", ref::text(hs, (unsigned)n));
			if (mode == 0) r.body = body;
			else
			{
				r.how = Reply::Pieces; if (mode == 1) r.h("Content-Length", ref::num(n)); else if (mode == 2) r.h("Transfer-Encoding", "chunked");
				for (size_t p = 0; p < n; p += pieces[pi]) r.pieces.push_back(body.substr(p, pieces[pi]));
			}
			exchange(c, simple(0, true, 0), r, c.choose(2), c.choose(2), false, hash(3, i));
		}));
	const int N = tier == Thorough ? 10 : 7;
	v.push_back(Suite("content-pieces", "every composition of a body of up to " + ref::num(N) + " bytes into pieces x {declared length, chunked, until close} x {HEAD, GET} x an excess piece tried at every point", (uint64_t)((1 << N) - 1) * 3 * 2, [N](Ctx& c, uint64_t i) {
			const int m = take(i, (1 << N) - 1) + 1, mode = take(i, 3), head = take(i, 2); // m: leading one marks the length, the bits below it the cuts.
			int bits = 0; while ((m >> bits) > 1) ++bits; const int n = bits + 1;
			const std::string body = ref::text(n, 5); Reply r; r.how = Reply::Pieces;
			if (mode == 0) r.h("Content-Length", ref::num(n)); else if (mode == 1) r.h("Transfer-Encoding", "chunked");
			std::string cur; for (int k = 0; k < n; ++k) { cur += body[k]; if (k == n - 1 || ((m >> k) & 1)) { r.pieces.push_back(cur); cur.clear(); } }
			const int ex = c.choose((int)r.pieces.size() + 1);
			if (ex < (int)r.pieces.size() && mode == 0) r.pieces.insert(r.pieces.begin() + ex, std::string(n + 1, '#'));
			else if (ex < (int)r.pieces.size()) r.pieces.insert(r.pieces.begin() + ex, std::string());
			exchange(c, simple(head, true, 0), r, c.choose(2), c.choose(3), false, hash(4, i));
		}));
	const int P = tier == Thorough ? 4 : 3;
	v.push_back(Suite("content-tokens", "every sequence of up to " + ref::num(P) + " pieces from 12 (line ends, what looks like a chunk, a last chunk, a head or a response, NUL and high bytes, digits) x {whole, length, chunked, until close} x {HEAD, GET}: content is opaque", 13ull * 13 * 13 * (P == 4 ? 13 : 1) * 4 * 2, [P](Ctx& c, uint64_t i) {
			static const std::string tokens[] = { "\r\n", "x\r\n", "\n", "\r", "0\r\n\r\n", "\r\n\r\n", "1\r\nx\r\n", "HTTP/1.1 200 OK\r\n\r\n", std::string("\0", 1), std::string("\0\xff\x80 ", 4), "5", "Content-Length: 3\r\n" };
			const int mode = take(i, 4), head = take(i, 2); Reply r; if (mode) r.how = Reply::Pieces; std::string all; bool gap = false;
			for (int k = 0; k < P; ++k) { const int t = take(i, 13); if (t == 12) { gap = true; continue; } if (gap) return; r.pieces.push_back(tokens[t]); all += tokens[t]; }
			if (mode == 0) { r.body = all; r.pieces.clear(); }
			if (mode == 1) r.h("Content-Length", ref::num(all.size())); else if (mode == 2) r.h("Transfer-Encoding", "chunked");
			exchange(c, simple(head, true, 0), r, c.choose(2), c.choose(3), false, hash(6, i));
		}));
	const int L = 5;
	v.push_back(Suite("successive-header-sizes", "three successive responses on one connection, each with one of 9 header block sizes (growing and shrinking across the internal buffer's limits) x body {none, small, large}", 9ull * 9 * 9 * 3, [](Ctx& c, uint64_t i) {
			static const size_t hs[] = { 0, 500, 980, 1030, 2000, 4000, 4097, 9000, 50000 }; static const size_t bs[] = { 0, 10, 6000 };
			Rig rig; rig.lookDecoded = false; std::vector<Reply> rs; std::vector<Request> qs; size_t served = 0;
			const size_t b = bs[(i / 729) % 3];
			for (int k = 0; k < 3; ++k) { Reply r = Reply::whole(200, ref::text(b, k)); const size_t h = hs[take(i, 9)]; if (h) r.h("X-P", ref::text(h, k)); if (h > 1000) { r.h("X-Q", ref::text(30, k)); r.h("X-R", ""); } rs.push_back(r); Request q; q.path = "/" + ref::num(k); qs.push_back(q); }
			rig.onReady = [&](Conn* k) { const Reply& r = rs[served++]; k->writeResponse(r.status, qh(r.headers), qb(r.body)); };
			rig.start();
			for (int k = 0; k < 3; ++k) { rig.dev->give(qs[k].bytes()); c.state(rig.stateHash(hash(5, k))); }
			size_t pos = 0;
			for (int k = 0; k < 3; ++k) { size_t next; const std::string p = checkMessage(rig.dev->out, pos, qs[k], rs[k], prescribe(qs[k], rs[k]), &next); if (!p.empty()) { c.fail("response %d: %s", k, p.c_str()); return; } pos = next; }
			if (pos != rig.dev->out.size()) c.fail("excess output");
		}));
	(void)L;
	return v;
}

std::vector<Suite> suitesC04(Tier tier)
{
	std::vector<Suite> v;
	v.push_back(Suite("negotiation", "method {GET,HEAD,POST,OPTIONS} x version x 18 client Connection values (also padded with white space) (options alone or in lists, in one or two headers) x 9 server Connection values x framing {length, zero length, chunked, unknown, chunked and length, identity coding, wrong length} x writing {whole, pieces}; output device draining at once or byte by byte; inside the handler or later; next request later, pipelined, or mid-response",
		4ull * 2 * 18 * 9 * 7 * 2 * 2, [](Ctx& c, uint64_t i) {
			const int m = take(i, 4), ver = take(i, 2), qc = take(i, 18), rc = take(i, 9), fr = take(i, 7), prog = take(i, 2), slow = take(i, 2);
			static const int cls[] = { 1, 2, 0, 0, 1, 0, 5 }, tes[] = { 0, 0, 1, 0, 1, 3, 0 };
			const Reply r = replyOf(cls[fr], tes[fr], rc, 0, prog ? 2 : 0, fr == 1 ? 0 : 12);
			const int f = c.choose(3);
			exchange(c, simple(m, ver, qc), r, c.choose(2), f, slow, hash(10, i));
		}));
	v.push_back(Suite("two-devices", "as above, with one device for the input and another one for the output: GET, HEAD x version x 3 client x 4 server Connection values x framing x writing", 2ull * 2 * 3 * 4 * 7 * 2 * 2, [](Ctx& c, uint64_t i) {
			TwoDevices two; const int m = take(i, 2), ver = take(i, 2), qc = take(i, 3), rc = take(i, 4), fr = take(i, 7), prog = take(i, 2), slow = take(i, 2);
			static const int cls[] = { 1, 2, 0, 0, 1, 0, 5 }, tes[] = { 0, 0, 1, 0, 1, 3, 0 };
			const Reply r = replyOf(cls[fr], tes[fr], rc, 0, prog ? 2 : 0, fr == 1 ? 0 : 12); const int f = c.choose(3);
			exchange(c, simple(m, ver, qc), r, c.choose(2), f, slow, hash(12, i));
		}));
	const int depth = tier == Thorough ? 5 : 4;
	v.push_back(Suite("decision-is-per-request", "sequences of up to " + ref::num(depth) + " requests on one connection, each {1.1, 1.1 close, 1.0, 1.0 keep-alive} x reply {length, chunked, unknown, close, zero length, HEAD}: it stays open exactly until the first exchange that closes", 24ull * 24, [depth](Ctx& c, uint64_t i) {
			Rig rig; rig.lookDecoded = false; rig.dev->autoDrain = false; rig.start(); std::vector<Request> qs; std::vector<Reply> rs; std::string order; bool open = true;
			for (int k = 0; k < depth && open && !c.failed(); ++k)
			{
				const int kind = k < 2 ? take(i, 24) : c.choose(24); const int a = kind % 4, b = kind / 4;
				Request q = simple(b == 5 ? 1 : 0, a < 2, a == 1 ? 1 : a == 3 ? 2 : 0); q.path = "/" + ref::num(k);
				Reply r = b == 1 ? replyOf(0, 1, 0, 0, 2, 9) : b == 2 ? replyOf(0, 0, 0, 0, 2, 9) : b == 3 ? replyOf(0, 0, 1, 0, 0, 9) : b == 4 ? replyOf(0, 0, 0, 0, 0, 0) : replyOf(0, 0, 0, 0, 0, 9);
				const Outcome o = prescribe(q, r); std::vector<std::function<void(Conn*)> > ops = calls(r, o);
				rig.dev->give(q.bytes()); order += "R";
				for (size_t j = 0; j < ops.size(); ++j) ops[j](rig.conn);
				order += "C"; qs.push_back(q); rs.push_back(r); open = o.keepAlive;
				if (!open) { if (rig.closed()) { c.fail("closed before the output was sent"); return; } rig.dev->give(simple(0, true, 0).bytes()); rig.dev->drain(rig.dev->pending); order += "X"; }
				else if (k & 1) rig.dev->drain(rig.dev->pending);
				c.state(rig.stateHash(11));
				if (rig.order() != order) { c.fail("signals %s instead of %s after exchange %d", rig.order().c_str(), order.c_str(), k); return; }
				if (rig.closed() != !open) { c.fail("connection %s after exchange %d", rig.closed() ? "closed" : "open", k); return; }
			}
			size_t pos = 0;
			for (size_t k = 0; k < qs.size(); ++k) { size_t next; const std::string p = checkMessage(rig.dev->out, pos, qs[k], rs[k], prescribe(qs[k], rs[k]), &next); if (!p.empty()) { c.fail("response %zu: %s", k, p.c_str()); return; } pos = next; }
			if (pos != rig.dev->out.size()) c.fail("excess output: %s", show(rig.dev->out.substr(pos)).c_str());
			if (rig.dev->pendingAtClose) c.fail("closed with unsent output");
		}));
	return v;
}

//
// C05
//
static Request pipeRequest(int kind, int k)
{
	Request q; q.path = "/r" + ref::num(k);
	switch (kind)
	{
	case 1: q.method = "HEAD"; q.h("X-N", ref::num(k)); break;
	case 2: q.method = "POST"; q.h("X-A", "a").h("X-B", "b").h("X-C", "c"); q.content("content-" + ref::num(k)); break;
	case 3: q.version = "HTTP/1.0"; q.h("Connection", "keep-alive"); break;
	case 4: q.hasQuery = true; q.query = "p" + ref::num(k) + "=v" + ref::num(k) + "&z=%2" + ref::num(k % 10); break;
	case 5: q.h("Connection", "close"); break;
	case 6: q.method = "PUT"; q.content(ref::pattern(40000, k)); break;
	case 7: q.path += "/" + ref::text(1500, k); q.hasFragment = true; q.fragment = "f"; for (int i = 0; i < 35; ++i) q.h("H" + ref::num(i), ref::num(k)); break;
	}
	return q;
}

static Reply pipeReply(int kind, int k)
{
	const std::string b = "body-" + ref::num(k) + "-" + ref::text(20, k);
	Reply r;
	switch (kind)
	{
	case 0: return Reply::whole(200, b);
	case 1: r = Reply::inPieces(split(b, std::vector<size_t>(3, 9))); r.h("Transfer-Encoding", "chunked").h("X-R", ref::num(k)); return r;
	case 2: return Reply::whole(404, "");
	case 3: r = Reply::inPieces(split(b, std::vector<size_t>(3, 9))); r.h("Content-Length", "27"); return r;
	case 4: r = Reply::inPieces(split(b, std::vector<size_t>(2, 9))); return r; // Until close.
	}
	return r;
}

struct Pipeline
{
	Ctx& c; Rig rig; std::vector<Request> qs; std::vector<Reply> rs; size_t opsDone, current; std::vector<std::function<void(Conn*)> > ops; std::vector<Seen> first; uint64_t salt; bool lookEachStep;
	Pipeline(Ctx& c, uint64_t salt) : c(c), opsDone(0), current(0), salt(salt), lookEachStep(false) {}
	size_t served() const { size_t n = 0; for (; n < qs.size(); ++n) if (!prescribe(qs[n], rs[n]).keepAlive) return n + 1; return n; } // How many requests the property says are served.
	void step() { c.state(hash(rig.stateHash(salt), opsDone)); }
	void checkAll()
	{
		if (c.failed()) return;
		const size_t n = served(); size_t pos = 0; std::string order;
		for (size_t k = 0; k < n; ++k)
		{
			order += "RC";
			if (k >= rig.seen.size()) { c.fail("request %zu was never delivered (signals %s)", k, rig.order().c_str()); return; }
			const Seen e = expected(qs[k], rig.seen[k]);
			if (!(e == rig.seen[k])) { c.fail("request %zu delivered as %s\ninstead of %s", k, show(rig.seen[k].text(), 800).c_str(), show(e.text(), 800).c_str()); return; }
			size_t next; const Outcome o = prescribe(qs[k], rs[k]); const std::string p = checkMessage(rig.dev->out, pos, qs[k], rs[k], o, &next);
			if (!p.empty()) { c.fail("response %zu: %s", k, p.c_str()); return; }
			pos = next;
		}
		if (pos != rig.dev->out.size()) { c.fail("output after the last response: %s", show(rig.dev->out.substr(pos), 300).c_str()); return; }
		const bool ends = !prescribe(qs[n - 1], rs[n - 1]).keepAlive; if (ends) order += "X";
		if (rig.order() != order) c.fail("signals %s instead of %s", rig.order().c_str(), order.c_str());
		if (rig.closed() != ends) c.fail("state %s at the end", stateName(rig.conn->state()));
	}
};

static void runPipeline(Ctx& c, const std::vector<Request>& qs, const std::vector<Reply>& rs, const std::vector<std::string>& segs, bool async, uint64_t salt)
{
	Pipeline p(c, salt); p.qs = qs; p.rs = rs;
	size_t active = 0; bool waiting = false; int status0 = 0;
	p.rig.onReady = [&](Conn* k) {
		const size_t idx = p.rig.seen.size() - 1;
		if (idx >= qs.size()) { c.fail("more requests delivered than sent"); return; }
		if (idx == 0) status0 = k->responseStatusCode(); else if (k->responseStatusCode() != status0) { c.fail("request %zu starts with the response status %d of an earlier one", idx, k->responseStatusCode()); return; }
		if (k->responseContentLength() != -1) { c.fail("request %zu starts with response length %lld", idx, k->responseContentLength()); return; }
		p.ops = calls(rs[idx], prescribe(qs[idx], rs[idx])); p.opsDone = 0; active = idx;
		if (!async) { std::vector<std::function<void(Conn*)> > mine = p.ops; for (size_t j = 0; j < mine.size(); ++j) mine[j](k); } else waiting = true;
	};
	p.rig.onCompleted = [&](Conn*) {
		if (p.rig.seen.size() && !(look(p.rig.conn) == p.rig.seen.back())) c.fail("the request changed before requestCompleted was delivered");
	};
	p.rig.start();
	size_t seg = 0;
	while (!c.failed())
	{
		const bool canFeed = seg < segs.size() && p.rig.dev->isOpen(), canOp = waiting && p.opsDone < p.ops.size();
		if (!canFeed && !canOp) break;
		const int what = canFeed && canOp ? c.choose(2) : canFeed ? 0 : 1;
		if (what == 0) { c.log("arrives: %s", show(segs[seg], 100).c_str()); p.rig.dev->give(segs[seg++]); }
		else
		{
			const std::function<void(Conn*)> op = p.ops[p.opsDone++]; c.log("response call %zu of request %zu", p.opsDone, active);
			if (p.opsDone == p.ops.size()) waiting = false;
			op(p.rig.conn);
		}
		p.step();
	}
	p.checkAll();
}

std::vector<Suite> suitesC05(Tier tier)
{
	std::vector<Suite> v;
	const int K = tier == Thorough ? 8 : 6;
	v.push_back(Suite("three-requests", "three requests from {GET, HEAD, POST with content, HTTP/1.0 keep-alive, query and parameters, Connection: close" + std::string(tier == Thorough ? ", PUT of 40 KB, 35 headers" : "") + "} x replies from {whole, chunked pieces, empty, length and pieces} rotated x {answered in the handler, answered later} x every interleaving of arrivals (all in one read, one read per request, cut inside each request) with the response calls",
		(uint64_t)K * K * K * 4 * 2 * 3, [K](Ctx& c, uint64_t i) {
			std::vector<Request> qs; std::vector<Reply> rs; for (int k = 0; k < 3; ++k) qs.push_back(pipeRequest(take(i, K), k));
			const int rot = take(i, 4), async = take(i, 2), cut = take(i, 3);
			for (int k = 0; k < 3; ++k) rs.push_back(pipeReply((rot + k) % 4, k));
			std::vector<std::string> segs; std::string all; std::vector<size_t> ends;
			for (int k = 0; k < 3; ++k) { all += qs[k].bytes(); ends.push_back(all.size()); }
			if (cut == 0) segs.push_back(all);
			else if (cut == 1) for (int k = 0; k < 3; ++k) segs.push_back(qs[k].bytes());
			else { size_t p = 0; for (int k = 0; k < 3; ++k) { const size_t at = ends[k] - (k == 0 ? 1 : k == 1 ? 9 : 3); segs.push_back(all.substr(p, at - p)); p = at; } segs.push_back(all.substr(p)); }
			runPipeline(c, qs, rs, segs, async, hash(20, i));
		}));
	v.push_back(Suite("two-requests-every-cut", "two requests from 8 kinds x replies x every cut of the stream into two reads x answered in the handler or later at every point", 8ull * 8 * 5, [](Ctx& c, uint64_t i) {
			std::vector<Request> qs; std::vector<Reply> rs; qs.push_back(pipeRequest(take(i, 8), 0)); qs.push_back(pipeRequest(take(i, 8), 1)); const int rk = take(i, 5);
			rs.push_back(pipeReply(rk, 0)); rs.push_back(pipeReply((rk * 2 + 1) % 4, 1));
			const std::string all = qs[0].bytes() + qs[1].bytes(); std::vector<size_t> cuts; const size_t e = qs[0].bytes().size();
			for (size_t p = 1; p < all.size(); ++p) if (all.size() < 400 || p < 30 || (p > e - 60 && p < e + 60) || p + 30 > all.size() || p % 4096 == 0) cuts.push_back(p);
			const size_t p = cuts[c.choose((int)cuts.size())];
			std::vector<std::string> segs; segs.push_back(all.substr(0, p)); segs.push_back(all.substr(p));
			runPipeline(c, qs, rs, segs, c.choose(2), hash(21, i));
		}));
	v.push_back(Suite("lookalikes", "three requests that differ, or not, in path, query and fragment, each from values of equal length before or after decoding, or none; decoded fields and parameters read in all, in one, or in none; in one read or one by one", 48ull * 48 * 5 * 2, [](Ctx& c, uint64_t i) {
			Request qs[3]; int shape[3] = { take(i, 48), take(i, 48), 0 }; shape[2] = shape[0] ^ 1; const int reads = take(i, 5), together = take(i, 2);
			static const char* paths[] = { "/ab", "/xy", "/%62", "/%79" }; static const char* queries[] = { 0, "a=1", "b=2", "%61=" }; static const char* fragments[] = { 0, "f1", "g2" };
			for (int k = 0; k < 3; ++k)
			{
				qs[k].path = paths[shape[k] % 4]; const char* q = queries[shape[k] / 4 % 4]; const char* f = fragments[shape[k] / 16];
				if (q) { qs[k].hasQuery = true; qs[k].query = q; } if (f) { qs[k].hasFragment = true; qs[k].fragment = f; }
			}
			Rig rig; rig.lookDecoded = reads == 3 || reads == 0; size_t n = 0;
			rig.onReady = [&](Conn* k) { if (n >= 3) return; const size_t at = n++; const bool decoded = reads == 3 || reads == (int)at; const Seen got = look(k, decoded);
				Seen e = expected(qs[at], got); if (!decoded) { e.uriD = e.pathD = e.queryD = e.fragmentD = ""; e.params.clear(); }
				if (!(got == e)) c.fail("request %zu is reported as %s\ninstead of %s", at, got.text().c_str(), e.text().c_str());
				rig.lookDecoded = reads == 3 || reads == (int)n;
				k->writeResponse(200, Pillow::HttpHeaderCollection(), "x"); };
			rig.start(); std::string all;
			for (int k = 0; k < 3; ++k) { all += qs[k].bytes(); if (!together) rig.dev->give(qs[k].bytes()); c.state(rig.stateHash(hash(23, k))); }
			if (together) rig.dev->give(all);
			if (!c.failed() && n != 3) c.fail("%zu of 3 requests delivered", n);
		}));
	v.push_back(Suite("many-in-one-read", "N requests of each kind in a single read, N up to " + ref::num(tier == Thorough ? 60000 : 20000) + ", answered in the handler, or from the event loop", 4ull * 5 * 2, [tier](Ctx& c, uint64_t i) {
			static const int ns[] = { 10, 100, 1000, 5000, 20000 }; int n = ns[take(i, 5)]; const int kind = take(i, 4), later = take(i, 2); if (n == 20000 && tier == Thorough) n = 60000; if (kind == 2) n /= 5;
			std::string all; for (int k = 0; k < n; ++k) all += pipeRequest(kind, k % 10).bytes();
			Rig rig; rig.lookDecoded = false; int ready = 0, completed = 0, wrong = 0; Conn* waiting = 0;
			QObject::connect(rig.conn, &Conn::requestReady, [&](Conn* k) {
				if (k->requestPath() != "/r" + QByteArray::number(ready % 10) || ready != completed) ++wrong; ++ready; rig.seen.clear(); rig.events.clear();
				if (later) waiting = k; else k->writeResponse(200, Pillow::HttpHeaderCollection(), "x"); });
			QObject::connect(rig.conn, &Conn::requestCompleted, [&](Conn*) { ++completed; });
			rig.start(); rig.dev->give(all);
			while (waiting) { Conn* k = waiting; waiting = 0; k->writeResponse(200, Pillow::HttpHeaderCollection(), "x"); c.step(); }
			c.state(hash(hash(22, n), ready));
			if (ready != n || completed != n || wrong) c.fail("%d requests: %d delivered, %d completed, %d out of order", n, ready, completed, wrong);
			size_t count = 0, p = 0; while ((p = rig.dev->out.find("HTTP/1.", p)) != std::string::npos) { ++count; ++p; }
			if ((int)count != n) c.fail("%zu responses to %d requests", count, n);
		}, 200));
	return v;
}
