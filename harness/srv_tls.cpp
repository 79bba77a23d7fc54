// C25: the same over TLS.
#include "srv.h"
using namespace mc;

struct TlsEnd // A TLS client whose bytes go where and when the explorer wants.
{
	std::unique_ptr<Peer> p; SSL* ssl; BIO* rb; BIO* wb; string plain; bool closed, broken; // closed: close_notify or end of the stream.
	TlsEnd(Peer* peer, int version) : p(peer), closed(false), broken(false)
	{
		static SSL_CTX* ctx = 0; if (!ctx) { ctx = SSL_CTX_new(TLS_client_method()); SSL_CTX_set_verify(ctx, SSL_VERIFY_NONE, 0); SSL_CTX_set_session_cache_mode(ctx, SSL_SESS_CACHE_OFF); }
		ssl = SSL_new(ctx); SSL_set_min_proto_version(ssl, version == 2 ? TLS1_2_VERSION : TLS1_3_VERSION); SSL_set_max_proto_version(ssl, version == 2 ? TLS1_2_VERSION : TLS1_3_VERSION); rb = BIO_new(BIO_s_mem()); wb = BIO_new(BIO_s_mem()); SSL_set_bio(ssl, rb, wb); SSL_set_connect_state(ssl);
	}
	~TlsEnd() { SSL_free(ssl); }
	string produced() { string s; char b[16384]; int n; while ((n = BIO_read(wb, b, sizeof b)) > 0) s.append(b, n); return s; }
	void absorb() { p->read(); if (!p->in.empty()) { BIO_write(rb, p->in.data(), p->in.size()); p->in.clear(); } }
	string flight() { ERR_clear_error(); const int r = SSL_do_handshake(ssl); if (r != 1 && SSL_get_error(ssl, r) != SSL_ERROR_WANT_READ) broken = true; return produced(); } // What the handshake sends next.
	bool done() const { return SSL_is_init_finished(ssl); }
	bool handshake() { return until([&]() { const string s = flight(); if (!s.empty()) p->give(s); absorb(); if (!done()) { const string t = flight(); if (!t.empty()) p->give(t); } return broken || done() || p->ended(); }) && done() && !broken; }
	string records(const std::vector<string>& pieces) { string s; for (auto& x : pieces) { if (x.empty()) continue; SSL_write(ssl, x.data(), x.size()); s += produced(); } return s; }
	void pull() { absorb(); char b[16384]; for (;;) { ERR_clear_error(); const int n = SSL_read(ssl, b, sizeof b); if (n > 0) { plain.append(b, n); continue; } const int e = SSL_get_error(ssl, n); if (e == SSL_ERROR_ZERO_RETURN) closed = true; else if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) broken = true; break; } if (p->eof || p->reset) closed = true; }
	string subject() { X509* x = SSL_get1_peer_certificate(ssl); if (!x) return "none"; char b[200]; X509_NAME_oneline(X509_get_subject_name(x), b, sizeof b); X509_free(x); return b; }
};

struct TlsWorld
{
	Ctx& ctx; Site site; std::vector<std::unique_ptr<TlsEnd> > ends; string story; int next;
	explicit TlsWorld(Ctx& ctx) : ctx(ctx), site(Tls), next(0) {}
	~TlsWorld() { ends.clear(); spin(1); }
	void fail(const string& s) { ctx.fail("%s; %s", s.c_str(), story.c_str()); }
	TlsEnd* connect(int version) { Peer* p = site.connectPeer(); if (!p) { fail("harness: cannot connect"); return 0; } ends.push_back(std::unique_ptr<TlsEnd>(new TlsEnd(p, version))); spin(); return ends.back().get(); }
	// A whole exchange of a new or existing client.
	bool serve(TlsEnd& e, int client, int k)
	{
		e.p->give(e.records(std::vector<string>(1, requestBytes(client, k)))); std::vector<string> texts; string pr;
		if (!until([&]() { return site.delivered[client].size() == (size_t)k + 1 || !site.problem.empty(); })) { fail("request " + ref::num(k) + " of client " + ref::num(client) + " is not delivered"); return false; }
		for (size_t i = 0; i < site.pending.size(); ++i) if (site.pending[i].client == client) { site.answer(i); break; }
		if (!until([&]() { e.pull(); pr = takeReplies(e.plain, &texts); return !texts.empty() || !pr.empty() || e.broken; }) || !pr.empty() || texts.size() != 1 || texts[0] != Site::text(client, k, bodyOf(client, k))) { fail("client " + ref::num(client) + " got [" + (texts.empty() ? mc::show(e.plain, 100) : mc::show(texts[0], 100)) + "] " + pr); return false; }
		if (!site.problem.empty()) { fail(site.problem); return false; }
		return true;
	}
	bool newcomer(int client, int version = 3) { TlsEnd* e = connect(version); if (!e) return false; if (!e->handshake()) { fail("the handshake of a newcomer fails"); return false; } return serve(*e, client, 0); }
};

struct Made { string bytes; std::vector<string> bodies; bool close; string name; }; // Requests 0.. of client 0.
static std::vector<Made> requestKinds()
{
	std::vector<Made> v; auto post = [](int k, const string& body, bool close) { return "POST /c0/r" + ref::num(k) + " HTTP/1.1\r\nHost: h\r\n" + (close ? "Connection: close\r\n" : "") + "Content-Length: " + ref::num(body.size()) + "\r\n\r\n" + body; };
	auto add = [&](const char* name, const string& b, std::vector<string> bodies, bool close) { Made m = { b, bodies, close, name }; v.push_back(m); };
	add("GET", "GET /c0/r0 HTTP/1.1\r\nHost: h\r\n\r\n", std::vector<string>(1), false); add("GET, closing", "GET /c0/r0 HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n", std::vector<string>(1), true);
	add("POST", post(0, "content", false), std::vector<string>(1, "content"), false); { std::vector<string> b; b.push_back("one"); b.push_back(""); b.push_back("three"); add("three pipelined", post(0, "one", false) + "GET /c0/r1 HTTP/1.1\r\nHost: h\r\n\r\n" + post(2, "three", true), b, true); }
	const string big = ref::pattern(50000, 3); add("POST of 50000 bytes", post(0, big, false), std::vector<string>(1, big), false); return v;
}

// Records and segments of every shape; responses of several kinds.
static void records(Ctx& ctx, uint64_t root)
{
	const std::vector<Made> kinds = requestKinds(); const Made& m = kinds[take(root, kinds.size())]; const int version = 2 + take(root, 2), response = take(root, 4), shape = take(root, 6), later = take(root, 2); TlsWorld w(ctx); static const char* responses[] = { "echo", "200000 bytes", "chunked", "no length" }, *shapes[] = { "one record", "two records", "a record per byte", "one record in two segments", "one record a byte at a time", "two records in one segment with a cut inside the second" };
	const bool shortOne = m.bytes.size() < 200; if (response == 3 && m.bodies.size() > 1) return; // A connection closed with unread requests is reset, with its output.
 if (shape == 2 && !shortOne) return; if (shape == 4 && !shortOne) return;
	const string big = ref::text(200000, 5); const bool noLength = response == 3; std::vector<string> wantBodies;
	w.site.onSeen = nullptr; std::vector<string> seenBodies;
	auto reply = [&](Conn* c, const string& body) {
		Pillow::HttpHeaderCollection h;
		if (response == 0) c->writeResponse(200, h, qb(body)); else if (response == 1) c->writeResponse(200, h, qb(big)); else if (response == 2) { h << Pillow::HttpHeader("Transfer-Encoding", "chunked"); c->writeHeaders(200, h); c->writeContent(qb("first " + body)); c->writeContent(qb(big.substr(0, 20000))); c->endContent(); } else { c->writeHeaders(200, h); c->writeContent(qb(body + "+")); c->writeContent("rest"); c->endContent(); }
	};
	w.site.onAsk = [&](Site::Ask& a) { seenBodies.push_back(a.body); if (!later) { w.site.pending.pop_back(); reply(a.conn, a.body); } };
	const int all = (int)m.bytes.size(); int cut = 0; if (shape == 1 || shape == 3 || shape == 5) { cut = shortOne ? 1 + ctx.choose(all - 1) : (int)((int[]){ 1, 30, 70, 16383, 16384, 16385, 40000, all - 1 })[ctx.choose(8)]; }
	w.story = m.name + ", TLS 1." + ref::num(version) + ", response " + responses[response] + ", " + shapes[shape] + " cut at " + ref::num(cut) + (later ? ", answered later" : ""); ctx.log("%s", w.story.c_str());
	TlsEnd* e = w.connect(version); if (!e) return; if (!e->handshake()) { w.fail("the handshake fails"); return; }
	if (e->subject().find("explorer0") == string::npos) { w.fail("certificate " + e->subject()); return; }
	if (!w.site.delivered.empty()) { w.fail("a request before one was sent"); return; }
	std::vector<string> pieces; if (shape == 1 || shape == 5) { pieces.push_back(m.bytes.substr(0, cut)); pieces.push_back(m.bytes.substr(cut)); } else if (shape == 2) for (char c : m.bytes) pieces.push_back(string(1, c)); else pieces.push_back(m.bytes);
	if (shape == 1 || shape == 2) for (auto& x : pieces) e->p->give(e->records(std::vector<string>(1, x)));
	else { const string raw = e->records(pieces); if (shape == 3) { const size_t c = shortOne ? std::min<size_t>(cut, raw.size() - 1) : raw.size() * cut / all; e->p->give(raw.substr(0, c)); e->p->give(raw.substr(c)); } else if (shape == 4) for (char c : raw) e->p->give(string(1, c)); else if (shape == 5) { const size_t c = raw.size() - 5; e->p->give(raw.substr(0, c)); e->p->give(raw.substr(c)); } else e->p->give(raw); }
	size_t answered = 0; std::vector<string> texts; string pr; const size_t want = noLength ? 1 : m.bodies.size();
	for (; answered < want; ++answered)
	{
		if (!until([&]() { return seenBodies.size() > answered; })) { w.fail("request " + ref::num(answered) + " is not delivered"); return; }
		if (seenBodies[answered] != m.bodies[answered]) { w.fail("request " + ref::num(answered) + " has the wrong content"); return; }
		if (later) { if (seenBodies.size() > answered + 1) { w.fail("two requests at a time"); return; } Site::Ask a = w.site.pending.back(); w.site.pending.pop_back(); spin(1); reply(a.conn, a.body); }
	}
	ctx.state(hash(hash(50, w.story), cut)); const bool closes = m.close || noLength;
	if (!until([&]() { e->pull(); if (noLength) return e->closed; pr = takeReplies(e->plain, &texts); return !pr.empty() || (texts.size() >= want && (!closes || e->closed)); }, 10)) { w.fail("only " + ref::num(texts.size()) + " responses arrived, and " + ref::num(e->plain.size()) + " bytes"); return; }
	spin(1); e->pull(); if (!closes && e->closed) { w.fail("the connection was closed"); return; }
	if (noLength) { ref::Response r; size_t next = 0; if (!ref::parseResponse(e->plain, 0, false, &r, &next) || e->plain.substr(e->plain.find("\r\n\r\n") + 4) != m.bodies[0] + "+rest") w.fail("the response of unknown length is wrong: " + mc::show(e->plain.substr(0, 300))); return; }
	if (!pr.empty() || texts.size() != want || !e->plain.empty()) { w.fail(pr + " " + ref::num(texts.size()) + " responses and " + ref::num(e->plain.size()) + " bytes more"); return; }
	for (size_t k = 0; k < want; ++k) { const string x = response == 0 ? m.bodies[k] : response == 1 ? big : "first " + m.bodies[k] + big.substr(0, 20000); if (texts[k] != x) { w.fail("response " + ref::num(k) + " is wrong: " + ref::num(texts[k].size()) + " bytes"); return; } }
	if (seenBodies.size() != want) w.fail("more requests than were sent");
	if (!w.site.problem.empty()) w.fail(w.site.problem);
}

// Clients that fail or abandon the handshake, or break the stream later, next to well-behaved ones.
static void abandon(Ctx& ctx, uint64_t root)
{
	enum { InHello, AfterHello, InFinish, AfterHandshake, InRecord, BadRecord, BadHello, Garbage, PlainHttp, Alert, NStage }; static const char* stages[] = { "inside the client hello", "after the client hello", "inside the final flight", "after the handshake", "inside a record", "with a corrupt record", "with a corrupt hello", "with garbage", "with plain HTTP", "with an alert" };
	enum { Leave, Reset, Stay, NHow }; static const char* hows[] = { "leaves", "resets", "stays silent" };
	const int stage = take(root, NStage), how = take(root, NHow), version = 2 + take(root, 2), others = take(root, 3); TlsWorld w(ctx); w.site.answerAtOnce = false; w.story = string("a TLS 1.") + ref::num(version) + " client " + hows[how] + " " + stages[stage];
	// others: 0 newcomers only, 1 one connected and handshaken, 2 one in the middle of its handshake and one with half a request.
	TlsEnd *b = 0, *c = 0; string rest; if (others) { b = w.connect(3); if (!b || !b->handshake() || !w.serve(*b, 1, 0)) { if (!ctx.failed()) w.fail("the first client is not served"); return; } }
	if (others == 2) { c = w.connect(2); if (!c) return; c->p->give(c->flight()); const string s = b->records(std::vector<string>(1, requestBytes(1, 1))); rest = s.substr(s.size() / 2); b->p->give(s.substr(0, s.size() / 2)); }
	TlsEnd* a = w.connect(version); if (!a) return; size_t cut = 0; bool mustEnd = false;
	switch (stage)
	{
	case InHello: { const string s = a->flight(); cut = 1 + ctx.choose(std::min<int>(s.size() - 1, 120)); a->p->give(s.substr(0, cut)); } break;
	case AfterHello: a->p->give(a->flight()); break;
	case InFinish: { a->p->give(a->flight()); string s; if (!until([&]() { a->absorb(); s += a->flight(); return !s.empty(); })) { w.fail("no server hello"); return; } cut = ctx.choose(std::min<int>(s.size(), 80)); a->p->give(s.substr(0, cut)); } break;
	case AfterHandshake: if (!a->handshake()) { w.fail("the handshake fails"); return; } break;
	case InRecord: { if (!a->handshake()) { w.fail("the handshake fails"); return; } const string s = a->records(std::vector<string>(1, requestBytes(0, 0))); cut = 1 + ctx.choose(s.size() - 1); a->p->give(s.substr(0, cut)); } break;
	case BadRecord: { if (!a->handshake()) { w.fail("the handshake fails"); return; } string s = a->records(std::vector<string>(1, requestBytes(0, 0))); cut = 5 + ctx.choose(s.size() - 5); s[cut] ^= 0x55; a->p->give(s); } break; // Whether the server then closes is up to Qt.
	case BadHello: { string s = a->flight(); cut = ctx.choose(3); s[cut == 2 ? 5 : cut] ^= 0x55; a->p->give(s); mustEnd = cut != 1; } break;
	case Garbage: { cut = ctx.choose(3); a->p->give(ref::pattern(cut == 0 ? 5 : cut == 1 ? 100 : 20000, 1)); } break;
	case PlainHttp: a->p->give(requestBytes(0, 0) + requestBytes(0, 1)); mustEnd = true; break;
	case Alert: { a->p->give(a->flight()); a->p->give(string("\x15\x03\x03\x00\x02\x02\x28", 7)); mustEnd = true; } break;
	}
	if (how == Leave) { ::close(a->p->fd); a->p->fd = -1; spin(); } else if (how == Reset) a->p->rst(); else spin();
	w.story += " (" + ref::num(cut) + "), " + ref::num(others) + " others"; ctx.log("%s", w.story.c_str()); ctx.state(hash(51, w.story));
	if (how == Stay && mustEnd && !until([&]() { a->p->in.clear(); return a->p->ended(); })) { w.fail("the connection is not closed"); return; }
	if (w.site.delivered.count(0)) { w.fail("a request was delivered for a client that sent none completely"); return; }
	if (others == 2) { b->p->give(rest); std::vector<string> t; if (!until([&]() { return w.site.delivered[1].size() == 2; })) { w.fail("the other client's request is not delivered"); return; } w.site.answer(0); string pr; if (!until([&]() { b->pull(); pr = takeReplies(b->plain, &t); return !t.empty(); }) || t[0] != Site::text(1, 1, bodyOf(1, 1))) { w.fail("the other client is answered wrongly"); return; } if (!c->handshake() || !w.serve(*c, 2, 0)) { if (!ctx.failed()) w.fail("the other client's handshake fails"); return; } }
	else if (others == 1) { if (!w.serve(*b, 1, 1)) return; }
	for (int i = 0; i < 2; ++i) if (!w.newcomer(10 + i, 2 + i)) return;
	if (w.site.delivered.count(0)) w.fail("a request was delivered for a client that sent none completely");
}

// Several clients: every schedule of handshake steps, requests, answers and departures.
static void interleave(Ctx& ctx, uint64_t root, int depth)
{
	struct M { TlsEnd* e; int version, sent, answered; bool hello, gone; string rest; }; TlsWorld w(ctx); std::vector<M> ms; const int v0 = 2 + take(root, 2); const uint64_t first = root;
	auto add = [&](int version) { M m; m.e = w.connect(version); m.version = version; m.sent = m.answered = 0; m.hello = m.gone = false; ms.push_back(m); return m.e != 0; };
	auto check = [&]() -> bool {
		string why; auto fine = [&]() { for (size_t i = 0; i < ms.size(); ++i) { M& m = ms[i]; if (m.gone) { for (auto& o : w.site.owner) if (o.second == (int)i) { why = "the connection of client " + ref::num(i) + ", which left, is not closed"; return false; } continue; } if (!m.e->done()) continue; const int want = std::min(m.sent, m.answered + 1); if ((int)w.site.delivered[i].size() != want) { why = ref::num(w.site.delivered[i].size()) + " requests of client " + ref::num(i) + " delivered instead of " + ref::num(want); return false; }
				m.e->pull(); size_t n = 0, p = 0; while ((p = m.e->plain.find("reply to " + ref::num(i) + "/", p)) != string::npos) { ++n; ++p; } if ((int)n != m.answered || m.e->closed || m.e->broken) { why = "client " + ref::num(i) + " has " + ref::num(n) + " responses instead of " + ref::num(m.answered); return false; } } return true; };
		if (!until(fine)) { w.fail(why); return false; } spin(2); if (!until(fine)) { w.fail(why); return false; } if (!w.site.problem.empty()) { w.fail(w.site.problem); return false; } return true; };
	if (!add(v0)) return; w.story = "connect 0 (1." + ref::num(v0) + ")";
	for (int d = 0; d < depth; ++d)
	{
		struct Ev { char k; int c; }; std::vector<Ev> evs; auto ev = [&](char k, int c) { Ev e = { k, c }; evs.push_back(e); };
		for (size_t i = 0; i < ms.size(); ++i) { M& m = ms[i]; if (m.gone) continue; if (!m.hello) { ev('h', i); ev('s', i); } else if (!m.e->done()) ev('s', i); else { if (m.rest.empty()) { ev('W', i); ev('H', i); } else ev('R', i); } ev('F', i); ev('X', i); }
		if (ms.size() < 2) { ev('2', 0); ev('3', 0); } if (!w.site.pending.empty()) ev('o', 0); if (w.site.pending.size() > 1) ev('n', 0);
		if (evs.empty()) break; const int n = d == 0 ? (int)(first % 6) : ctx.choose(evs.size()); if (n >= (int)evs.size()) return; const Ev x = evs[n]; M* m = x.c < (int)ms.size() ? &ms[x.c] : 0; const string id = " " + ref::num(x.c);
		switch (x.k)
		{
		case 'h': w.story += ", hello" + id; m->hello = true; m->e->p->give(m->e->flight()); break;
		case 's': w.story += ", handshake" + id; m->hello = true; if (!m->e->handshake()) { w.fail("the handshake fails"); return; } break;
		case 'W': w.story += ", whole" + id; m->e->p->give(m->e->records(std::vector<string>(1, requestBytes(x.c, m->sent)))); ++m->sent; break;
		case 'H': { w.story += ", half" + id; const string s = m->e->records(std::vector<string>(1, requestBytes(x.c, m->sent))); m->rest = s.substr(s.size() - 4); m->e->p->give(s.substr(0, s.size() - 4)); } break;
		case 'R': { w.story += ", rest" + id; const string s = m->rest; m->rest.clear(); m->e->p->give(s); ++m->sent; } break;
		case 'F': w.story += ", leave" + id; m->gone = true; ::close(m->e->p->fd); m->e->p->fd = -1; spin(); break;
		case 'X': w.story += ", reset" + id; m->gone = true; m->e->p->rst(); break;
		case '2': case '3': w.story += string(", connect 1 (1.") + x.k + ")"; if (!add(x.k - '0')) return; break;
		case 'o': case 'n': { const size_t i = x.k == 'o' ? 0 : w.site.pending.size() - 1; w.story += ", answer " + ref::num(w.site.pending[i].client); ++ms[w.site.pending[i].client].answered; w.site.answer(i); } break;
		}
		if (!check()) return; uint64_t h = 52; for (auto& q : ms) h = hash(h, q.version * 4096 + q.sent * 256 + q.answered * 16 + q.hello + 2 * q.gone + 4 * !q.rest.empty() + 8 * q.e->done()); ctx.state(h);
	}
	ctx.log("%s", w.story.c_str());
	for (size_t i = 0; i < ms.size(); ++i) { M& m = ms[i]; if (m.gone) continue; if (!m.e->handshake()) { w.fail("the handshake fails"); return; } if (m.rest.empty()) m.e->p->give(m.e->records(std::vector<string>(1, requestBytes(i, m.sent)))); else m.e->p->give(m.rest); m.rest.clear(); ++m.sent; if (!check()) return; }
	while (!w.site.pending.empty()) { ++ms[w.site.pending.back().client].answered; w.site.answer(w.site.pending.size() - 1); if (!check()) return; }
}

// Certificates set between connections, and populations around the reserve.
static void certificates(Ctx& ctx, uint64_t root)
{
	const int seq = take(root, 8), version = 2 + take(root, 2); TlsWorld w(ctx); Pillow::HttpsServer* s = static_cast<Pillow::HttpsServer*>(w.site.server.get()); std::vector<int> used; w.story = "certificates"; int id = 0;
	for (int k = 0; k < 3; ++k)
	{
		const int c = (seq >> k) & 1; w.story += " " + ref::num(c); s->setCertificate(Site::certificate(c)); s->setPrivateKey(Site::key(c)); if (s->certificate() != Site::certificate(c) || s->privateKey() != Site::key(c)) { w.fail("certificate() or privateKey() is not what was set"); return; }
		TlsEnd* e = w.connect(version); if (!e) return; if (!e->handshake()) { w.fail("the handshake fails"); return; } if (e->subject().find("explorer" + ref::num(c)) == string::npos) { w.fail("the certificate is " + e->subject()); return; }
		used.push_back(id); if (!w.serve(*e, id++, 0)) return; ctx.state(hash(53, seq * 8 + k));
	}
	for (int i = 0; i < id; ++i) if (!w.serve(*w.ends[i], i, 1)) return;
}

static void churn(Ctx& ctx, uint64_t root)
{
	static const int sizes[] = { 24, 25, 26, 60 }; const int n = sizes[take(root, 4)], way = take(root, 4), version = 2 + take(root, 2); TlsWorld w(ctx); static const char* ways[] = { "served and leaving", "abandoning after the hello", "abandoning before it", "resetting after the handshake" }; w.story = ref::num(n) + " clients at a time " + ways[way]; ctx.log("%s", w.story.c_str()); int id = 0;
	for (int round = 0; round < 2; ++round)
	{
		const size_t from = w.ends.size(); for (int i = 0; i < n; ++i) { TlsEnd* e = w.connect(version); if (!e) return; if (way == 1) e->p->give(e->flight()); if (way == 0 || way == 3) { if (!e->handshake()) { w.fail("the handshake fails"); return; } } if (way == 0 && !w.serve(*e, id++, 0)) return; }
		for (size_t i = from; i < w.ends.size(); ++i) { if (way == 3) w.ends[i]->p->rst(); else { ::close(w.ends[i]->p->fd); w.ends[i]->p->fd = -1; spin(1); } } w.ends.clear(); spin(); ctx.state(hash(54, root * 4 + round)); if (!w.newcomer(id++, version)) return;
	}
	if (!w.newcomer(id)) return;
}

// Contents of any size around the records' and buffers', both ways, to clients that read at once or slowly; another client meanwhile.
static void sizes(Ctx& ctx, uint64_t root)
{
	static const int grid[] = { 0, 1, 4095, 4096, 4097, 16383, 16384, 16385, 32769, 65536, 100000, 1000000, 3000000 }; static const char* hows[] = { "echoed", "echoed in two", "echoed chunked", "echoed, closing" };
	const int version = 2 + take(root, 2), size = grid[take(root, 13)], how = take(root, 4), slow = take(root, 2), pipelined = take(root, 2); TlsWorld w(ctx); std::vector<int> asked(3, 0);
	w.story = "content of " + ref::num(size) + " bytes " + hows[how] + (slow ? ", read slowly" : "") + (pipelined ? ", followed by a small one" : ", then a small one") + ", TLS 1." + ref::num(version); ctx.log("%s", w.story.c_str());
	w.site.onAsk = [&](Site::Ask& a) {
		++asked[a.client]; if (a.client != 0) return; w.site.pending.pop_back(); Conn* c = a.conn; const QByteArray& content = c->requestContent(); Pillow::HttpHeaderCollection h; const QByteArray n = QByteArray::number(content.size());
		if (how == 0) c->writeResponse(200, h, content);
		else if (how == 1) { h << Pillow::HttpHeader("Content-Length", n); c->writeHeaders(200, h); if (content.size() > 0) { c->writeContent(content.left(content.size() / 2)); c->writeContent(content.mid(content.size() / 2)); } }
		else if (how == 2) { h << Pillow::HttpHeader("Transfer-Encoding", "chunked"); c->writeHeaders(200, h); c->writeContent(content); c->endContent(); }
		else { if (a.k == 1 || !pipelined) h << Pillow::HttpHeader("Connection", "close"); c->writeResponse(200, h, content); }
	};
	auto body = [](int k, int n) { return ref::pattern(n, k + 1); }; auto request = [&](int k, int n) { return "POST /c0/r" + ref::num(k) + " HTTP/1.1\r\nHost: h\r\nContent-Length: " + ref::num(n) + "\r\n\r\n" + body(k, n); };
	TlsEnd* e = w.connect(version); if (!e || !e->handshake()) { w.fail("the handshake fails"); return; } TlsEnd* other = w.connect(5 - version); if (!other || !other->handshake()) { w.fail("the second handshake fails"); return; }
	const bool alone = how == 3 && !pipelined; std::vector<int> want(1, size); string raw = e->records(std::vector<string>(1, request(0, size))); if (pipelined) { raw += e->records(std::vector<string>(1, request(1, 50))); want.push_back(50); }
	size_t at = 0; if (!until([&]() { at += e->p->send(raw, at); if (!slow) e->pull(); return at >= raw.size() && asked[0] >= 1; }, 20)) { w.fail("the request is not delivered"); return; }
	spin(2); for (int k = 0; k < 2; ++k) if (!w.serve(*other, 1, k)) return;
	ctx.state(hash(51, w.story));
	if (slow) for (int i = 0; i < 10; ++i) { e->p->read(3000); spin(1); }
	std::vector<string> got; string pr; auto collect = [&]() { return until([&]() { e->pull(); pr = takeReplies(e->plain, &got); return !pr.empty() || got.size() >= want.size() || e->broken; }, 20) && pr.empty() && got.size() == want.size(); };
	if (!collect()) { w.fail("only " + ref::num(got.size()) + " responses arrived, and " + ref::num(e->plain.size()) + " bytes " + pr); return; }
	if (!pipelined && !alone) { want.push_back(50); e->p->give(e->records(std::vector<string>(1, request(1, 50)))); if (!collect()) { w.fail("no second response " + pr); return; } }
	for (size_t k = 0; k < want.size(); ++k) if (got[k] != body(k, want[k])) { w.fail("response " + ref::num(k) + " is wrong, " + ref::num(got[k].size()) + " bytes"); return; }
	if (how == 3 && !until([&]() { e->pull(); return e->closed; })) w.fail("the connection is not closed");
	spin(1); e->pull(); if (!e->plain.empty()) w.fail("more bytes than the responses"); if (how != 3 && e->closed) w.fail("the connection was closed");
	w.newcomer(2, version);
}

// The server closes a connection with or without unread output, while a newcomer is in whatever stage.
static void serverCloses(Ctx& ctx, uint64_t root)
{
	enum { Backlog, Connected, Helloed, Ready, NStage }; static const char* stages[] = { "in the backlog", "connected", "after its hello", "ready" }, *outs[] = { "unanswered", "answered", "with 5 MB of unread output", "with a started response" }, *laters[] = { "stays", "leaves after", "resets after" };
	const int version = 2 + take(root, 2), out = take(root, 4), stage = take(root, NStage), inside = take(root, 2), later = take(root, 3); TlsWorld w(ctx); const QByteArray big(5 << 20, 'x'); Conn* conn = 0; bool closed = false;
	w.story = string("closed by the server ") + (inside ? "inside requestReady " : "") + outs[out] + ", a newcomer " + stages[stage] + ", the client " + laters[later]; ctx.log("%s", w.story.c_str());
	auto close = [&]() {
		closed = true; Pillow::HttpHeaderCollection h; if (out == 1) conn->writeResponse(200, h, "small"); else if (out == 2) conn->writeResponse(200, h, big); else if (out == 3) { h << Pillow::HttpHeader("Content-Length", "100"); conn->writeHeaders(200, h); conn->writeContent("start"); }
		conn->close();
	};
	w.site.onAsk = [&](Site::Ask& a) { if (a.client == 0) { conn = a.conn; if (inside) close(); } };
	TlsEnd* e = w.connect(version); if (!e || !e->handshake()) { w.fail("the handshake fails"); return; }
	const string r = e->records(std::vector<string>(1, requestBytes(0, 0))); if (!inside) { e->p->give(r); if (!until([&]() { return conn != 0; })) { w.fail("the request is not delivered"); return; } }
	TlsEnd* x = 0; if (stage == Backlog) { Peer* p = w.site.connectPeer(); if (!p) return; w.ends.push_back(std::unique_ptr<TlsEnd>(new TlsEnd(p, version))); x = w.ends.back().get(); }
	else { x = w.connect(version); if (!x) return; if (stage == Helloed) x->p->give(x->flight()); if (stage == Ready && !x->handshake()) { w.fail("the handshake fails"); return; } }
	{ struct timespec t = { 0, 300000 }; nanosleep(&t, 0); }
	if (inside) e->p->give(r); else close(); spin(); if (!until([&]() { return closed; })) { w.fail("the request is not delivered"); return; } spin(2);
	if (later == 1) { ::close(e->p->fd); e->p->fd = -1; spin(2); } else if (later == 2) e->p->rst();
	if (stage != Ready && !x->handshake()) { w.fail("the newcomer's handshake fails"); return; } ctx.state(hash(52, w.story));
	for (int k = 0; k < 2; ++k) if (!w.serve(*x, 1, k)) return;
	if (later == 0 && !until([&]() { return e->p->ended(); })) w.fail("the client does not see that the server closed");
	w.newcomer(2, version);
}

std::vector<Suite> suitesC25(Tier t)
{
	const bool th = t == Thorough; std::vector<Suite> v; const int depth = th ? 6 : 4;
	v.push_back(retried(Suite("records", "5 kinds of requests x TLS {1.2, 1.3} x response {echo, 200000 bytes, chunked, without length} x {one record, two records cut at every byte, a record per byte, one record in two segments cut at every byte, byte by byte, two records with a segment cut} x answered at once or later", requestKinds().size() * 2 * 4 * 6 * 2, records, 120)));
	v.push_back(retried(Suite("abandon", "a client that leaves, resets or stays silent {inside the hello (each byte), after it, inside its final flight (each byte), after the handshake, inside a record (each byte)}, or sends corrupt records (each byte), hellos, garbage, plain HTTP or an alert, with none, one or two others in the middle of something", 10 * 3 * 2 * 3, abandon, 120)));
	v.push_back(retried(Suite("interleavings", "every sequence of up to " + ref::num(depth) + " events {connect, hello, handshake, whole request, half a record, the rest, leave, reset, answer} of two clients", 2 * 6, [depth](Ctx& c, uint64_t r) { interleave(c, r, depth); }, 120)));
	v.push_back(retried(Suite("sizes", "contents of 13 sizes up to 3000000 bytes {echoed, in two, chunked, closing} to a client that reads at once or slowly, followed by a pipelined or later small one, another client served meanwhile, TLS {1.2, 1.3}", 2 * 13 * 4 * 2 * 2, sizes, 120)));
	v.push_back(retried(Suite("server-closes", "a connection closed by the server inside requestReady or later with {nothing, a small response, 5 MB, a started response} written, a newcomer {in the backlog, connected, after its hello, ready}, the client then staying, leaving or resetting; TLS {1.2, 1.3}", 2 * 4 * 4 * 2 * 3, serverCloses, 120)));
	v.push_back(retried(Suite("certificates", "every sequence of 3 settings of two certificates, one connection each", 16, certificates, 120)));
	v.push_back(retried(Suite("churn", "2 rounds of {24, 25, 26, 60} simultaneous clients x {served and leaving, abandoning before or after the hello, resetting after the handshake}", 4 * 4 * 2, churn, 120)));
	return v;
}
