// C10: many clients on one server.
#include "srv.h"
using namespace mc;

struct End // A client as the model sees it.
{
	int id; std::unique_ptr<Peer> p; int sent, answered; size_t halfAt; bool gone, closing; string rest; std::vector<string> got;
	End(int id, Peer* p) : id(id), p(p), sent(0), answered(0), halfAt(0), gone(false), closing(false) {}
	bool half() const { return !rest.empty(); }
};

struct World
{
	Ctx& ctx; Site site; std::vector<std::unique_ptr<End> > ends; string story; std::map<Conn*, int> links;
	World(Ctx& ctx, Kind k) : ctx(ctx), site(k) {}
	void fail(const string& s) { ctx.fail("%s; %s:%s", s.c_str(), kindNames[site.kind], story.c_str()); }
	End* connect(bool settle = true) { Peer* p = 0; until([&]() { p = site.connectPeer(); return p != 0; }); if (!p) { fail("harness: cannot connect"); return 0; } ends.push_back(std::unique_ptr<End>(new End((int)ends.size(), p))); if (settle) spin(); return ends.back().get(); }
	bool owned(int id) { if (site.owner.empty()) return false; for (auto& o : site.owner) if (o.second == id) return true; return false; }
	string check(End& e)
	{
		const int d = (int)site.delivered[e.id].size(), want = std::min(e.sent, e.answered + 1);
		if (e.gone) { if (d > e.sent) return "more requests than were sent"; return owned(e.id) ? "the connection of a client that left is not closed" : ""; }
		const string pr = takeReplies(e.p->in, &e.got); if (!pr.empty()) return pr;
		if (d != want) return ref::num(d) + " requests were delivered instead of " + ref::num(want);
		if ((int)e.got.size() != e.answered) return ref::num(e.got.size()) + " responses were received instead of " + ref::num(e.answered);
		if (e.closing && e.answered == e.sent) { if (!e.p->ended()) return "the connection was not closed after the last response"; } else if (e.p->eof || e.p->reset) return "the connection was closed";
		for (size_t k = 0; k < e.got.size(); ++k) if (e.got[k].compare(0, Site::text(e.id, k, "").size() - 1, Site::text(e.id, k, "").substr(0, Site::text(e.id, k, "").size() - 1)) != 0) return "response " + ref::num(k) + " is [" + mc::show(e.got[k], 100) + "]";
		return "";
	}
	bool settle()
	{
		string why; End* who = 0;
		auto fine = [&]() { if (!site.problem.empty()) return true; for (auto& e : ends) { if (!e->gone) e->p->read(); if (!(why = check(*e)).empty()) { who = e.get(); return false; } } return true; };
		if (!until(fine, 4)) { fail("client " + ref::num(who->id) + ": " + why); return false; }
		spin(2); if (!until(fine, 4)) { fail("client " + ref::num(who->id) + ": " + why); return false; } // Surplus does not go away.
		if (!site.problem.empty()) { fail(site.problem); return false; }
		return true;
	}
	void answer(size_t i) { const int c = site.pending[i].client; End& e = *ends[c]; ++e.answered; site.answer(i); }
	uint64_t state() { uint64_t h = 40 + site.kind; for (auto& e : ends) { h = hash(h, e->sent * 64 + e->answered * 8 + e->half() + 2 * e->gone + 4 * e->closing); } for (auto& a : site.pending) h = hash(h, a.client * 16 + a.k); return h; }
};

static void interleave(Ctx& ctx, uint64_t root, int depth, int clients)
{
	const Kind kind = take(root, 2) ? Local : Tcp; const bool atOnce = take(root, 2); World w(ctx, kind); w.site.onAsk = [&](Site::Ask& a) { if (atOnce) { for (size_t i = 0; i < w.site.pending.size(); ++i) if (w.site.pending[i].conn == a.conn) { w.answer(i); break; } } };
	if (!w.connect()) return;
	w.story += atOnce ? " answering inside the signal; connect 0" : " connect 0"; const uint64_t first = root;
	for (int d = 0; d < depth; ++d)
	{
		struct Ev { char k; int c; }; std::vector<Ev> evs; auto add = [&](char k, int c) { Ev e = { k, c }; evs.push_back(e); };
		for (auto& e : w.ends) { if (e->gone || (e->closing && e->answered == e->sent)) continue; const int c = e->id; if (e->closing) { add('F', c); continue; } if (e->half()) { add('R', c); } else { add('W', c); add('H', c); add('2', c); add('L', c); } add('F', c); add('X', c); }
		if ((int)w.ends.size() < clients) add('C', 0);
		if (!w.site.pending.empty()) add('o', 0); if (w.site.pending.size() > 1) add('n', 0);
		if (evs.empty()) break;
		const int n = d == 0 ? (int)(first % 7) : ctx.choose((int)evs.size()); if (n >= (int)evs.size()) return; const Ev ev = evs[n]; End* e = ev.c < (int)w.ends.size() ? w.ends[ev.c].get() : 0;
		switch (ev.k)
		{
		case 'W': w.story += " whole " + ref::num(ev.c); e->p->give(requestBytes(e->id, e->sent)); ++e->sent; break;
		case 'H': { w.story += " half " + ref::num(ev.c); const string s = requestBytes(e->id, e->sent); const size_t at = s.size() - (s.compare(0, 4, "POST") == 0 ? 3 : 5); e->rest = s.substr(at); e->p->give(s.substr(0, at)); } break;
		case 'R': w.story += " rest " + ref::num(ev.c); { const string s = e->rest; e->rest.clear(); e->p->give(s); ++e->sent; } break;
		case '2': w.story += " two " + ref::num(ev.c); e->p->give(requestBytes(e->id, e->sent) + requestBytes(e->id, e->sent + 1)); e->sent += 2; break;
		case 'L': w.story += " last " + ref::num(ev.c); e->closing = true; e->p->give(requestBytes(e->id, e->sent, true)); ++e->sent; break;
		case 'F': w.story += " leave " + ref::num(ev.c); e->gone = true; if (e->p->fd >= 0) { ::close(e->p->fd); e->p->fd = -1; } spin(); break;
		case 'X': w.story += " reset " + ref::num(ev.c); e->gone = true; e->p->rst(); break;
		case 'C': w.story += " connect " + ref::num(w.ends.size()); if (!w.connect()) return; break;
		case 'o': case 'n': { const size_t i = ev.k == 'o' ? 0 : w.site.pending.size() - 1; w.story += " answer " + ref::num(w.site.pending[i].client); w.answer(i); } break;
		}
		if (!w.settle()) return;
		ctx.state(w.state());
	}
	ctx.log("%s", w.story.c_str());
	for (auto& e : w.ends) if (!e->gone && !e->closing) { if (e->half()) { const string s = e->rest; e->rest.clear(); e->p->give(s); } else e->p->give(requestBytes(e->id, e->sent)); ++e->sent; } // Everybody is still served.
	if (!w.settle()) return; while (!w.site.pending.empty()) { w.answer(w.site.pending.size() - 1); if (!w.settle()) return; }
}

// Things that the server's event loop sees all at once.
static void together(Ctx& ctx, uint64_t root, int clients)
{
	enum { Idle, Pending, Half, Absent, NPre }; static const char* preNames[] = { "idle", "with a pending request", "with half a request", "absent" };
	enum { Nothing, Whole, Leave, Reset, WholeLeave, Two, HalfReset, NAct }; static const char* actNames[] = { "nothing", "sends a request", "leaves", "resets", "sends a request and leaves", "sends two requests", "sends a part and resets" };
	const Kind kind = take(root, 2) ? Local : Tcp; const int atOnce = take(root, 2); World w(ctx, kind); std::vector<int> pre, act; for (int i = 0; i < clients; ++i) { pre.push_back(take(root, NPre)); act.push_back(take(root, NAct)); } const int order = take(root, 2);
	bool autoAnswer = false; w.site.onAsk = [&](Site::Ask& a) { if (autoAnswer) for (size_t i = 0; i < w.site.pending.size(); ++i) if (w.site.pending[i].conn == a.conn) { w.answer(i); break; } };
	for (int i = 0; i < clients; ++i) w.story += " client " + ref::num(i) + " " + preNames[pre[i]] + " " + actNames[act[i]] + ","; ctx.log("%s", w.story.c_str());
	std::vector<int> index(clients, -1);
	for (int i = 0; i < clients; ++i) if (pre[i] != Absent)
	{
		End* e = w.connect(); if (!e) return; index[i] = e->id; if (pre[i] == Pending) { e->p->give(requestBytes(e->id, 0)); e->sent = 1; } if (pre[i] == Half) { const string s = requestBytes(e->id, 0); e->rest = s.substr(20); e->p->give(s.substr(0, 20)); }
	}
	if (!w.settle()) return;
	autoAnswer = atOnce;
	for (int n = 0; n < clients; ++n)
	{
		const int i = order ? clients - 1 - n : n; if (act[i] == Nothing && pre[i] == Absent) continue;
		if (pre[i] == Absent) { if (!w.connect(false)) return; index[i] = (int)w.ends.size() - 1; }
		End& e = *w.ends[index[i]]; string s = e.half() ? e.rest : requestBytes(e.id, e.sent); const bool whole = act[i] == Whole || act[i] == WholeLeave || act[i] == Two;
		if (whole) { if (act[i] == Two) s += requestBytes(e.id, e.sent + 1); e.sent += act[i] == Two ? 2 : 1; e.rest.clear(); e.p->send(s); } else if (act[i] == HalfReset) e.p->send(s.substr(0, s.size() / 2));
		if (act[i] == Leave || act[i] == WholeLeave) { e.gone = true; ::close(e.p->fd); e.p->fd = -1; } if (act[i] == Reset || act[i] == HalfReset) { e.gone = true; e.p->hardClose(); }
	}
	{ struct timespec t = { 0, 300000 }; nanosleep(&t, 0); } spin();
	if (!w.settle()) return; ctx.state(hash(w.state(), root));
	autoAnswer = false;
	while (!w.site.pending.empty()) { w.answer(0); if (!w.settle()) return; }
	End* e = w.connect(); if (!e) return; e->p->give(requestBytes(e->id, 0)); ++e->sent; if (!w.settle()) return; w.answer(0); w.settle(); // Newcomers are served.
}

// Populations around the size of the reserve, several times over.
static void churn(Ctx& ctx, uint64_t root)
{
	static const int sizes[] = { 1, 24, 25, 26, 27, 51, 80 }; static const char* orders[] = { "in order", "in reverse order", "interleaved" }; static const char* ways[] = { "leaving", "resetting", "asking for close", "answered inside the signal", "leaving unanswered" };
	const Kind kind = take(root, 2) ? Local : Tcp; const int n = sizes[take(root, 7)], order = take(root, 3), way = take(root, 5), overlap = take(root, 2), burst = take(root, 2); World w(ctx, kind); w.story = " " + ref::num(n) + " clients, " + orders[order] + ", " + ways[way] + (overlap ? ", the next ones connecting before" : "") + (burst ? ", all at once" : ""); ctx.log("%s", w.story.c_str());
	w.site.onAsk = [&](Site::Ask& a) { if (way == 3) for (size_t i = 0; i < w.site.pending.size(); ++i) if (w.site.pending[i].conn == a.conn) { w.answer(i); break; } };
	std::vector<End*> now, before;
	for (int round = 0; round < 3; ++round)
	{
		auto arrive = [&]() { now.clear(); for (int i = 0; i < n; ++i) { End* e = w.connect(!burst); if (!e) return; now.push_back(e); if (i % 40 == 39) spin(1); } spin(); };
		auto depart = [&]() { for (int i = 0; i < (int)before.size(); ++i) { End& e = *before[order == 1 ? before.size() - 1 - i : order == 2 ? (i * 2) % before.size() + (before.size() % 2 == 0 && i * 2 >= (int)before.size() ? 1 : 0) : i]; if (e.gone || e.closing) continue; e.gone = true; if (way == 1) { if (burst) e.p->hardClose(); else e.p->rst(); } else { ::close(e.p->fd); e.p->fd = -1; if (!burst) spin(1); } } spin(); before.clear(); };
		if (overlap) arrive(); depart(); if (!w.settle()) return; if (!overlap) arrive(); if (ctx.failed()) return;
		for (End* e : now) { const string s = requestBytes(e->id, e->sent, way == 2); e->closing = way == 2; ++e->sent; if (burst) e->p->send(s); else e->p->give(s); }
		if (burst) { struct timespec t = { 0, 500000 }; nanosleep(&t, 0); }
		if (!w.settle()) return;
		if (way != 4) while (!w.site.pending.empty()) w.answer(order == 1 ? w.site.pending.size() - 1 : order == 2 ? w.site.pending.size() / 2 : 0);
		if (!w.settle()) return; ctx.state(hash(w.state(), round)); before = now;
	}
}

// What is done inside the closed() and requestReady() signals of other clients' connections.
static void inSignals(Ctx& ctx, uint64_t root, int others)
{
	static const char* places[] = { "closed", "requestReady", "requestCompleted" }; static const char* acts[] = { "close all others", "answer all others", "close this and all others", "close the last" };
	const Kind kind = take(root, 2) ? Local : Tcp; const int place = take(root, 3), act = take(root, 4), trigger = take(root, 3), reserve = take(root, 5); static const int extra[] = { 0, 20, 30, 0, 0 }, leavers[] = { 0, 0, 0, 24, 40 };
	World w(ctx, kind); w.story = string(" in ") + places[place] + ": " + acts[act] + ", " + ref::num(extra[reserve]) + " more clients, " + ref::num(leavers[reserve]) + " others having left, the first " + (trigger == 0 ? "leaves" : trigger == 1 ? "is answered" : "sends another request"); ctx.log("%s", w.story.c_str());
	const int n = others + extra[reserve], gone = leavers[reserve]; bool armed = false; Conn* first = 0; std::vector<QPointer<Conn> > conns;
	for (int i = 0; i < n; ++i) { End* e = w.connect(); if (!e) return; e->p->give(requestBytes(e->id, 0, i == 0 && trigger == 1 && place == 0)); e->sent = 1; if (i == 0 && trigger == 1 && place == 0) e->closing = true; }
	for (int i = 0; i < gone; ++i) { End* e = w.connect(); if (!e) return; e->p->give(requestBytes(e->id, 0)); e->sent = 1; }
	if (!w.settle()) return; for (int i = 0; i < n; ++i) conns.push_back(w.site.pending[i].conn);
	for (int i = n; i < n + gone; ++i) { w.ends[i]->gone = true; ::close(w.ends[i]->p->fd); w.ends[i]->p->fd = -1; } spin(); if (!w.settle()) return; first = conns[0]; if ((int)conns.size() != n) { w.fail("harness: not all are there"); return; }
	auto run = [&]() {
		if (!armed) return; armed = false;
		if (act == 0 || act == 2) { for (auto& e : w.ends) if (e->id || act == 2) e->gone = true; for (size_t i = 1; i < conns.size(); ++i) if (conns[i]) conns[i]->close(); if (act == 2 && conns[0]) conns[0]->close(); }
		if (act == 1) for (size_t i = 0; i < w.site.pending.size();) if (w.site.pending[i].client != 0) w.answer(i); else ++i;
		if (act == 3) { w.ends[n - 1]->gone = true; if (conns[n - 1]) conns[n - 1]->close(); }
	};
	w.site.onClosed = [&](Conn* c) { if (place == 0 && c == first) run(); }; w.site.onAsk = [&](Site::Ask& a) { if (place == 1 && a.conn == first) run(); }; if (place == 2) QObject::connect(first, &Conn::requestCompleted, [&](Conn*) { run(); });
	armed = true; End& e = *w.ends[0];
	if (trigger == 0) { if (place != 0) return; e.gone = true; ::close(e.p->fd); e.p->fd = -1; spin(); }
	else if (trigger == 1) { if (place == 1) return; w.answer(0); spin(); }
	else { w.answer(0); if (place == 0) return; if (!armed) {} else { e.p->give(requestBytes(0, e.sent)); ++e.sent; if (place == 2) { for (size_t i = 0; i < w.site.pending.size(); ++i) if (w.site.pending[i].client == 0) { w.answer(i); break; } } } spin(); }
	if (armed && !until([&]() { return !armed; })) { w.fail("the signal did not come"); return; }
	if (!w.settle()) return; ctx.state(hash(w.state(), root));
	for (int i = 0; i < 30; ++i) { End* x = w.connect(); if (!x) return; x->p->give(requestBytes(x->id, 0)); x->sent = 1; } // And a reserve's worth of newcomers.
	if (!w.settle()) return; while (!w.site.pending.empty()) w.answer(w.site.pending.size() - 1); w.settle();
}

// A client that reads slowly, an echoed request content of any size, pipelined requests meanwhile, and another client.
static void slowReader(Ctx& ctx, uint64_t root)
{
	static const int sizes[] = { 0, 1, 4095, 4096, 4097, 16384, 70000, 1000000, 7000000 }; const Kind kind = take(root, 2) ? Local : Tcp; const int size = sizes[take(root, 9)], follow = take(root, 4), how = take(root, 4), end = take(root, 3);
	static const char* follows[] = { "alone", "followed by a small request", "followed by an equal request", "followed later by a small request" }, *hows[] = { "echoed", "echoed in two", "echoed as a copy", "echoed chunked" }, *endsN[] = { "read to the end", "left halfway", "closed by the server after" };
	World w(ctx, kind); w.story = " content of " + ref::num(size) + " bytes " + follows[follow] + ", " + hows[how] + ", " + endsN[end]; ctx.log("%s", w.story.c_str()); std::vector<int> asked(2, 0); const bool close = end == 2;
	w.site.onAsk = [&](Site::Ask& a) {
		w.site.pending.pop_back(); Conn* c = a.conn; ++asked[a.client]; const QByteArray& content = c->requestContent(); Pillow::HttpHeaderCollection h; const QByteArray n = QByteArray::number(content.size());
		switch (how)
		{
		case 0: c->writeResponse(200, h, content); break;
		case 1: h << Pillow::HttpHeader("Content-Length", n); c->writeHeaders(200, h); if (content.size() > 0) { c->writeContent(content.left(content.size() / 2)); c->writeContent(content.mid(content.size() / 2)); } break;
		case 2: c->writeResponse(200, h, QByteArray(content.constData(), content.size())); break;
		case 3: h << Pillow::HttpHeader("Transfer-Encoding", "chunked"); c->writeHeaders(200, h); c->writeContent(content); c->endContent(); break;
		}
	};
	End* e = w.connect(); End* other = w.connect(); if (!e || !other) return;
	auto body = [](int k, int n) { return ref::pattern(n, k); }; auto request = [&](int k, int n, bool last) { return "POST /c0/r" + ref::num(k) + " HTTP/1.1\r\nHost: h\r\n" + (last ? "Connection: close\r\n" : "") + "Content-Length: " + ref::num(n) + "\r\n\r\n" + body(k, n); };
	std::vector<int> want(1, size); string s = request(0, size, close && (follow == 0)); const int second = follow == 2 ? size : 100; if (follow == 1 || follow == 2) { s += request(1, second, close); want.push_back(second); }
	size_t at = 0; if (!until([&]() { at += e->p->send(s, at); return at >= s.size() && asked[0] == (int)want.size(); }, 20)) { w.fail("the request is not delivered"); return; }
	spin(2); if (follow == 3) { const string x = request(1, second, close); want.push_back(second); at = 0; if (!until([&]() { at += e->p->send(x, at); return at >= x.size() && asked[0] == 2; }, 20)) { w.fail("the second request is not delivered"); return; } }
	for (int k = 0; k < 2; ++k) // Meanwhile, somebody else.
	{
		other->p->give(requestBytes(1, k)); std::vector<string> texts; if (!until([&]() { other->p->read(); return other->p->in.find("\r\n\r\n") != string::npos && asked[1] == k + 1; }) ) { w.fail("the other client is not served"); return; }
		spin(1); other->p->read(); const string pr = takeReplies(other->p->in, &texts); if (!pr.empty() || texts.size() != 1 || texts[0] != bodyOf(1, k)) { w.fail("the other client got a wrong response " + pr); return; }
	}
	ctx.state(hash(w.state(), root * 31 + size));
	// The slow reader goes on, a little at a time at first.
	std::vector<string> got; size_t total = 0; string problem; const size_t all = (size_t)size * want.size();
	for (int i = 0; i < 20; ++i) { e->p->read(3000); spin(1); }
	
	if (end == 1) { e->p->hardClose(); spin(2); w.site.onAsk = nullptr; e->gone = true; End* x = w.connect(); if (!x) return; x->p->give(requestBytes(x->id, 0)); x->sent = 1; if (!until([&]() { return w.site.delivered[x->id].size() == 1; })) w.fail("no longer served"); return; }
	if (!until([&]() { e->p->read(); problem = takeReplies(e->p->in, &got); total += 0; return !problem.empty() || (got.size() >= want.size() && (!close || e->p->ended())) || (e->p->ended() && got.size() >= want.size()); }, 20)) { w.fail("only " + ref::num(got.size()) + " responses arrived, and " + ref::num(e->p->in.size()) + " bytes"); return; }
	(void)all; if (!problem.empty()) { w.fail(problem); return; }
	spin(1); e->p->read(); if (!e->p->in.empty()) { w.fail("more bytes than the responses"); return; }
	for (size_t k = 0; k < want.size(); ++k) if (got[k] != body(k, want[k])) { size_t d = 0; const string b = body(k, want[k]); while (d < b.size() && d < got[k].size() && b[d] == got[k][d]) ++d; w.fail("response " + ref::num(k) + " has " + ref::num(got[k].size()) + " bytes and differs at " + ref::num(d) + " of " + ref::num(b.size())); return; }
	if (!close && (e->p->eof || e->p->reset)) w.fail("the connection was closed");
}

// The server closes connections that still have output, while newcomers are waiting to be accepted.
static void serverCloses(Ctx& ctx, uint64_t root)
{
	static const char* outs[] = { "unanswered", "answered", "with 5 MB of unread output", "with a started response", "with unread output of a started response" }, *wheres[] = { "from outside", "in requestReady", "in closed() of the other", "in a newcomer's requestReady" }; static const char* laters[] = { "stays", "leaves after", "resets after" };
	const Kind kind = take(root, 2) ? Local : Tcp; const int out = take(root, 5), where = take(root, 4), newcomers = take(root, 3), later = take(root, 3), leavers = 1 + take(root, 2), before = take(root, 2);
	if (where == 2 && leavers == 1) return; if (where == 3 && newcomers == 0) return;
	World w(ctx, kind); w.story = " " + ref::num(leavers) + " connections closed by the server " + wheres[where] + ", " + outs[out] + ", " + ref::num(newcomers) + " newcomers " + (before ? "connected before" : "in the backlog") + ", the client " + laters[later]; ctx.log("%s", w.story.c_str());
	const QByteArray big(5 << 20, 'x'); std::vector<Conn*> conns; bool closed = false; End* fresh[2] = { 0, 0 };
	auto closeOne = [&](int i) {
		Conn* c = conns[i]; End& e = *w.ends[i]; e.gone = true; Pillow::HttpHeaderCollection h;
		if (out == 1) c->writeResponse(200, h, "small"); else if (out == 2) c->writeResponse(200, h, big); else if (out >= 3) { h << Pillow::HttpHeader("Content-Length", QByteArray::number(big.size() * 2)); c->writeHeaders(200, h); c->writeContent(out == 3 ? QByteArray("start") : big); }
		c->close();
	};
	auto closeAll = [&]() { if (closed) return; closed = true; for (int i = 0; i < leavers; ++i) if (!w.ends[i]->gone) closeOne(i); };
	for (int i = 0; i < leavers; ++i) { End* e = w.connect(); if (!e) return; if (where == 1 && i == leavers - 1) break; e->p->give(requestBytes(e->id, 0)); e->sent = 1; }
	if (before) for (int i = 0; i < newcomers; ++i) if (!(fresh[i] = w.connect())) return;
	if (!w.settle()) return; for (auto& a : w.site.pending) conns.push_back(a.conn);
	w.site.onAsk = [&](Site::Ask& a) { if (where == 1 && a.client == leavers - 1) { conns.push_back(a.conn); closeAll(); } if (where == 3 && a.client >= leavers) closeAll(); };
	w.site.onClosed = [&](Conn* c) { if (where == 2 && !closed && !conns.empty() && c == conns[0]) { closed = true; closeOne(1); } };
	auto arrive = [&]() { for (int i = 0; i < newcomers; ++i) { if (!before) if (!(fresh[i] = w.connect(false))) return; fresh[i]->p->send(requestBytes(fresh[i]->id, 0)); fresh[i]->sent = 1; } };
	const bool early = ctx.choose(2); // Which the event loop finds first.
	if (early) arrive(); if (where == 1) { End& e = *w.ends[leavers - 1]; e.p->send(requestBytes(e.id, 0)); e.sent = 1; } if (!early) arrive(); if (ctx.failed()) return;
	{ struct timespec t = { 0, 300000 }; nanosleep(&t, 0); }
	if (where == 0) closeAll(); if (where == 2) closeOne(0);
	spin(); if ((where == 1 || where == 3) && !until([&]() { return closed; })) { w.fail("the request was not delivered"); return; }
	if (!w.settle()) return; ctx.state(hash(w.state(), root * 2 + early));
	for (int i = 0; i < leavers; ++i) { End& e = *w.ends[i]; if (later == 1) { ::close(e.p->fd); e.p->fd = -1; } else if (later == 2) e.p->rst(); } spin(2);
	if (!w.settle()) return; while (!w.site.pending.empty()) w.answer(0); if (!w.settle()) return;
	if (later == 0) for (int i = 0; i < leavers; ++i) if (!until([&]() { return w.ends[i]->p->ended(); })) { w.fail("the client does not see that the server closed"); return; }
	for (int i = 0; i < newcomers; ++i) { fresh[i]->p->give(requestBytes(fresh[i]->id, 1)); fresh[i]->sent = 2; } if (!w.settle()) return; while (!w.site.pending.empty()) w.answer(0); w.settle();
}

// The server goes away, or stops listening, with clients in every stage.
static void lifetimes(Ctx& ctx, uint64_t root)
{
	enum { Idle, Half, HalfBody, Pending, Answered, Sending, Left, NStage }; static const char* names[] = { "idle", "half a head", "half a content", "pending", "answered", "with unread output", "just left" };
	const Kind kind = take(root, 2) ? Local : Tcp; const int what = take(root, 3); World w(ctx, kind); string big(3000000, 'x'); w.story = what == 0 ? " server deleted" : what == 1 ? " server deleted inside requestReady" : " server closed"; std::vector<int> st;
	for (int i = 0; i < 2; ++i) { st.push_back(take(root, NStage)); w.story += string(", client ") + names[st[i]]; } ctx.log("%s", w.story.c_str());
	for (int i = 0; i < 2; ++i)
	{
		End* e = w.connect(); if (!e) return; const string s = requestBytes(e->id, e->id == 0 ? 0 : 0); const string post = requestBytes(e->id, 0, false, 20);
		switch (st[i])
		{
		case Half: e->rest = s.substr(10); e->p->give(s.substr(0, 10)); break;
		case HalfBody: e->rest = post.substr(post.size() - 5); e->p->give(post.substr(0, post.size() - 5)); break;
		case Pending: e->p->give(s); e->sent = 1; break;
		case Answered: e->p->give(s); e->sent = 1; if (!w.settle()) return; w.answer(w.site.pending.size() - 1); break;
		case Sending: { e->p->give(s); e->sent = 1; if (!until([&]() { return !w.site.pending.empty() && w.site.pending.back().client == e->id; })) { w.fail("no request"); return; } Conn* c = w.site.pending.back().conn; w.site.pending.pop_back(); c->writeHeaders(200, Pillow::HttpHeaderCollection() << Pillow::HttpHeader("Content-Length", "30000000")); c->writeContent(qb(big)); c->writeContent(qb(big)); spin(1); } break;
		case Left: { ::close(e->p->fd); e->p->fd = -1; e->gone = true; } break;
		}
	}
	if (what == 2)
	{
		if (kind == Tcp) static_cast<Pillow::HttpServer*>(w.site.server.get())->close(); else static_cast<Pillow::HttpLocalServer*>(w.site.server.get())->close(); spin();
		for (int i = 0; i < 2; ++i) { End& e = *w.ends[i]; if (st[i] == Idle) { e.p->give(requestBytes(e.id, 0)); e.sent = 1; } if (st[i] == Half || st[i] == HalfBody) { const string s = e.rest; e.rest.clear(); e.p->give(s); e.sent = 1; } if (st[i] == Sending) { e.gone = true; e.p->hardClose(); } }
		if (!w.settle()) return; while (!w.site.pending.empty()) { w.answer(0); if (!w.settle()) return; } ctx.state(hash(w.state(), root)); return;
	}
	if (what == 1) { End* e = w.connect(); if (!e) return; w.site.onAsk = [&](Site::Ask&) { w.site.server->deleteLater(); w.site.server.release(); }; e->p->give(requestBytes(e->id, 0)); e->sent = 1; if (!until([&]() { return !w.site.server; })) { w.fail("no request"); return; } }
	else w.site.server.reset();
	spin(4); ctx.state(hash(41, root * 2 + kind));
	for (auto& e : w.ends) if (!e->gone && !until([&]() { e->p->in.clear(); return e->p->ended(); })) { w.fail("client " + ref::num(e->id) + " is still connected"); return; }
	if (!w.site.watched.empty()) w.fail("connections were not destroyed with the server");
}

// Clients one after the other, many of them: each is served, and none leaves anything behind.
static void succession(Ctx& ctx, uint64_t root, int total)
{
	static const char* ways[] = { "answered, leaves", "answered inside the signal, leaves", "Connection: close", "leaves unanswered", "resets unanswered", "leaves with half a request", "sends nothing", "two at a time" };
	const Kind kind = take(root, 2) ? Local : Tcp; const int way = take(root, 8); Site site(kind); site.answerAtOnce = way == 1; long long before = 0; const int warm = total / 2; int dead = 0;
	ctx.log("%s, %s", kindNames[kind], ways[way]);
	for (int i = 0; i < total && !ctx.failed(); ++i)
	{
		if (i == warm) { spin(4); before = liveBytes(); }
		std::unique_ptr<Peer> a(site.connectPeer()), b(way == 7 ? site.connectPeer() : 0); if (!a || !a->fd) { ctx.fail("client %d cannot connect", i); return; }
		site.delivered.clear(); site.owner.clear();
		const string s = requestBytes(1, 0, way == 2), s2 = requestBytes(2, 0);
		if (way == 5) { a->give(s.substr(0, 20)); spin(2); }
		else if (way == 6) spin(3);
		else
		{
			a->give(s); if (b) b->give(s2);
			if (!until([&]() { return site.delivered[1].size() == 1 && (!b || site.delivered[2].size() == 1); })) { ctx.fail("%s, %s: the request of client %d is not delivered", kindNames[kind], ways[way], i); return; }
			if (way != 3 && way != 4)
			{
				while (!site.pending.empty()) site.answer(0);
				for (Peer* p : { a.get(), b.get() }) if (p)
				{
					std::vector<string> got; string problem; if (!until([&]() { p->read(); problem = takeReplies(p->in, &got); return !problem.empty() || !got.empty(); })) { ctx.fail("%s, %s: no response to client %d", kindNames[kind], ways[way], i); return; }
					if (!problem.empty() || got[0] != Site::text(p == a.get() ? 1 : 2, 0, "")) { ctx.fail("%s, %s: client %d got %s %s", kindNames[kind], ways[way], i, problem.c_str(), got.empty() ? "" : got[0].c_str()); return; }
				}
				if (way == 2 && !until([&]() { return a->ended(); })) { ctx.fail("%s, %s: connection of client %d stays open", kindNames[kind], ways[way], i); return; }
			}
		}
		const int closes = site.closes; if (way == 4) a->hardClose(); else { ::close(a->fd); a->fd = -1; } if (b) { ::close(b->fd); b->fd = -1; }
		if (way < 5 && way != 2 && !until([&]() { return site.closes > closes; })) { ctx.fail("%s, %s: closed() missing for client %d", kindNames[kind], ways[way], i); return; }
		spin(way == 5 || way == 6 ? 4 : 2); if (!site.problem.empty()) { ctx.fail("%s, %s, client %d: %s", kindNames[kind], ways[way], i, site.problem.c_str()); return; }
		site.pending.clear(); ctx.step(); (void)dead;
	}
	spin(6); const long long growth = liveBytes() - before; ctx.state(hash(51, root * 16 + kind * 8 + way)); ctx.log("grew by %lld bytes", growth);
	if (before && growth > (long long)(total - warm) * 400) ctx.fail("%s, %s: memory in use grew by %lld bytes over %d clients that are all gone", kindNames[kind], ways[way], growth, total - warm);
}

std::vector<Suite> suitesC10(Tier t)
{
	const bool th = t == Thorough; std::vector<Suite> v; const int depth = th ? 6 : 4, n = th ? 3 : 2;
	v.push_back(retried(Suite("interleavings", "every sequence of up to " + ref::num(depth) + " events {connect, whole request, half, the rest, two pipelined, last request, leave, reset, answer the oldest or the newest} of up to 3 clients, answered later or inside the signal, over TCP and local sockets; all deliveries and responses compared after each event", 2 * 2 * 7, [depth](Ctx& c, uint64_t r) { interleave(c, r, depth, 3); }, 120)));
	uint64_t k = 4 * 2; for (int i = 0; i < n; ++i) k *= 4 * 7;
	v.push_back(retried(Suite("together", ref::num(n) + " clients, each {idle, with a pending request, with half a request, absent} and doing {nothing, request, leave, reset, request and leave, two requests, part and reset}, all seen by the event loop at once, both orders, both answer modes, both socket kinds", k, [n](Ctx& c, uint64_t r) { together(c, r, n); }, 120)));
	v.push_back(retried(Suite("churn", "3 rounds of {1, 24, 25, 26, 27, 51, 80} simultaneous clients x order of answers and departures x {leaving, resetting, Connection: close, answered inside the signal, leaving unanswered} x next round connecting before or after x one by one or all at once x socket kinds", 2 * 7 * 3 * 5 * 2 * 2, churn, 120)));
	const int total = th ? 2000 : 300;
	v.push_back(retried(Suite("succession", ref::num(total) + " clients one after the other x {answered and leaving, answered inside the signal, Connection: close, leaving or resetting unanswered, half a request, nothing sent, in pairs} x socket kinds: each is served, memory in use does not grow", 2 * 8, [total](Ctx& c, uint64_t r) { succession(c, r, total); }, 120)));
	v.push_back(retried(Suite("in-signals", "{close, answer} all or some others inside closed(), requestReady() and requestCompleted() of one of 3, 23 and 33 connections, or of 3 after 24 or 40 others have left, then 30 newcomers", 2 * 3 * 4 * 3 * 5, [](Ctx& c, uint64_t r) { inSignals(c, r, 3); }, 120)));
	v.push_back(retried(Suite("slow-reader", "request contents of {0, 1, 4095, 4096, 4097, 16384, 70000, 1000000, 7000000} bytes echoed {whole, in two, as a copy, chunked} to a client that does not read, {alone, followed by a small or equal pipelined request, or later by one}, then read slowly to the end, left halfway or closed by the server; another client served meanwhile", 2 * 9 * 4 * 4 * 3, slowReader, 120)));
	v.push_back(retried(Suite("server-closes", "1 or 2 connections closed by the server {outside, inside requestReady, in closed() of the other, in a newcomer's requestReady} with {nothing, a small response, 5 MB, a started response, one with unread output} written, 0 to 2 newcomers with requests already there or still in the listener's backlog, the client then staying, leaving or resetting: newcomers are served", 2 * 5 * 4 * 3 * 3 * 2 * 2, serverCloses, 120)));
	v.push_back(retried(Suite("lifetimes", "the server deleted (also inside requestReady) or closed, with two clients in each of 7 stages", 2 * 3 * 49, lifetimes, 120)));
	return v;
}
