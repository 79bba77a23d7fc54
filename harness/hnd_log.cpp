// C15: the access log, in lock step with a reference log.
#include "handlers.h"
#include "net.h"
#include "HttpServer.h"
#include <memory>
using namespace mc;
typedef Pillow::HttpConnection Conn;

struct Line { std::string kind, request; int status; long long length; };
static bool parseLine(const QString& s, Line* l)
{
	static const QRegularExpression re("^(\\[BEGIN\\] |\\[ END \\] |\\[CLOSE\\] |)(\\S*) - - \\[\\d\\d/\\S+/\\d\\d\\d\\d \\d\\d:\\d\\d:\\d\\d\\] \"(.*)\" (\\S+) (\\S+) (\\S+)$");
	const QRegularExpressionMatch m = re.match(s); if (!m.hasMatch()) return false;
	l->kind = su(m.captured(1).trimmed()); l->request = su(m.captured(3)); l->status = m.captured(4).toInt(); l->length = m.captured(5).toLongLong();
	return true;
}
static std::string show(const Line& l) { return (l.kind.empty() ? std::string("(line)") : l.kind) + " \"" + l.request + "\" " + ref::num(l.status) + " " + ref::num(l.length); }

enum Op { Req, ReqBypass, RespFixed, RespUnknown, RespHead, Garbage, ServerClose, DeviceClose, Delete, Reinit, NConnOps, Mode = NConnOps, SinkNull, SinkOther, SinkDelete, HandlerDelete, NOps };
static const char* opNames[] = { "request", "request not through the handler", "complete answer", "answer of unknown length", "headers of an answer", "malformed input", "close by the server", "disconnect", "connection deleted", "connection reinitialised", "mode toggled", "log to nothing", "log to another device", "log device deleted", "handler deleted" };

static std::string uriOf(int conn, int n)
{
	static const char* suffix[] = { "", "?x=%2F1", "/%31%20a", "/%06%07%08", "?q=%25", "/a%0Ab", "/caf\xc3\xa9", "/%11%01" };
	return "/c" + ref::num(conn) + "-" + ref::num(n) + suffix[(conn * 3 + n * 2 + n / 4) % 8];
}

struct Client
{
	MemDevice* dev; std::unique_ptr<Conn> conn; int id, sent; bool through, open; int served;
	std::vector<ref::Request> pending; // Delivered or queued, not yet completed. The first is in service.
	std::vector<bool> bypass;
	bool sessionThrough; ref::Request last; bool headersOnly;
	Client() : dev(0), id(0), sent(0), through(false), open(false), served(0), sessionThrough(false), headersOnly(false) {}
};

struct World
{
	std::vector<std::unique_ptr<Client> > cl; Pillow::HttpHandlerLog* h; QBuffer* sinks[2]; int sink; bool trace; std::vector<Line> expect[2]; std::string ops; int maxRequests;
	World(int n) : h(0), sink(0), trace(false)
	{
		for (int i = 0; i < 2; ++i) { sinks[i] = new QBuffer; sinks[i]->open(QIODevice::ReadWrite); }
		h = new Pillow::HttpHandlerLog(sinks[0]);
		for (int i = 0; i < n; ++i) { cl.push_back(std::unique_ptr<Client>(new Client)); Client* k = cl.back().get(); k->id = i; k->conn.reset(new Conn); QObject::connect(k->conn.get(), &Conn::requestReady, [this, k](Conn* c) { ready(k, c); }); start(k); }
	}
	~World() { delete h; for (size_t i = 0; i < cl.size(); ++i) { cl[i]->conn.reset(); delete cl[i]->dev; } delete sinks[0]; delete sinks[1]; }
	void start(Client* k) { if (k->dev) k->dev->deleteLater(); k->dev = new MemDevice; k->conn->initialize(k->dev, k->dev); k->open = true; k->pending.clear(); k->bypass.clear(); k->served = 0; k->sessionThrough = false; k->headersOnly = false; }
	void expectLine(const char* kind, const ref::Request& q, int status, long long length) { if (sink < 0 || !h || !sinks[sink]) return; Line l; l.kind = kind; l.request = q.method + " " + q.target() + " " + q.version; l.status = status; l.length = length; expect[sink].push_back(l); }
	void ready(Client* k, Conn* c)
	{
		const ref::Request& q = k->pending[0];
		if (k->bypass[0] || !h) return;
		if (trace) expectLine("[BEGIN]", q, 0, 0);
		k->through = true; k->sessionThrough = true; k->last = q;
		h->handleRequest(c);
	}
	void completes(Client* k, int status, long long length) { if (k->through) expectLine(trace ? "[ END ]" : "", k->pending[0], status, length); k->pending.erase(k->pending.begin()); k->bypass.erase(k->bypass.begin()); k->headersOnly = false; }
	void closes(Client* k) { if (!k->open) return; k->open = false; if (k->sessionThrough && trace) expectLine("[CLOSE]", k->last, 0, 0); k->sessionThrough = false; }

	bool enabled(int op, int i) const
	{
		const Client* k = i >= 0 ? cl[i].get() : 0;
		switch (op)
		{
		case Req: return k->conn && k->open && k->sent < 4 && k->pending.size() < 2;
		case ReqBypass: return k->conn && k->open && !k->through && k->sent < 4 && k->pending.empty();
		case RespFixed: return k->conn && k->open && !k->pending.empty();
		case RespUnknown: case RespHead: return k->conn && k->open && !k->pending.empty() && !k->headersOnly;
		case Garbage: return k->conn && k->open && k->pending.empty();
		case ServerClose: case DeviceClose: return k->conn && k->open;
		case Delete: return k->conn != 0;
		case Reinit: return k->conn && !k->open;
		case SinkNull: case SinkOther: return h != 0;
		case SinkDelete: return sink >= 0 && sinks[sink] != 0;
		case Mode: case HandlerDelete: return h != 0;
		}
		return false;
	}
	void run(int op, int i)
	{
		Client* k = i >= 0 ? cl[i].get() : 0; ops += std::string("; ") + opNames[op] + (i >= 0 ? " (" + ref::num(i) + ")" : "");
		switch (op)
		{
		case Req: case ReqBypass:
		{
			ref::Request q; q.uri = uriOf(k->id, k->sent); if (k->sent == 1) { q.method = "POST"; q.content("some content"); } if (k->sent == 2) { q.version = "HTTP/1.0"; q.h("Connection", "keep-alive"); }
			++k->sent; k->pending.push_back(q); k->bypass.push_back(op == ReqBypass); k->dev->give(q.bytes());
		} break;
		case RespFixed:
			if (k->headersOnly) { completes(k, 202, 3); k->conn->writeContent("abc"); }
			else { const int status = k->sent % 2 ? 200 : 404; completes(k, status, 5 + k->sent); k->conn->writeResponse(status, Pillow::HttpHeaderCollection(), qb(ref::text(5 + k->sent))); }
			break;
		case RespUnknown: completes(k, 503, -1); closes(k); k->conn->writeHeaders(503); k->conn->writeContent("some"); k->conn->endContent(); break;
		case RespHead: k->conn->writeHeaders(202, Pillow::HttpHeaderCollection() << Pillow::HttpHeader("Content-Length", "3")); k->headersOnly = true; break;
		case Garbage: closes(k); k->dev->give("garbage\r\n\r\n"); break;
		case ServerClose: closes(k); k->conn->close(); break;
		case DeviceClose: closes(k); k->dev->close(); break;
		case Delete: k->open = false; k->conn.reset(); break;
		case Reinit: start(k); break;
		case Mode: trace = !trace; h->setMode(trace ? Pillow::HttpHandlerLog::TraceRequests : Pillow::HttpHandlerLog::LogCompletedRequests); break;
		case SinkNull: sink = -1; h->setDevice(0); break;
		case SinkOther: sink = sink == 1 ? 0 : 1; h->setDevice(sinks[sink]); break;
		case SinkDelete: delete sinks[sink]; sinks[sink] = 0; break;
		case HandlerDelete: delete h; h = 0; break;
		}
	}
	std::string check() const
	{
		for (int s = 0; s < 2; ++s) if (sinks[s])
		{
			const QStringList lines = QString::fromUtf8(sinks[s]->data()).split('\n');
			for (size_t i = 0; i < expect[s].size() || i + 1 < (size_t)lines.size(); ++i)
			{
				if (i + 1 >= (size_t)lines.size()) return "missing line " + show(expect[s][i]);
				Line l; if (!parseLine(lines[(int)i], &l)) return "not a log line: " + su(lines[(int)i]);
				if (i >= expect[s].size()) return "extra line: " + su(lines[(int)i]);
				const Line& e = expect[s][i];
				if (l.kind != e.kind || l.request != e.request || ((e.kind.empty() || e.kind == "[ END ]") && (l.status != e.status || l.length != e.length))) return "line " + ref::num(i + 1) + " is: " + su(lines[(int)i]) + ", should be: " + show(e);
			}
			if (!lines.back().isEmpty()) return "unterminated line";
		}
		return "";
	}
};

// Over TCP, through a server that reuses its connection objects: entries name the client, and tell how long the request took.
static Peer* connectFrom(const std::string& from, const std::string& ip, int port)
{
	int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; inet_pton(AF_INET, from.c_str(), &a.sin_addr);
	if (bind(fd, (struct sockaddr*)&a, sizeof a) != 0) { ::close(fd); return 0; }
	a.sin_port = htons(port); inet_pton(AF_INET, ip.c_str(), &a.sin_addr); if (connect(fd, (struct sockaddr*)&a, sizeof a) != 0) { ::close(fd); return 0; }
	return new Peer(fd);
}
static void overTcp(Ctx& ctx, uint64_t root, int depth)
{
	const bool trace = take(root, 2); const int wait = take(root, 2) ? 25 : 0; const int clients = 2; std::vector<int> firsts; for (int i = 0; i < 2; ++i) firsts.push_back(take(root, 2 * clients));
	char b[40]; const int net = nextLoopback(); snprintf(b, sizeof b, "127.%d.%d.%d", 130 + (getpid() & 63), net >> 8, 1 + (net & 0xff) % 254);
	Pillow::HttpServer server(QHostAddress(QString(b)), 0); if (!server.isListening()) { fprintf(stderr, "cannot listen\n"); _exit(77); }
	QBuffer sink; sink.open(QIODevice::ReadWrite); Pillow::HttpHandlerLog log(&sink); if (trace) log.setMode(Pillow::HttpHandlerLog::TraceRequests);
	struct One { std::unique_ptr<Peer> p; QPointer<Conn> at; std::string from, uri; double asked; int n, gets; }; std::vector<One> v(clients); struct Want { Line l; std::string from; double low, high; bool timed; }; std::vector<Want> want; std::string story; int arrivals = 0, closings = 0, froms = 0; std::map<std::string, QPointer<Conn> > delivered;
	QObject tag; std::vector<Conn*> known;
	QObject::connect(&server, &Pillow::HttpServer::requestReady, &tag, [&](Conn* c) { ++arrivals; delivered[sb(c->requestUri())] = c; if (std::find(known.begin(), known.end(), c) == known.end()) { known.push_back(c); QObject::connect(c, &Conn::closed, &tag, [&](Conn*) { ++closings; }); QObject::connect(c, &QObject::destroyed, &tag, [&, c]() { known.erase(std::remove(known.begin(), known.end(), c), known.end()); }); } log.handleRequest(c); });
	auto expectLine = [&](const char* kind, One& o, int status, long long length) -> Want& { Want w; w.l.kind = kind; w.l.request = "GET " + o.uri + " HTTP/1.1"; w.l.status = status; w.l.length = length; w.from = o.from; w.low = w.high = 0; w.timed = false; want.push_back(w); return want.back(); };
	for (int i = 0; i < clients; ++i) v[i].n = v[i].gets = 0;
	for (int s = 0; s < depth && !ctx.failed(); ++s)
	{
		int who, what; // 0: sends a request (connecting first, from an address of its own), 1: gets its answer, 2: leaves.
		if (s < 2) { who = firsts[s] / 2; what = firsts[s] % 2 ? 2 : 0; if (v[who].at ? what == 0 : what == 2) return; if (what == 2 && !v[who].p) return; }
		else { std::vector<std::pair<int, int> > can; for (int i = 0; i < clients; ++i) { if (v[i].at) can.push_back(std::make_pair(i, 1)); else can.push_back(std::make_pair(i, 0)); if (v[i].p) can.push_back(std::make_pair(i, 2)); } const std::pair<int, int> e = can[ctx.choose((int)can.size())]; who = e.first; what = e.second; }
		One& o = v[who]; story += std::string(" ") + "ab"[who] + "ral"[what];
		if (what == 0)
		{
			if (!o.p) { char f[40]; const int k = ++froms; snprintf(f, sizeof f, "127.%d.%d.%d", 200 + who, 1 + (net & 0x7f), k); o.from = f; o.p.reset(connectFrom(f, b, server.serverPort())); if (!o.p) { fprintf(stderr, "cannot connect\n"); _exit(77); } o.gets = 0; }
			o.uri = "/" + std::string(1, "ab"[who]) + ref::num(++o.n); const int before = arrivals; const double at = netNow(); o.asked = at; if (trace) expectLine("[BEGIN]", o, 0, 0);
			o.p->give("GET " + o.uri + " HTTP/1.1\r\nHost: h\r\n\r\n"); if (!until([&]() { return arrivals > before; })) { ctx.fail("events%s: the request is not delivered", story.c_str()); return; }
			o.at = delivered[o.uri]; ++o.gets; if (!o.at) { ctx.fail("events%s: another request was delivered", story.c_str()); return; }
		}
		else if (what == 1)
		{
			if (wait) { struct timespec t = { 0, wait * 1000000 }; nanosleep(&t, 0); }
			const int status = o.n % 2 ? 200 : 404; const QByteArray body(o.n * 3 + who, 'x'); const double low = wait / 1000.0; Want& w = expectLine(trace ? "[ END ]" : "", o, status, body.size()); w.low = low; w.timed = true;
			o.at->writeResponse(status, Pillow::HttpHeaderCollection(), body); w.high = netNow() - o.asked; o.at = 0; spin(1);
		}
		else
		{
			const int before = closings; const bool had = o.gets > 0; if (had && trace) expectLine("[CLOSE]", o, 0, 0);
			o.p->fin(); if (had && !until([&]() { return closings > before; })) { ctx.fail("events%s: the connection is not closed", story.c_str()); return; } o.p.reset(); o.at = 0; spin(2);
		}
		QStringList lines = QString::fromUtf8(sink.data()).split('\n'); lines.removeLast(); static const QRegularExpression re("^(?:\\[.....\\] )?(\\S*) - - .* (\\S+)$");
		if (lines.size() != (int)want.size()) { ctx.fail("events%s: %d lines instead of %zu; the last is %s", story.c_str(), lines.size(), want.size(), lines.isEmpty() ? "-" : su(lines.last()).c_str()); return; }
		for (int i = 0; i < lines.size(); ++i)
		{
			Line l; const Want& w = want[i]; const QRegularExpressionMatch m = re.match(lines[i]); const bool end = w.timed; bool number = false; const double took = m.captured(2).toDouble(&number);
			if (!parseLine(lines[i], &l) || !m.hasMatch() || l.kind != w.l.kind || l.request != w.l.request || (end && (l.status != w.l.status || l.length != w.l.length))) { ctx.fail("events%s: line %d is %s, should be %s", story.c_str(), i + 1, su(lines[i]).c_str(), show(w.l).c_str()); return; }
			if (w.l.kind != "[CLOSE]" && su(m.captured(1)) != w.from) { ctx.fail("events%s: line %d names the client %s instead of %s", story.c_str(), i + 1, su(m.captured(1)).c_str(), w.from.c_str()); return; }
			if (w.l.kind == "[CLOSE]" && !m.captured(1).isEmpty() && su(m.captured(1)) != w.from) { ctx.fail("events%s: line %d names the client %s instead of %s", story.c_str(), i + 1, su(m.captured(1)).c_str(), w.from.c_str()); return; }
			if (end && (!number || took < w.low - 0.002 || took > w.high + 0.002)) { ctx.fail("events%s: line %d says that the request took %s s, it was %.3f to %.3f", story.c_str(), i + 1, su(m.captured(2)).c_str(), w.low, w.high); return; }
		}
		ctx.state(hash(hash(71, story), trace * 2 + (wait > 0)));
	}
	ctx.log("events%s\n%s", story.c_str(), sb(sink.data()).c_str()); QObject::disconnect(&server, 0, &tag, 0); for (size_t i = 0; i < known.size(); ++i) QObject::disconnect(known[i], 0, &tag, 0);
}

std::vector<Suite> suitesC15(Tier tier)
{
	const bool deep = tier == Thorough; std::vector<Suite> v;
	// The first two operations are part of the root, the rest is explored depth first; only enabled operations are taken.
	auto explore = [](Ctx& c, uint64_t r, int conns, int depth, const std::vector<int>& global, const std::vector<int>& perConn, bool startTrace)
	{
		World w(conns); if (startTrace) { w.trace = true; w.h->setMode(Pillow::HttpHandlerLog::TraceRequests); }
		std::vector<std::pair<int, int> > all; for (int i = 0; i < conns; ++i) for (size_t k = 0; k < perConn.size(); ++k) all.push_back(std::make_pair(perConn[k], i)); for (size_t k = 0; k < global.size(); ++k) all.push_back(std::make_pair(global[k], -1));
		for (int s = 0; s < depth; ++s)
		{
			std::pair<int, int> op;
			if (s < 2) { op = all[take(r, all.size())]; if (!w.enabled(op.first, op.second)) { c.step(); return; } }
			else
			{
				std::vector<std::pair<int, int> > can; for (size_t k = 0; k < all.size(); ++k) if (w.enabled(all[k].first, all[k].second)) can.push_back(all[k]);
				if (can.empty()) break; op = can[c.choose((int)can.size())];
			}
			w.run(op.first, op.second);
			const std::string p = w.check();
			c.state(hash(hash(conns, w.ops), w.sinks[0] ? w.sinks[0]->size() : -1));
			if (!p.empty()) { c.fail("%s%s: %s", startTrace ? "trace mode" : "completed mode", w.ops.c_str(), p.c_str()); return; }
		}
		c.log("%s%s%s", startTrace ? "trace mode" : "completed mode", w.ops.c_str(), w.sinks[0] ? ("\n" + sb(w.sinks[0]->data())).c_str() : "");
		pump();
	};
	std::vector<int> allConn; for (int i = 0; i < NConnOps; ++i) allConn.push_back(i); std::vector<int> allGlobal; for (int i = Mode; i < NOps; ++i) allGlobal.push_back(i);
	std::vector<int> onlyMode(1, Mode), none; const int core[] = { Req, RespFixed, RespUnknown, ServerClose, DeviceClose, Delete, Reinit }; const std::vector<int> coreOps(core, core + 7);
	const uint64_t n1 = NOps, n2 = 2 * NConnOps + 5, n3 = 3 * 7 + 1;
	v.push_back(Suite("one-connection", "one connection: every sequence of " + ref::num(deep ? 8 : 6) + " enabled operations of { request, bypassing request, answers (known, unknown length, headers only), malformed input, close by server, disconnect, delete, reinitialise, mode change, log device changes and deletion, handler deletion }, from both modes", n1 * n1 * 2, [=](Ctx& c, uint64_t r) { const bool t = take(r, 2); explore(c, r, 1, deep ? 8 : 6, allGlobal, allConn, t); }, 30));
	v.push_back(Suite("one-connection-core", "one connection: every sequence of " + ref::num(deep ? 11 : 9) + " enabled operations of { request, answers, closes, delete, reinitialise, mode change }, pipelining included", 8 * 8 * 2, [=](Ctx& c, uint64_t r) { const bool t = take(r, 2); explore(c, r, 1, deep ? 11 : 9, onlyMode, coreOps, t); }, 30));
	v.push_back(Suite("two-connections", "two connections: every sequence of " + ref::num(deep ? 6 : 5) + " enabled operations of the same", n2 * n2 * 2, [=](Ctx& c, uint64_t r) { const bool t = take(r, 2); explore(c, r, 2, deep ? 6 : 5, allGlobal, allConn, t); }, 30));
	v.push_back(Suite("three-connections", "three connections, trace mode: every sequence of " + ref::num(deep ? 7 : 6) + " enabled operations of { request, answer, close, mode change }", 10 * 10, [=](Ctx& c, uint64_t r) { const int few[] = { Req, RespFixed, ServerClose }; explore(c, r, 3, deep ? 7 : 6, onlyMode, std::vector<int>(few, few + 3), true); }, 30));
	const int events = deep ? 8 : 6; v.push_back(retried(Suite("over-tcp", "two clients of a server over TCP, each time they connect from an address of their own: every sequence of " + ref::num(events) + " events {request, answer at once or after 25 ms, client leaves}, both modes: entries name the right client and the time the request took", 2 * 2 * 16, [=](Ctx& c, uint64_t r) { overTcp(c, r, events); }, 60)));
	v.push_back(Suite("uris", "request lines with every byte value allowed, every %XX escape, placeholders, up to 3000 bytes, x both modes: logged as sent", (256 + 256 + 20) * 2, [=](Ctx& c, uint64_t r)
	{
		const bool trace = take(r, 2); QBuffer sink; sink.open(QIODevice::ReadWrite); Pillow::HttpHandlerLog h(&sink); if (trace) h.setMode(Pillow::HttpHandlerLog::TraceRequests);
		char b[8]; ref::Request q; q.method = "M-" + ref::num(r); std::string u;
		if (r < 256) u = std::string("/x") + (char)r + "y"; else if (r < 512) { snprintf(b, 8, "%%%02x", (unsigned)r - 256); u = std::string("/") + b + "1"; if (r % 2) u += "?" + std::string(b) + "=%25"; } else u = "/" + ref::text(150 * (r - 511));
		q.uri = u; if (r < 128 && (r == '#' || r <= 32 || r == 127)) { c.step(); return; }
		Ask ask(q.bytes()); if (!ask.ready()) { c.step(); return; }
		h.handleRequest(ask.rig.conn); ask.rig.conn->writeResponse(200, Pillow::HttpHeaderCollection(), "12345"); ask.rig.conn->close();
		const QStringList lines = QString::fromUtf8(sink.data()).split('\n'); c.state(hash(6, sb(sink.data())));
		const std::string expect = q.method + " " + utf8(q.uri) + " HTTP/1.1"; if (lines.size() != (trace ? 4 : 2)) { c.fail("%s: %d lines logged", show(u, 60).c_str(), lines.size() - 1); return; }
		for (int i = 0; i + 1 < lines.size(); ++i) { Line l; if (!parseLine(lines[i], &l)) c.fail("not a log line: %s", su(lines[i]).c_str()); else if (l.request != expect) c.fail("logged [%s] instead of [%s]", l.request.c_str(), expect.c_str()); else if ((trace ? i == 1 : i == 0) && (l.status != 200 || l.length != 5)) c.fail("logged %s", su(lines[i]).c_str()); }
		c.log("%s", sb(sink.data()).c_str());
	}, 30));
	return v;
}
