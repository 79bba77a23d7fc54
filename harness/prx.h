// The proxy under exploration: raw client sockets, HttpServer + HttpHandlerProxy, and a scripted upstream server.
#ifndef PRX_H
#define PRX_H
#include "client.h"
#include "reply.h"
#include "HttpServer.h"
#include "HttpHandlerProxy.h"
std::vector<mc::Suite> suitesC22(mc::Tier);

inline std::string canonical(const std::string& uri) // Equal for equivalent URIs: escapes of characters that have no special meaning are undone, the others upper-cased.
{
	std::string o;
	for (size_t i = 0; i < uri.size(); ++i)
	{
		const unsigned char c = uri[i];
		if (c == '%' && i + 2 < uri.size() && ref::isHex(uri[i + 1]) && ref::isHex(uri[i + 2]))
		{
			const unsigned char d = strtoul(uri.substr(i + 1, 2).c_str(), 0, 16);
			if (d > 32 && d < 127 && !strchr(":/?#[]@!$&'()*+,;=%", d)) o += d; else { char b[8]; snprintf(b, sizeof b, "%%%02X", d); o += b; }
			i += 2;
		}
		else o += c;
	}
	return o;
}

inline bool anyOf(const std::string& name, const char* const* list) { for (; *list; ++list) if (ref::ieq(name, *list)) return true; return false; }
inline std::string joined(const ref::Headers& h, const std::string& name, const char* sep = ", ") { std::string s; bool first = true; for (size_t i = 0; i < h.size(); ++i) if (ref::ieq(h[i].first, name)) { s += (first ? "" : sep) + h[i].second; first = false; } return s; }

// The request at the upstream, against the client's. "" when it is relayed faithfully.
inline std::string checkRelayed(const ref::Request& sent, const ref::Request& got)
{
	static const char* const hop[] = { "connection", "keep-alive", "content-length", "te", "upgrade", 0 };
	if (got.method != sent.method) return "upstream sees method " + mc::show(got.method) + " instead of " + sent.method;
	std::string want = sent.path + (sent.hasQuery && !sent.query.empty() ? "?" + sent.query : ""), have = got.target(); if (!have.empty() && *have.rbegin() == '?') have.erase(have.size() - 1);
	if (canonical(have) != canonical(want)) return "upstream sees target " + mc::show(got.target()) + " instead of " + mc::show(want);
	if (got.hasFragment) return "the fragment was sent upstream";
	for (size_t i = 0; i < sent.headers.size(); ++i)
	{
		const std::string& n = sent.headers[i].first; if (anyOf(n, hop)) continue;
		const char* sep = ref::ieq(n, "cookie") ? "; " : ", "; const std::string w = joined(sent.headers, n, sep), g = joined(got.headers, n, sep);
		if ((!ref::find(got.headers, n) && !w.empty()) || g != w) return "upstream sees header " + n + " as [" + mc::show(g) + "] instead of [" + mc::show(w) + "]";
	}
	if (!ref::find(sent.headers, "cookie") && ref::find(got.headers, "cookie")) return "upstream sees a cookie the client did not send: " + ref::value(got.headers, "cookie");
	if (!ref::find(sent.headers, "authorization") && ref::find(got.headers, "authorization")) return "upstream sees an authorization the client did not send";
	if (got.body != sent.body) return "upstream sees " + ref::num(got.body.size()) + " bytes of content [" + mc::show(got.body, 60) + "] instead of " + ref::num(sent.body.size());
	return "";
}

// The response at the client, against the upstream's; m is what the client parsed.
inline std::string checkResponse(const ref::Response& m, const Resp& r, const std::string& body, bool head, bool ended)
{
	static const char* const hop[] = { "connection", "keep-alive", "transfer-encoding", "content-length", "proxy-connection", 0 };
	if (!m.problem.empty()) return "invalid response: " + m.problem;
	if (m.status != r.status) return "the client sees status " + ref::num(m.status) + " instead of " + ref::num(r.status);
	for (size_t i = 0; i < m.headers.size(); ++i)
	{
		const std::string& n = m.headers[i].first;
		if (m.headers[i].second.find_first_of("\r\n") != std::string::npos) return "header " + n + " holds a line break: [" + mc::show(m.headers[i].second) + "]";
		if (anyOf(n, hop) || ref::find(r.headers, n) || ref::ieq(n, "content-type")) continue;
		return "the client sees header " + n + ": " + m.headers[i].second + " which the upstream did not send";
	}
	for (size_t i = 0; i < r.headers.size(); ++i)
	{
		const std::string& n = r.headers[i].first; if (anyOf(n, hop)) continue;
		const char* sep = ref::ieq(n, "set-cookie") ? "|" : ", ";
		if (joined(m.headers, n, sep) != joined(r.headers, n, sep)) return "the client sees header " + n + " as [" + mc::show(joined(m.headers, n, sep)) + "] instead of [" + mc::show(joined(r.headers, n, sep)) + "]";
	}
	if (head) { if (ref::find(r.headers, "content-length") && declaredLength(m.headers, -1) != declaredLength(r.headers, -1)) return "the client sees content-length [" + ref::value(m.headers, "content-length") + "] for HEAD"; return ""; }
	if (r.status == 204 || r.status == 304) return "";
	if (m.framing == ref::Response::UntilClose ? !ended : !m.complete) return "the client's response is not complete (" + ref::num(m.body.size()) + " bytes)";
	if (m.body != body) return "the client sees " + ref::num(m.body.size()) + " bytes of content [" + mc::show(m.body, 60) + "] instead of " + ref::num(body.size()) + " [" + mc::show(body, 60) + "]";
	return "";
}

struct ProxyRig
{
	struct Up { std::unique_ptr<Peer> p; int busy; };
	mc::Ctx& ctx; Listener l; std::unique_ptr<Pillow::HttpServer> server; std::unique_ptr<Pillow::HttpHandlerProxy> proxy; std::string ip, story; std::vector<std::unique_ptr<Up> > ups; std::map<int, ref::Request> arrived; std::map<int, int> times; std::vector<Pillow::HttpConnection*> conns; QObject tag; // Receives what the harness connects.
	std::function<void(Pillow::HttpConnection*)> onReady;
	explicit ProxyRig(mc::Ctx& ctx) : ctx(ctx)
	{
		char b[64]; const int n = nextLoopback(); snprintf(b, sizeof b, "127.%d.%d.%d", 64 + (getpid() & 63), n >> 8, 1 + (n & 0xff) % 254); ip = b;
		server.reset(new Pillow::HttpServer(QHostAddress(ip.c_str()), 0)); if (!server->isListening()) { fprintf(stderr, "cannot listen\n"); _exit(77); }
		proxy.reset(new Pillow::HttpHandlerProxy(url(l.base())));
		QObject::connect(server.get(), &Pillow::HttpServer::requestReady, &tag, [this](Pillow::HttpConnection* c) { if (std::find(conns.begin(), conns.end(), c) == conns.end()) { conns.push_back(c); QObject::connect(c, &QObject::destroyed, &tag, [this, c]() { conns.erase(std::remove(conns.begin(), conns.end(), c), conns.end()); }); } if (proxy) { if (!proxy->handleRequest(c)) c->writeResponse(599); } if (onReady) onReady(c); });
	}
	~ProxyRig() { if (server) QObject::disconnect(server.get(), 0, &tag, 0); server.reset(); proxy.reset(); spin(2); }
	void fail(const std::string& s) { ctx.fail("%s; %s", s.c_str(), story.c_str()); }
	Peer* client() { Peer* p = connectTo(ip, server->serverPort()); if (!p) { fail("harness: cannot connect to the proxy"); p = new Peer; } return p; }
	static int idOf(const ref::Request& q) { return q.path.compare(0, 2, "/r") == 0 ? atoi(q.path.c_str() + 2) : 0; }
	void poll()
	{
		while (l.fd >= 0 && l.pending()) { Peer* p = l.accept(); if (!p) break; std::unique_ptr<Up> u(new Up); u->p.reset(p); u->busy = 0; ups.push_back(std::move(u)); }
		for (size_t i = 0; i < ups.size(); ++i)
		{
			ref::Request q;
			while (takeRequest(*ups[i]->p, &q)) { const int id = idOf(q); arrived[id] = q; ++times[id]; ups[i]->busy = id; }
		}
	}
	Up* upOf(int id) { for (size_t i = ups.size(); i-- > 0;) if (ups[i]->busy == id) return ups[i].get(); return 0; }
	bool arrives(int id, double seconds = 5) { return until([&]() { poll(); return arrived.count(id) > 0; }, seconds); }
	bool answer(int id, const std::string& bytes) { Up* u = upOf(id); if (!u) { fail("harness: request " + ref::num(id) + " is not under way"); return false; } u->p->give(bytes); return true; }
	void done(int id, bool close = false) { Up* u = upOf(id); if (u) { u->busy = 0; if (close) u->p->fin(); } }
};

// What came to a client as the response to one request. False while it is not complete.
inline bool takeResponse(Peer& c, bool head, ref::Response* m)
{
	c.read(); ref::Response r; size_t next = 0; if (!ref::parseResponse(c.in, 0, head, &r, &next)) return false;
	*m = r; if (!r.problem.empty()) return true;
	if (r.complete && r.framing != ref::Response::UntilClose) { c.in.erase(0, next); return true; }
	if (head || r.status == 204 || r.status == 304) { c.in.erase(0, next); return true; }
	return c.ended();
}
#endif
