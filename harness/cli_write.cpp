// C19: requests written by HttpRequestWriter and HttpClient.
#include "client.h"
using namespace mc;
using std::string;

struct Given { string method, target, data; ref::Headers headers; int call; Given() : method("GET"), target("/"), call(5) {} }; // call: 0 get 1 head 2 post 3 put 4 delete 5 generic
static const char* callMethods[] = { "GET", "HEAD", "POST", "PUT", "DELETE" };

// The request at pos of s, compared with what was given. host: the value its Host must have; null: none must be added.
static string compare(const string& s, size_t pos, const Given& g, const string* host, size_t* next)
{
	ref::Request q; const string at = " in: " + mc::show(s.substr(pos, 600));
	if (ref::parseHead(s, pos, &q, next) != ref::HeadOk) return "not a valid request" + at;
	if (q.method != g.method) return "method " + q.method + " instead of " + g.method;
	if (q.target() != g.target || q.hasFragment) return "target " + mc::show(q.target()) + (q.hasFragment ? "#" + q.fragment : "") + " instead of " + mc::show(g.target);
	if (q.version != "HTTP/1.1") return "version " + q.version;
	if (ref::count(q.headers, "content-length") > 1 || (!g.data.empty() && ref::count(q.headers, "content-length") != 1)) return "content-lengths: " + ref::num(ref::count(q.headers, "content-length")) + at;
	const string* cl = ref::find(q.headers, "content-length"); if (cl && *cl != ref::num((long long)g.data.size())) return "content-length " + *cl + " instead of " + ref::num(g.data.size());
	if (ref::find(q.headers, "transfer-encoding")) return "a transfer-encoding" + at;
	if (ref::count(q.headers, "host") != (host ? 1u : 0u) || (host && ref::value(q.headers, "host") != *host)) return "Host [" + ref::value(q.headers, "host") + "] (" + ref::num(ref::count(q.headers, "host")) + ") instead of [" + (host ? *host : "") + "]";
	ref::Headers rest; for (size_t i = 0; i < q.headers.size(); ++i) if (!ref::ieq(q.headers[i].first, "host") && !ref::ieq(q.headers[i].first, "content-length")) rest.push_back(q.headers[i]);
	if (!(rest == g.headers)) return "headers " + hdrText(rest) + " instead of " + hdrText(g.headers);
	if (s.compare(*next, g.data.size(), g.data) != 0 || s.size() - *next < g.data.size()) return "content differs (" + ref::num(s.size() - *next) + " bytes follow, " + ref::num(g.data.size()) + " given)";
	*next += g.data.size(); return "";
}

static ref::Headers headerSet(int k)
{
	ref::Headers h; auto a = [&](const string& n, const string& v) { h.push_back(ref::Header(n, v)); };
	switch (k)
	{
	case 1: a("A", "b"); break; case 2: a("Empty", ""); a("X-Y", "v:w, x;y=\"z\""); a("Accept", "*/*"); break; case 3: a("Same", "1"); a("Same", "2"); a("same", "3"); a("User-Agent", "t"); break;
	case 4: for (int i = 0; i < 200; ++i) a("H" + ref::num(i), "value " + ref::num(i)); break; case 5: a("Long", ref::text(3000)); a("Last", "x"); break;
	}
	return h;
}

template <typename W> static void call(W& w, const Given& g, const QByteArray& path)
{
	const Pillow::HttpHeaderCollection h = qh(g.headers); const QByteArray d = qb(g.data);
	switch (g.call) { case 0: w.get(path, h); break; case 1: w.head(path, h); break; case 2: w.post(path, h, d); break; case 3: w.put(path, h, d); break; case 4: w.deleteResource(path, h); break; default: w.write(qb(g.method), path, h, d); }
}

static Given shape(int kind, int serial) // Requests of sizes around the writer's thresholds: builder 8192 and 16384, separate data from 4096 on.
{
	Given g; static const struct { int call; const char* method; int headers; int headSize; int data; } k[] = {
		{ 0, "", 0, 0, 0 }, { 1, "", 1, 0, 0 }, { 2, "", 2, 0, 1 }, { 3, "", 3, 0, 4095 }, { 2, "", 0, 0, 4096 }, { 4, "", 1, 0, 0 }, { 5, "PATCH", 1, 0, 4097 }, { 5, "M-SEARCH", 3, 0, 0 }, { 5, "DELETE", 0, 0, 5 }, { 5, "OPTIONS", 4, 0, 100 },
		{ 0, "", 0, 8191, 0 }, { 0, "", 0, 8192, 0 }, { 0, "", 1, 8193, 0 }, { 2, "", 0, 8100, 300 }, { 0, "", 0, 16383, 0 }, { 0, "", 0, 16384, 0 }, { 0, "", 0, 16385, 0 }, { 2, "", 1, 12300, 4095 }, { 3, "", 1, 16384, 4096 }, { 2, "", 5, 20000, 60000 }, { 2, "", 0, 0, 0 }, { 3, "", 0, 0, 1000000 }, { 0, "", 4, 30000, 0 }, { 5, "G", 0, 0, 16384 } };
	g.call = k[kind].call; g.method = g.call < 5 ? callMethods[g.call] : k[kind].method; g.target = "/" + ref::num(serial) + "/x?n=" + ref::num(serial); g.headers = headerSet(k[kind].headers); g.data = ref::pattern(k[kind].data, serial);
	if (k[kind].headSize) { g.headers.push_back(ref::Header("Pad", "")); ref::Request q; q.method = g.method; q.uri = g.target; q.headers = g.headers; if (!g.data.empty()) q.headers.push_back(ref::Header("Content-Length", ref::num((long long)g.data.size()))); const int have = (int)q.head().size(); if (have < k[kind].headSize) g.headers.back().second = ref::text(k[kind].headSize - have, serial); }
	return g;
}
enum { NShapes = 24 };

// Also parsed back by the library's own connection.
static string compareOwn(const string& s, const std::vector<Given>& all, const string* host)
{
	Rig rig; rig.lookDecoded = false; rig.onReady = [&](Pillow::HttpConnection* c) { c->writeResponse(200); };
	rig.start(); rig.dev->give(s);
	if (rig.seen.size() != all.size()) return "Pillow's own connection sees " + ref::num(rig.seen.size()) + " requests instead of " + ref::num(all.size()) + ", state " + stateName(rig.conn->state());
	for (size_t i = 0; i < all.size(); ++i)
	{
		const Seen& e = rig.seen[i]; ref::Headers rest; for (size_t k = 0; k < e.headers.size(); ++k) if (!ref::ieq(e.headers[k].first, "content-length") && !(host && ref::ieq(e.headers[k].first, "host"))) rest.push_back(e.headers[k]);
		if (e.method != all[i].method || e.uri != all[i].target || e.content != all[i].data || !(rest == all[i].headers)) return "Pillow's own connection sees " + mc::show(e.text(), 600);
	}
	return "";
}

static void writerSequences(Ctx& ctx, uint64_t root, int depth)
{
	MemDevice a, b; Pillow::HttpRequestWriter w; MemDevice* dev = &a; std::vector<Given> sent[2]; string story; uint64_t h = 7;
	w.get("/no device"); w.setDevice(dev);
	for (int i = 0; i < depth; ++i)
	{
		const int k = take(root, NShapes); const Given g = shape(k, i + 1); if (i) { const int sw = take(root, 2); if (sw) dev = dev == &a ? &b : &a; w.setDevice(dev); }
		const QByteArray path = qb(g.target); call(w, g, path); sent[dev == &b].push_back(g); story += (i ? ", " : "") + g.method + " head shape " + ref::num(k) + " data " + ref::num(g.data.size()) + (dev == &b ? " (other device)" : ""); h = hash(hash(h, k), dev == &b); ctx.state(h);
	}
	ctx.log("%s", story.c_str());
	for (int d = 0; d < 2; ++d)
	{
		const string& out = d ? b.out : a.out; size_t pos = 0;
		for (size_t i = 0; i < sent[d].size() && !ctx.failed(); ++i) { size_t next = out.size(); const string p = compare(out, pos, sent[d][i], 0, &next); if (!p.empty()) ctx.fail("request %zu: %s; %s", i, p.c_str(), story.c_str()); pos = next; }
		if (!ctx.failed() && pos != out.size()) ctx.fail("bytes nobody asked for: %s; %s", mc::show(out.substr(pos)).c_str(), story.c_str());
		bool fits = true; for (size_t i = 0; i < sent[d].size(); ++i) { ref::Request q; q.headers = sent[d][i].headers; if (q.head().size() > 32000) fits = false; }
		if (!ctx.failed() && fits) { const string p = compareOwn(out, sent[d], 0); if (!p.empty()) ctx.fail("%s; %s", p.c_str(), story.c_str()); }
	}
}

static void headSizes(Ctx& ctx, uint64_t root) // Every head size around the thresholds.
{
	static const int base[] = { 60, 4090, 8180, 16370, 32700 }; static const int datas[] = { 0, 1, 4095, 4096, 9000 };
	const int size = base[take(root, 5)] + take(root, 25), data = datas[take(root, 5)]; MemDevice a; Pillow::HttpRequestWriter w; w.setDevice(&a); std::vector<Given> all; string want;
	for (int i = 0; i < 3; ++i)
	{
		Given g; g.call = 5; g.method = "PUT"; g.target = "/" + ref::num(i); if (i == 1) { g.data = ref::text(data, 2); g.headers.push_back(ref::Header("P", "")); ref::Request q; q.method = g.method; q.uri = g.target; q.headers = g.headers; if (data) q.headers.push_back(ref::Header("Content-Length", ref::num(data))); const int have = (int)q.head().size(); if (size > have) g.headers.back().second = ref::text(size - have, i); }
		call(w, g, qb(g.target)); all.push_back(g);
	}
	size_t pos = 0; for (size_t i = 0; i < 3 && !ctx.failed(); ++i) { size_t next = a.out.size(); const string p = compare(a.out, pos, all[i], 0, &next); if (!p.empty()) ctx.fail("head of %d bytes, data of %d: %s", size, data, p.c_str()); pos = next; }
	if (!ctx.failed() && pos != a.out.size()) ctx.fail("head of %d bytes, data of %d: bytes nobody asked for", size, data); ctx.state(hash(hash(8, size), data));
}

// The writer on a socket whose other end reads late: what was written is not disturbed by what comes after.
static void slowSocket(Ctx& ctx, uint64_t root, int depth)
{
	Listener l; QTcpSocket s; s.connectToHost(QHostAddress(l.ip.c_str()), l.port); std::unique_ptr<Peer> p(l.accept()); if (!p || !until([&]() { return s.state() == QAbstractSocket::ConnectedState; })) { ctx.fail("harness: no connection"); return; }
	const bool filled = take(root, 2); Pillow::HttpRequestWriter w; w.setDevice(&s); std::vector<Given> sent; string story = filled ? "after 8 MB, " : ""; uint64_t h = 9 + filled;
	if (filled) { Given g; g.call = 3; g.method = "PUT"; g.target = "/fill"; g.data = ref::pattern(8 << 20, 1); call(w, g, "/fill"); sent.push_back(g); }
	for (int i = 0; i < depth; ++i)
	{
		const int k = take(root, NShapes); const bool spins = take(root, 2); Given g = shape(k, i + 1); { QByteArray path = qb(g.target); call(w, g, path); path.fill('!'); } if (spins) spin(1); sent.push_back(g); story += (i ? ", " : "") + g.method + " shape " + ref::num(k); h = hash(h, k * 2 + spins); ctx.state(h);
	}
	size_t total = 0; if (!until([&]() { p->read(); if (p->in.size() != total) { total = p->in.size(); return false; } return s.bytesToWrite() == 0 && p->arrived(); }, 20)) { ctx.fail("not all was sent"); return; }
	spin(); p->read(); until([&]() { const size_t n = p->in.size(); p->read(); return n == p->in.size() && s.bytesToWrite() == 0; }, 2);
	size_t pos = 0; for (size_t i = 0; i < sent.size() && !ctx.failed(); ++i) { size_t next = p->in.size(); const string e = compare(p->in, pos, sent[i], 0, &next); if (!e.empty()) ctx.fail("request %zu: %s; %s", i, e.c_str(), story.c_str()); pos = next; }
	if (!ctx.failed() && pos != p->in.size()) ctx.fail("bytes nobody asked for; %s", story.c_str()); ctx.log("%s", story.c_str());
}

//
// The client.
//
struct Url { const char* after; const char* target; }; // What follows the authority, and the target it stands for.
static const Url urls[] = { { "/", "/" }, { "", "/" }, { "/a", "/a" }, { "/a/b/c.html", "/a/b/c.html" }, { "/a/", "/a/" }, { "?x=1", "/?x=1" }, { "/?x=1", "/?x=1" }, { "/a?x=1&y=2", "/a?x=1&y=2" }, { "/a%20b?c%20d=e%26f", "/a%20b?c%20d=e%26f" }, { "/%C3%A9?%C3%A9=%E2%82%AC", "/%C3%A9?%C3%A9=%E2%82%AC" }, { "/a#frag", "/a" }, { "/a?q#frag?x", "/a?q" }, { "#frag", "/" }, { "?q=/a/../b", "/?q=/a/../b" }, { "/a;p=1", "/a;p=1" }, { "/a//b", "/a//b" }, { "/a%2Fb", "/a%2Fb" }, { "/x?a=b=c&&d", "/x?a=b=c&&d" }, { "/x?a+b", "/x?a+b" }, { "/%25", "/%25" }, { "/a?http://h/p?q", "/a?http://h/p?q" }, { "/a,b!$'()*+-._~:@&=", "/a,b!$'()*+-._~:@&=" } };
enum { NUrls = sizeof urls / sizeof *urls };

struct Servers // Several origins: another address, another port of the same address, the default port, another name.
{
	struct O { std::unique_ptr<Listener> l; string authority, host; std::unique_ptr<Peer> peer; bool usable; }; std::vector<O> o;
	Servers(int n)
	{
		for (int i = 0; i < n; ++i)
		{
			O x; x.usable = true; x.l.reset(new Listener); Listener& l = *x.l;
			if (i == 1) { l.close(); l.ip = o[0].l->ip; l.open(); } // Same address, other port.
			if (i == 2) { l.close(); l.open(o[0].l->port); } // Same port, other address.
			x.authority = x.host = l.ip + ":" + ref::num(l.port);
			if (i == 3) { x.authority = "user:secret@" + x.authority; }
			if (i == 4) { l.close(); if (geteuid() == 0) { l.open(80); x.authority = x.host = l.ip; } else l.open(); }
			o.push_back(std::move(x));
		}
	}
};

static bool exchange(Ctx& ctx, Client& c, Servers& s, int origin, int* connected, const Given& g, const string& rawUrl, const string& story, bool last = false)
{
	Servers::O& o = s.o[origin]; bool done = false; const QMetaObject::Connection k = QObject::connect(&c, &Client::finished, [&]() { done = true; });
	const QUrl u = url("http://" + o.authority + rawUrl); const Pillow::HttpHeaderCollection h = qh(g.headers); const QByteArray d = qb(g.data);
	switch (g.call) { case 0: c.get(u, h); break; case 1: c.head(u, h); break; case 2: c.post(u, h, d); break; case 3: c.put(u, h, d); break; case 4: c.deleteResource(u, h); break; case 6: { Pillow::HttpClientRequest r; r.method = qb(g.method); r.url = u; r.headers = h; r.data = d; c.request(r); } break; default: c.request(qb(g.method), u, h, d); }
	if (*connected != origin) { o.peer.reset(o.l->accept()); *connected = origin; if (!o.peer) { ctx.fail("no connection for the request; %s", story.c_str()); QObject::disconnect(k); return false; } }
	Peer& p = *o.peer; ref::Request q; size_t next = 0;
	auto complete = [&]() { p.read(); return (ref::parseHead(p.in, 0, &q, &next) == ref::HeadOk && p.in.size() >= next + strtoul(ref::value(q.headers, "content-length").c_str(), 0, 10) && p.in.size() >= next + g.data.size()) || p.ended(); };
	if (!until(complete)) { ctx.fail("no complete request arrives: %s; %s", mc::show(p.in).c_str(), story.c_str()); QObject::disconnect(k); return false; }
	spin(2); p.read(); const string host = o.host; size_t end = p.in.size(); const string e = compare(p.in, 0, g, &host, &end);
	if (!e.empty()) { ctx.fail("%s; %s", e.c_str(), story.c_str()); QObject::disconnect(k); return false; }
	if (end != p.in.size()) { ctx.fail("bytes nobody asked for: %s; %s", mc::show(p.in.substr(end)).c_str(), story.c_str()); QObject::disconnect(k); return false; }
	const string own = q.head().size() < 32000 ? compareOwn(p.in, std::vector<Given>(1, g), &host) : ""; if (!own.empty()) { ctx.fail("%s; %s", own.c_str(), story.c_str()); QObject::disconnect(k); return false; }
	p.in.clear(); (void)last;
	p.give("HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"); const bool ok = until([&]() { return done; }); QObject::disconnect(k);
	if (!ok || c.error()) { ctx.fail("the exchange did not finish well; %s", story.c_str()); return false; }
	return true;
}

static void clientUrls(Ctx& ctx, uint64_t root)
{
	const Url& u = urls[take(root, NUrls)]; const int origin = take(root, 5), kind = take(root, 7); Servers s(5); Client c; int connected = -1;
	for (int n = 0; n < 2 && !ctx.failed(); ++n)
	{
		Given g; g.call = kind; g.method = kind < 5 ? callMethods[kind] : kind == 5 ? "PATCH" : "PROPFIND"; g.target = u.target; g.headers = headerSet(kind % 4); if (kind == 2 || kind == 3 || kind == 6) g.data = ref::text(10 + 4090 * n, n);
		const string story = g.method + " http://" + s.o[origin].authority + u.after + (n ? " again" : ""); ctx.log("%s", story.c_str());
		exchange(ctx, c, s, origin, &connected, g, u.after, story); ctx.state(hash(hash(10, story), origin));
	}
}

static void clientSequences(Ctx& ctx, uint64_t root, int depth)
{
	Servers s(5); Client c; int connected = -1; string story; uint64_t h = 11; static const int picks[] = { 0, 3, 4, 19, 14, 16, 18, 20 };
	for (int i = 0; i < depth && !ctx.failed(); ++i)
	{
		const int origin = take(root, 5), k = picks[take(root, 8)]; Given g = shape(k, i + 1); if (g.call == 5) g.call = i % 2 ? 5 : 6;
		story += (i ? ", then " : "") + g.method + " shape " + ref::num(k) + " to " + s.o[origin].authority; h = hash(h, origin * 64 + k); ctx.state(h);
		if (!exchange(ctx, c, s, origin, &connected, g, g.target, story)) break;
	}
	ctx.log("%s", story.c_str());
}

static void ipv6(Ctx& ctx, uint64_t root) // Where there is IPv6.
{
	int fd = socket(AF_INET6, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_in6 a; memset(&a, 0, sizeof a); a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; socklen_t n = sizeof a;
	if (fd < 0 || bind(fd, (struct sockaddr*)&a, n) != 0 || listen(fd, 5) != 0) { if (fd >= 0) ::close(fd); ctx.log("no IPv6 here"); return; }
	getsockname(fd, (struct sockaddr*)&a, &n); fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); const string host = "[::1]:" + ref::num(ntohs(a.sin6_port)); Client c; int p = -1;
	Given g; g.target = root ? "/six?x" : "/six"; c.get(url("http://" + host + g.target)); until([&]() { p = ::accept4(fd, 0, 0, SOCK_CLOEXEC); return p >= 0; }); ::close(fd);
	if (p < 0) { ctx.fail("no connection to %s", host.c_str()); return; }
	Peer peer(p); ref::Request q; string raw; if (!until([&]() { return takeRequest(peer, &q, &raw); })) { ctx.fail("no request to %s: %s", host.c_str(), mc::show(peer.in).c_str()); return; }
	size_t next = 0; const string e = compare(raw, 0, g, &host, &next); if (!e.empty()) ctx.fail("%s", e.c_str()); ctx.state(hash(12, root));
}

std::vector<Suite> suitesC19(Tier t)
{
	const bool th = t == Thorough; std::vector<Suite> v; const int d1 = th ? 3 : 2, d2 = th ? 3 : 2, d3 = 2; uint64_t n = NShapes; for (int i = 1; i < d1; ++i) n *= NShapes * 2;
	v.push_back(Suite("writer-sequences", "every sequence of " + ref::num(d1) + " requests of " + ref::num(NShapes) + " shapes (all methods, header sets up to 200, head sizes around 8192 and 16384, data sizes around 4096 up to 1 MB) through one writer, on one or two devices; parsed by the reference parser and by Pillow's own connection", n, [d1](Ctx& c, uint64_t r) { writerSequences(c, r, d1); }));
	v.push_back(Suite("head-sizes", "25 consecutive head sizes from each of 60, 4090, 8180, 16370, 32700 x data sizes {0, 1, 4095, 4096, 9000}, between two small requests", 5 * 25 * 5, headSizes));
	n = 2; for (int i = 0; i < d3; ++i) n *= NShapes * 2;
	v.push_back(retried(Suite("slow-socket", "every sequence of " + ref::num(d3) + " requests of the same shapes through a writer on a TCP socket whose other end reads only afterwards, into an empty or a full output buffer, with or without the event loop running between them", n, [d3](Ctx& c, uint64_t r) { slowSocket(c, r, d3); }, 120)));
	v.push_back(retried(Suite("client-urls", ref::num((int)NUrls) + " URLs (without a path, with query, fragment, escapes, ...) x 5 origins (another port, another address, user info, the default port) x 7 ways of making a request, twice on one client", NUrls * 5 * 7, clientUrls)));
	n = 1; for (int i = 0; i < d2; ++i) n *= 5 * 8;
	v.push_back(retried(Suite("client-sequences", "every sequence of " + ref::num(d2) + " requests of 8 shapes to any of 5 origins (same address and other port, same port and other address, ...) by one client", n, [d2](Ctx& c, uint64_t r) { clientSequences(c, r, d2); }, 120)));
	v.push_back(retried(Suite("ipv6", "requests to a literal IPv6 address", 2, ipv6)));
	return v;
}
