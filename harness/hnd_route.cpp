// C13 (router) and C14 (stacks and simple handlers).
#include "handlers.h"
#include "slots.h"
using namespace mc;
typedef Pillow::HttpConnection Conn;

//
// The pattern language: literal characters, ':name' (one or more word characters or '-'), '*name' (anything).
//
struct Token { enum Kind { Lit, Param, Splat } kind; QString text; };
static bool word(QChar ch) { return ch.isLetterOrNumber() || ch.isMark() || ch == '_'; }
static std::vector<Token> parsePattern(const QString& p)
{
	std::vector<Token> v;
	for (int i = 0; i < p.size();)
	{
		if ((p[i] == ':' || p[i] == '*') && i + 1 < p.size() && word(p[i + 1]))
		{
			Token t; t.kind = p[i] == ':' ? Token::Param : Token::Splat; int e = i + 1; while (e < p.size() && word(p[e])) ++e;
			t.text = p.mid(i + 1, e - i - 1); v.push_back(t); i = e;
		}
		else { if (v.empty() || v.back().kind != Token::Lit) { Token t; t.kind = Token::Lit; v.push_back(t); } v.back().text += p[i++]; }
	}
	return v;
}
static bool paramText(const QString& s) { if (s.isEmpty()) return false; for (int i = 0; i < s.size(); ++i) if (!word(s[i]) && s[i] != '-') return false; return true; }
static bool matches(const std::vector<Token>& t, size_t i, const QString& s, int at)
{
	if (i == t.size()) return at == s.size();
	if (t[i].kind == Token::Lit) return s.mid(at, t[i].text.size()) == t[i].text && matches(t, i + 1, s, at + t[i].text.size());
	for (int e = at + (t[i].kind == Token::Param ? 1 : 0); e <= s.size(); ++e)
	{
		if (t[i].kind == Token::Param && !paramText(s.mid(at, e - at))) return false;
		if (matches(t, i + 1, s, e)) return true;
	}
	return false;
}
// The values given to the names must reproduce the path.
static bool consistent(const std::vector<Token>& t, const QString& path, const std::function<QString(const QString&)>& value)
{
	QString s;
	for (size_t i = 0; i < t.size(); ++i)
	{
		if (t[i].kind == Token::Lit) { s += t[i].text; continue; }
		const QString v = value(t[i].text); if (t[i].kind == Token::Param && !paramText(v)) return false; s += v;
	}
	return s == path;
}

static const char* patSegs[] = { "a", ":x", "*s", "ab", "", ":x-y", "b:z", ":z.js", "*t.js", "a-:x", ":x:z", "a.b", ":", "*", "x*s:z", "(a)", "a+", "[ab]", "a|b", "\\w", "^a$", "a?b", ":x_1", "{x}" };
static const char* pathSegs[] = { "a", "ab", "", "a-b", "a.b", "b%C3%A9", "1.js", "a%2Fb", "A", "_", "%3Ax", "*", "aa", "a%0Ab", "a+", "%28a%29", "%5Bab%5D", "axb", "%E2%82%AC", "a%20b", "e%CC%81", "%5Cw", "b", ":", "a%7Cb", "%5Ea$", "a%3Fb", "%25", "-", "ab.js.js" };

struct RouteSpec { const char* method; const char* pattern; };

static int lastRoute, routeCalls;

struct Answering : Pillow::HttpHandler { int calls; bool accept; Conn* last; std::string body; Answering(QObject* p = 0) : HttpHandler(p), calls(0), accept(true), last(0) {} bool handleRequest(Conn* c) { ++calls; last = c; if (accept) c->writeResponse(200, Pillow::HttpHeaderCollection(), qb(body)); return accept; } };

std::vector<Suite> suitesC13(Tier tier)
{
	const bool deep = tier == Thorough; std::vector<Suite> v;
	const uint64_t np = deep ? 24 : 18, nq = deep ? 30 : 22; // segments used in patterns / paths of three segments
	static std::vector<std::string> patterns, paths; patterns.clear(); paths.clear();
	for (int d = 1; d <= 3; ++d)
	{
		const uint64_t a = d < 3 ? 24 : deep ? 24 : 12, b = d < 3 ? 30 : deep ? 24 : 13; uint64_t n = 1, m = 1; for (int k = 0; k < d; ++k) { n *= a; m *= b; }
		for (uint64_t i = 0; i < n; ++i) { uint64_t x = i; std::string s; for (int k = 0; k < d; ++k) s += std::string("/") + patSegs[take(x, a)]; patterns.push_back(s); }
		for (uint64_t i = 0; i < m; ++i) { uint64_t x = i; std::string s; for (int k = 0; k < d; ++k) s += std::string("/") + pathSegs[take(x, b)]; paths.push_back(s); }
	}
	(void)np; (void)nq;
	v.push_back(Suite("patterns", "every pattern of up to 3 segments (" + ref::num(patterns.size()) + ": literals with and without special characters, :params, *splats, mixed within a segment) against every path of up to 3 segments (" + ref::num(paths.size()) + ", with encoded separators, non-ASCII, newline, empty segments): match and bindings", paths.size(), [=](Ctx& c, uint64_t r)
	{
		static std::vector<Pillow::HttpHandlerSimpleRouter*> routers; static std::vector<std::vector<Token> > tokens;
		if (routers.empty()) for (size_t i = 0; i < patterns.size(); ++i)
		{
			Pillow::HttpHandlerSimpleRouter* h = new Pillow::HttpHandlerSimpleRouter; h->addRoute(QString::fromUtf8(patterns[i].c_str()), [](Conn*) { ++routeCalls; });
			routers.push_back(h); tokens.push_back(parsePattern(QString::fromUtf8(patterns[i].c_str())));
		}
		ref::Request q; q.path = paths[r]; Ask ask(q.bytes());
		if (!ask.ready()) { c.fail("harness: %s not delivered", q.path.c_str()); return; }
		const QString path = QString::fromUtf8(qb(ref::percentDecode(q.path))); int hits = 0;
		for (size_t i = 0; i < patterns.size() && !c.failed(); ++i)
		{
			routeCalls = 0; const bool handled = routers[i]->handleRequest(ask.rig.conn), should = matches(tokens[i], 0, path, 0); c.step();
			if (handled != should || routeCalls != (should ? 1 : 0)) { c.fail("pattern %s, path %s: %s, target called %d times", patterns[i].c_str(), q.path.c_str(), handled ? "matched" : "not matched", routeCalls); break; }
			if (should)
			{
				++hits;
				bool repeated = false; QStringList names; for (size_t k = 0; k < tokens[i].size(); ++k) if (tokens[i][k].kind != Token::Lit) { if (names.contains(tokens[i][k].text)) repeated = true; names << tokens[i][k].text; }
				if (!repeated && !consistent(tokens[i], path, [&](const QString& n) { return ask.rig.conn->requestParamValue(n); }))
				{ std::string got; for (int k = 0; k < names.size(); ++k) got += " " + su(names[k]) + "=[" + su(ask.rig.conn->requestParamValue(names[k])) + "]"; c.fail("pattern %s, path %s: wrong bindings:%s", patterns[i].c_str(), q.path.c_str(), got.c_str()); }
			}
		}
		c.state(hash(hash(1, q.path), (uint64_t)hits)); c.log("%s matches %d of %d patterns", q.path.c_str(), hits, (int)patterns.size());
		if (!ask.untouched()) c.fail("the router itself wrote something for %s", q.path.c_str());
	}, 60));

	static const RouteSpec specs[] = { { "", "/a" }, { "GET", "/a" }, { "POST", "/a" }, { "get", "/:id" }, { "", "/*rest" }, { "DELETE", "/a" }, { "PUT", "/:id/*rest" }, { "GE", "/a" }, { "GET", "/a/b" }, { "PoSt", "/*rest" }, { "", "/x/:y" }, { "GETX", "/:id" } };
	struct Req { const char* method; const char* target; }; static const Req reqs[] = { { "GET", "/a" }, { "POST", "/a" }, { "PUT", "/a" }, { "GET", "/a?_method=DELETE" }, { "POST", "/a?id=1&_method=post&id=2" }, { "GET", "/a?_method=" }, { "GET", "/z?ID=q&rest=w&other=1" }, { "GET", "/a/b" }, { "PUT", "/q/w/e?rest=0" }, { "GETX", "/a" }, { "GET", "/x/1?y" }, { "HEAD", "/a" }, { "G", "/none/such" }, { "GET", "/a?_method=GETX&_method=POST" }, { "POST", "/z?_METHOD=gEt" }, { "GET", "/a%2Fb" } };
	const uint64_t ns = 12, nr = 16;
	for (int count = 1; count <= (deep ? 4 : 3); ++count)
	{
		uint64_t total = nr * 8; for (int k = 0; k < count; ++k) total *= ns;
		v.push_back(Suite("routes-" + ref::num(count), "every list of " + ref::num(count) + " routes out of 12 (methods in several cases, overlapping patterns) x 16 requests x unmatched action x method mismatch action x _method accepted or not: chosen route, call count, exact parameters, 404/405 with Allow, or declined untouched", total, [=](Ctx& c, uint64_t r)
		{
			const Req& rq = reqs[take(r, nr)]; const bool un = take(r, 2), mm = take(r, 2), mp = take(r, 2); std::vector<const RouteSpec*> list; for (int k = 0; k < count; ++k) list.push_back(&specs[take(r, ns)]);
			Pillow::HttpHandlerSimpleRouter h; if (un) h.setUnmatchedRequestAction(Pillow::HttpHandlerSimpleRouter::Return4xxResponse); if (mm) h.setMethodMismatchAction(Pillow::HttpHandlerSimpleRouter::Return4xxResponse); if (mp) h.setAcceptsMethodParam(true);
			std::vector<int> called(count, 0); std::string text;
			for (int k = 0; k < count; ++k) { int* n = &called[k]; h.addRoute(QByteArray(list[k]->method), QString(list[k]->pattern), [n](Conn*) { ++*n; }); text += std::string(" ") + list[k]->method + ":" + list[k]->pattern; }
			ref::Request q; q.method = rq.method; const std::string t = rq.target; const size_t qm = t.find('?'); q.path = t.substr(0, qm); if (qm != std::string::npos) { q.hasQuery = true; q.query = t.substr(qm + 1); }
			Ask ask(q.bytes()); if (!ask.ready()) { c.fail("harness: not delivered"); return; }
			std::vector<std::pair<std::string, std::string> > params = refParams(q.query);
			auto lookup = [&](const std::string& n) -> std::string { for (size_t i = 0; i < params.size(); ++i) if (ref::ieq(params[i].first, n)) return params[i].second; return ""; };
			std::string method = q.method; if (mp && !lookup("_method").empty()) method = lookup("_method");
			const QString path = QString::fromUtf8(qb(ref::percentDecode(q.path))); int chosen = -1; std::vector<std::string> allow; bool any = false;
			for (int k = 0; k < count && chosen < 0; ++k) if (matches(parsePattern(list[k]->pattern), 0, path, 0)) { any = true; allow.push_back(list[k]->method); if (!*list[k]->method || ref::ieq(list[k]->method, method)) chosen = k; }
			const bool handled = h.handleRequest(ask.rig.conn); const std::string& out = ask.rig.dev->out;
			std::string p; int expect = chosen >= 0 ? 0 : any ? (mm ? 405 : 0) : (un ? 404 : 0);
			for (int k = 0; k < count; ++k) if (called[k] != (k == chosen ? 1 : 0)) p = "route " + ref::num(k) + " called " + ref::num(called[k]) + " times";
			if (p.empty() && handled != (chosen >= 0 || expect)) p = handled ? "handled" : "declined";
			if (p.empty() && !expect && !ask.untouched()) p = "wrote " + show(out);
			if (p.empty() && expect)
			{
				ref::Response m; size_t next; if (!ref::parseResponse(out, 0, q.method == "HEAD", &m, &next) || !m.problem.empty()) p = "bad response " + show(out); else if (m.status != expect) p = "answered " + ref::num(m.status) + " instead of " + ref::num(expect);
				else if (expect == 405)
				{
					std::vector<std::string> got; std::string a = ref::value(m.headers, "allow"); if (ref::count(m.headers, "allow") != 1) p = "no Allow header";
					for (size_t i = 0; i <= a.size();) { size_t e = a.find(',', i); if (e == std::string::npos) e = a.size(); std::string one = a.substr(i, e - i); while (!one.empty() && one[0] == ' ') one.erase(0, 1); while (!one.empty() && one[one.size() - 1] == ' ') one.erase(one.size() - 1); got.push_back(one); i = e + 1; }
					for (size_t i = 0; i < allow.size(); ++i) { bool f = false; for (size_t k = 0; k < got.size(); ++k) if (ref::ieq(got[k], allow[i])) f = true; if (!f) p = "Allow [" + a + "] lacks " + allow[i]; }
					for (size_t i = 0; i < got.size(); ++i) { bool f = false; for (size_t k = 0; k < allow.size(); ++k) if (ref::ieq(got[i], allow[k])) f = true; if (!f) p = "Allow [" + a + "] lists " + got[i]; }
				}
			}
			if (p.empty() && !(expect && ask.rig.count('C')))
			{
				if (chosen >= 0)
				{
					const std::vector<Token> tk = parsePattern(list[chosen]->pattern);
					if (!consistent(tk, path, [&](const QString& n) { return ask.rig.conn->requestParamValue(n); })) p = "wrong bindings";
					for (size_t i = 0; i < tk.size(); ++i) if (tk[i].kind != Token::Lit) { const std::string n = su(tk[i].text), val = su(ask.rig.conn->requestParamValue(tk[i].text)); bool f = false; for (size_t k = 0; k < params.size() && !f; ++k) if (ref::ieq(params[k].first, n)) { params[k].second = val; f = true; } if (!f) params.push_back(std::make_pair(n, val)); }
				}
				const Seen s = look(ask.rig.conn); bool same = s.params.size() == params.size();
				for (size_t i = 0; same && i < params.size(); ++i) same = s.params[i].second == params[i].second && ref::ieq(s.params[i].first, params[i].first);
				if (p.empty() && !same) p = "request parameters are " + s.text();
			}
			c.log("%s %s over%s -> %s %d", rq.method, rq.target, text.c_str(), handled ? "handled" : "declined", chosen); c.state(hash(hash(hash(2, text), out), (uint64_t)(chosen + 2)));
			if (!p.empty()) c.fail("%s %s%s%s%s, routes%s: %s", rq.method, rq.target, un ? ", 404" : "", mm ? ", 405" : "", mp ? ", _method" : "", text.c_str(), p.c_str());
		}, 30));
	}

	// One router over time: what it answered before must not matter.
	const int hd = deep ? 6 : 5; uint64_t histories = 1; for (int k = 0; k < hd - 1; ++k) histories *= 15;
	v.push_back(Suite("histories", "every sequence of " + ref::num(hd) + " operations on one router, the last one a request: add one of 6 routes (same or overlapping patterns, different methods), one of 6 requests (on one keep-alive connection), toggle either 4xx action or the use of _method: each request is routed by the routes and settings of that moment", histories * 6, [=](Ctx& c, uint64_t r)
	{
		static const RouteSpec specs[] = { { "GET", "/a" }, { "POST", "/a" }, { "", "/:id" }, { "GET", "/*rest" }, { "DELETE", "/:id" }, { "", "/a/b" } };
		static const Req reqs[] = { { "GET", "/a" }, { "POST", "/a" }, { "GET", "/a/b" }, { "POST", "/zz?id=1" }, { "GET", "/a?_method=DELETE" }, { "HEAD", "/a/b" } };
		Pillow::HttpHandlerSimpleRouter h; bool un = false, mm = false, mp = false, handled = false; std::vector<const RouteSpec*> list; std::vector<int> hit; std::string ops, bound; Ask ask("");
		ask.rig.onReady = [&](Conn* k) { handled = h.handleRequest(k); if (!handled) { if (k->state() != Conn::SendingHeaders) c.fail("declined, but answered"); else k->writeResponse(501); } };
		for (int s = 0; s < hd && !c.failed(); ++s)
		{
			const int op = s == hd - 1 ? 6 + take(r, 6) : take(r, 15); ops += " " + ref::num(op);
			if (op < 6) { const int n = (int)list.size(); list.push_back(&specs[op]); h.addRoute(QByteArray(specs[op].method), QString(specs[op].pattern), [n, &hit, &bound](Conn* k) { hit.push_back(n); bound = su(k->requestParamValue("id")) + "|" + su(k->requestParamValue("rest")); k->writeResponse(202, Pillow::HttpHeaderCollection(), "r"); }); continue; }
			if (op >= 12) { if (op == 12) { un = !un; h.setUnmatchedRequestAction(un ? Pillow::HttpHandlerSimpleRouter::Return4xxResponse : Pillow::HttpHandlerSimpleRouter::Passthrough); } else if (op == 13) { mm = !mm; h.setMethodMismatchAction(mm ? Pillow::HttpHandlerSimpleRouter::Return4xxResponse : Pillow::HttpHandlerSimpleRouter::Passthrough); } else { mp = !mp; h.setAcceptsMethodParam(mp); } continue; }
			const Req& rq = reqs[op - 6]; const std::string t = rq.target; const size_t qm = t.find('?'); const std::string path = t.substr(0, qm), query = qm == std::string::npos ? "" : t.substr(qm + 1); std::string method = rq.method; if (mp && query.compare(0, 8, "_method=") == 0) method = query.substr(8);
			int chosen = -1; bool any = false; for (size_t k = 0; k < list.size() && chosen < 0; ++k) if (matches(parsePattern(list[k]->pattern), 0, QString(path.c_str()), 0)) { any = true; if (!*list[k]->method || ref::ieq(list[k]->method, method)) chosen = (int)k; }
			const int status = chosen >= 0 ? 202 : any ? (mm ? 405 : 501) : un ? 404 : 501;
			hit.clear(); bound.clear(); const size_t at = ask.rig.dev->out.size(); ask.rig.dev->give(std::string(rq.method) + " " + rq.target + " HTTP/1.1\r\n\r\n");
			ref::Response m; size_t next; std::string p; if (!ref::parseResponse(ask.rig.dev->out, at, method != rq.method ? false : std::string(rq.method) == "HEAD", &m, &next) || next != ask.rig.dev->out.size() || m.status != status) p = "answered " + show(ask.rig.dev->out.substr(at), 100) + " instead of " + ref::num(status);
			else if (handled != (status != 501)) p = handled ? "handled" : "declined"; else if (hit.size() != (chosen >= 0 ? 1u : 0u) || (chosen >= 0 && hit[0] != chosen)) p = "route " + (hit.empty() ? std::string("none") : ref::num(hit[0])) + " called instead of " + ref::num(chosen);
			else if (chosen >= 0)
			{
				const std::string pat = list[chosen]->pattern, wantId = pat == "/:id" ? path.substr(1) : query == "id=1" ? "1" : "", wantRest = pat == "/*rest" ? path.substr(1) : "";
				if (bound != wantId + "|" + wantRest) p = "bound " + bound;
			}
			c.state(hash(hash(4, ops), ask.rig.dev->out)); if (!p.empty()) c.fail("operations%s: %s", ops.c_str(), p.c_str());
		}
		c.log("operations%s", ops.c_str());
	}, 30));
	v.push_back(Suite("many", "patterns with 1..40 parameters and splats (20 shapes), each bound; routers with 1..200 routes of which each one is asked for", 40 * 20 + 200, [=](Ctx& c, uint64_t r)
	{
		const uint64_t id = r; std::string p;
		if (r < 800)
		{
			const int n = take(r, 40) + 1, shape = take(r, 20); std::string pattern, path; std::vector<std::pair<std::string, std::string> > want;
			for (int k = 0; k < n; ++k)
			{
				const bool splat = shape % 4 == 3 || (shape % 4 == 2 && k == n - 1) || (shape % 4 == 1 && k == 0); const std::string name = (shape / 4 == 0 ? "p" : shape / 4 == 1 ? "name" : shape / 4 == 2 ? "P_" : shape / 4 == 3 ? "x1y" : "_") + ref::num(k), value = (shape % 2 ? "v" : "") + ref::num(k * 7);
				const std::string lit = splat ? "/lit" + ref::num(k) + "/" : k % 3 == 2 ? "/x." : "/"; pattern += lit + (splat ? "*" : ":") + name; path += lit + value; want.push_back(std::make_pair(name, value));
			}
			Pillow::HttpHandlerSimpleRouter h; int calls = 0; h.addRoute(QString(pattern.c_str()), [&](Conn* k) { ++calls; for (size_t i = 0; i < want.size(); ++i) if (su(k->requestParamValue(QString(want[i].first.c_str()))) != want[i].second) p = want[i].first + " is bound to [" + su(k->requestParamValue(QString(want[i].first.c_str()))) + "]"; if ((size_t)k->requestParams().size() != want.size()) p = ref::num(k->requestParams().size()) + " parameters"; });
			Ask ask("GET " + path + " HTTP/1.1\r\n\r\n"); if (!h.handleRequest(ask.rig.conn) || calls != 1) p = "not matched"; if (!p.empty()) p = "pattern " + pattern + ": " + p;
		}
		else
		{
			const int n = (int)(r - 800) + 1; Pillow::HttpHandlerSimpleRouter h; std::vector<int> hits(n, 0);
			for (int k = 0; k < n; ++k) { int* x = &hits[k]; const QString pat = k % 3 == 0 ? "/r" + QString::number(k) : k % 3 == 1 ? "/r" + QString::number(k) + "/:x" : "/r" + QString::number(k) + "-*x"; h.addRoute(k % 2 ? "GET" : "", pat, [x](Conn*) { ++*x; }); h.addRoute("PUT", pat, [&](Conn*) { p = "the route of another method was called"; }); }
			for (int k = 0; k < n && p.empty(); ++k) { Ask ask("GET /r" + ref::num(k) + (k % 3 == 0 ? "" : k % 3 == 1 ? "/vv" : "-") + " HTTP/1.1\r\n\r\n"); if (!h.handleRequest(ask.rig.conn) || hits[k] != 1) p = "route " + ref::num(k) + " of " + ref::num(n) + " not taken"; c.step(); }
			int total = 0; for (int k = 0; k < n; ++k) total += hits[k]; if (p.empty() && total != n) p = ref::num(total) + " calls for " + ref::num(n) + " requests";
		}
		c.state(hash(5, id)); if (!p.empty()) c.fail("%s", p.c_str());
	}, 30));

	// All kinds of targets, alive or gone, alone or after another route.
	enum Kind { KHandler, KSlotMacro, KSlotName, KBareName, KPrivateSlot, KInvokable, KInvokableName, KOverload, KFunction, KStatic, KStaticEmpty, KNullObject, KNullMember, KEmptyMember, KNoSuch, KWrongArgs, KHandlerDeclines, KDeletedHandler, KDeletedObject, NKinds };
	static const char* kindNames[] = { "handler", "SLOT()", "slot signature", "bare slot name", "private slot", "SLOT(invokable)", "bare invokable name", "bare overloaded slot name", "function", "static", "static empty", "null object", "null member", "empty member", "no such member", "slot with other arguments", "declining handler", "deleted handler", "deleted object" };
	v.push_back(Suite("targets", "every kind of target (19, also gone or missing) as the matching route, x method given or not x another route before x a catch-all after x requests repeated 3 times", NKinds * 2 * 2 * 2, [=](Ctx& c, uint64_t r)
	{
		const int kind = take(r, NKinds); const QByteArray method = take(r, 2) ? "GET" : ""; const bool before = take(r, 2), after = take(r, 2);
		Pillow::HttpHandlerSimpleRouter h; SlotTarget* t = new SlotTarget; Answering* a = new Answering; a->body = "handler"; int fn = 0, others = 0; const Pillow::HttpHeaderCollection hs = Pillow::HttpHeaderCollection() << Pillow::HttpHeader("X-A", "1") << Pillow::HttpHeader("X-B", "2");
		if (before) h.addRoute("/other/*s", [&](Conn*) { ++others; });
		std::string body; bool works = true;
		switch (kind)
		{
		case KHandler: h.addRoute(method, "/r/:p", a); body = "handler"; break;
		case KSlotMacro: h.addRoute(method, "/r/:p", t, SLOT(slot(Pillow::HttpConnection*))); body = "slot"; break;
		case KSlotName: h.addRoute(method, "/r/:p", t, "slot(Pillow::HttpConnection*)"); body = "slot"; break;
		case KBareName: h.addRoute(method, "/r/:p", t, "slot"); body = "slot"; break;
		case KPrivateSlot: h.addRoute(method, "/r/:p", t, SLOT(hidden(Pillow::HttpConnection*))); body = "hidden"; break;
		case KInvokable: h.addRoute(method, "/r/:p", t, SLOT(invokable(Pillow::HttpConnection*))); body = "invokable"; break;
		case KInvokableName: h.addRoute(method, "/r/:p", t, "invokable"); body = "invokable"; break;
		case KOverload: h.addRoute(method, "/r/:p", t, "overloaded"); body = "overloaded"; break;
		case KFunction: h.addRoute(method, "/r/:p", [&](Conn* k) { ++fn; k->writeResponse(200, Pillow::HttpHeaderCollection(), "function"); }); body = "function"; break;
		case KStatic: h.addRoute(method, "/r/:p", 202, hs, "static"); body = "static"; break;
		case KStaticEmpty: h.addRoute(method, "/r/:p", 204, hs); body = ""; break;
		case KNullObject: h.addRoute(method, "/r/:p", (QObject*)0, "slot"); works = false; break;
		case KNullMember: h.addRoute(method, "/r/:p", t, (const char*)0); works = false; break;
		case KEmptyMember: h.addRoute(method, "/r/:p", t, ""); works = false; break;
		case KNoSuch: h.addRoute(method, "/r/:p", t, "nothing"); works = false; break;
		case KWrongArgs: h.addRoute(method, "/r/:p", t, "wrong"); works = false; break;
		case KHandlerDeclines: a->accept = false; h.addRoute(method, "/r/:p", a); works = false; break;
		case KDeletedHandler: h.addRoute(method, "/r/:p", a); works = false; break;
		case KDeletedObject: h.addRoute(method, "/r/:p", t, SLOT(slot(Pillow::HttpConnection*))); works = false; break;
		}
		if (after) h.addRoute("/*all", [&](Conn*) { ++others; });
		if (kind == KDeletedHandler) { delete a; a = 0; } if (kind == KDeletedObject) { delete t; t = 0; }
		for (int i = 1; i <= 3 && !c.failed(); ++i)
		{
			ref::Request q; q.path = "/r/v" + ref::num(i); Ask ask(q.bytes()); std::string p; const int wasOthers = others;
			const bool handled = h.handleRequest(ask.rig.conn); const int total = (t ? t->calls() : 0) + (a ? a->calls : 0) + fn; const bool isStatic = kind == KStatic || kind == KStaticEmpty;
			if (works)
			{
				ref::Response m; size_t next; const int status = kind == KStatic ? 202 : kind == KStaticEmpty ? 204 : 200;
				if (!handled) p = "declined"; else if (total != (isStatic ? 0 : i)) p = "called " + ref::num(total) + " times after " + ref::num(i) + " requests"; else if (others) p = "another route was called";
				else if (!ref::parseResponse(ask.rig.dev->out, 0, false, &m, &next) || m.status != status || m.body != body || next != ask.rig.dev->out.size()) p = "sent " + show(ask.rig.dev->out);
				else if (isStatic && (ref::value(m.headers, "x-a") != "1" || ref::value(m.headers, "x-b") != "2")) p = "headers lost: " + show(ask.rig.dev->out);
				else if (!isStatic && kind != KFunction && (t && a->calls == 0 ? t->last : a->last) != ask.rig.conn) p = "called with another connection";
			}
			else
			{
				// Nothing answered: the request must remain available to whoever comes next.
				if (handled && others == wasOthers) p = "reported as handled, but nothing will answer it"; else if (!ask.untouched()) p = "sent " + show(ask.rig.dev->out);
			}
			c.state(hash(hash(hash(3, kind), ask.rig.dev->out), handled)); c.log("%s: %s %s", kindNames[kind], handled ? "handled" : "declined", show(ask.rig.dev->out, 80).c_str());
			if (!p.empty()) c.fail("%s target%s%s, request %d: %s", kindNames[kind], before ? ", a route before" : "", after ? ", a catch-all after" : "", i, p.c_str());
		}
		delete t; delete a;
	}, 30));
	return v;
}

//
// C14
//
struct Probe : Pillow::HttpHandler
{
	int id; int mode; std::string* trace; // mode 0 declines, 1 accepts and answers, 2 accepts without answering yet.
	Probe(int id, int mode, std::string* trace, QObject* parent) : HttpHandler(parent), id(id), mode(mode), trace(trace) {}
	bool handleRequest(Conn* c) { *trace += (char)('a' + id); if (mode == 1) c->writeResponse(200, Pillow::HttpHeaderCollection(), qb("probe " + ref::num(id))); return mode != 0; }
};

enum Node { Decline, AcceptNow, AcceptLater, Fixed, NotFound, Func, NoFunc, Other, OpenStack, CloseStack, NNodes };

std::vector<Suite> suitesC14(Tier tier)
{
	const bool deep = tier == Thorough; std::vector<Suite> v; const int len = deep ? 7 : 6; uint64_t total = 1; for (int i = 0; i < len; ++i) total *= NNodes;
	v.push_back(Suite("trees", "every handler tree written as " + ref::num(len) + " symbols of { declining, accepting now, accepting later, fixed, 404, function, empty function, non-handler object, open nested stack, close it }: offered in order, stops at the first taker, result, bytes; offered twice", total, [=](Ctx& c, uint64_t r)
	{
		Pillow::HttpHandlerStack top; std::vector<QObject*> stack(1, &top); std::string trace, spec, expect; bool taken = false; std::string body; int status = 0; bool later = false; std::vector<int> fnCalls(len, 0); 
		std::vector<Pillow::HttpHandlerFunction*> fns;
		for (int i = 0; i < len; ++i)
		{
			const int n = take(r, NNodes); QObject* at = stack.back(); spec += "DALF4fnO()"[n];
			auto offered = [&](bool takes, int s, const std::string& b) { if (taken) return; if (takes) { taken = true; status = s; body = b; } };
			switch (n)
			{
			case Decline: case AcceptNow: case AcceptLater: new Probe(i, n == Decline ? 0 : n == AcceptNow ? 1 : 2, &trace, at); if (!taken) expect += (char)('a' + i); if (n == AcceptLater && !taken) later = true; offered(n != Decline, 200, "probe " + ref::num(i)); break;
			case Fixed: new Pillow::HttpHandlerFixed(203, qb("fixed " + ref::num(i)), at); offered(true, 203, "fixed " + ref::num(i)); break;
			case NotFound: new Pillow::HttpHandler404(at); offered(true, 404, "*"); break;
			case Func: { int* k = &fnCalls[i]; new Pillow::HttpHandlerFunction([k, i](Conn* q) { ++*k; q->writeResponse(201, Pillow::HttpHeaderCollection(), qb("function " + ref::num(i))); }, at); offered(true, 201, "function " + ref::num(i)); } break;
			case NoFunc: new Pillow::HttpHandlerFunction(at); break;
			case Other: new Probe(25, 1, &trace, new QObject(at)); break;
			case OpenStack: stack.push_back(new Pillow::HttpHandlerStack(at)); break;
			case CloseStack: if (stack.size() > 1) stack.pop_back(); break;
			}
		}
		for (int turn = 0; turn < 2 && !c.failed(); ++turn)
		{
			trace.clear(); int before = 0; for (int i = 0; i < len; ++i) before += fnCalls[i];
			ref::Request q; q.path = "/some/path"; Ask ask(q.bytes()); const bool handled = top.handleRequest(ask.rig.conn); std::string p; int after = 0; for (int i = 0; i < len; ++i) after += fnCalls[i];
			if (handled != taken) p = handled ? "accepted" : "declined"; else if (trace != expect) p = "offered to [" + trace + "] instead of [" + expect + "]"; else if (after - before != (taken && status == 201 ? 1 : 0)) p = "functions called " + ref::num(after - before) + " times";
			else if (!taken || later) { if (!ask.untouched()) p = "sent " + show(ask.rig.dev->out); }
			else
			{
				ref::Response m; size_t next; if (!ref::parseResponse(ask.rig.dev->out, 0, false, &m, &next) || m.status != status || next != ask.rig.dev->out.size()) p = "sent " + show(ask.rig.dev->out);
				else if (body == "*" ? m.body.find(q.path) == std::string::npos : m.body != body) p = "sent " + show(ask.rig.dev->out);
			}
			c.state(hash(hash(hash(1, trace), ask.rig.dev->out), handled)); c.log("%s: %s, trace %s", spec.c_str(), handled ? "accepted" : "declined", trace.c_str());
			if (!p.empty()) c.fail("tree %s, request %d: %s", spec.c_str(), turn + 1, p.c_str());
		}
	}, 30));

	v.push_back(Suite("wide-and-deep", "1..120 handlers in one stack, or in stacks nested 1..120 deep, or both, the taker (an answering one, a fixed one, none) at the start, in the middle, at the end", 120 * 3 * 3 * 3, [=](Ctx& c, uint64_t r)
	{
		const uint64_t id = r; const int n = take(r, 120) + 1, shape = take(r, 3), kind = take(r, 3), where = take(r, 3), at = where == 0 ? 0 : where == 1 ? n / 2 : n - 1;
		Pillow::HttpHandlerStack top; QObject* in = &top; std::string trace; struct Counter : Pillow::HttpHandler { int* n; Counter(int* n, QObject* p) : HttpHandler(p), n(n) {} bool handleRequest(Conn*) { ++*n; return false; } }; int asked = 0;
		for (int k = 0; k < n; ++k)
		{
			if (k == at && kind == 0) new Probe(0, 1, &trace, in); else if (k == at && kind == 1) new Pillow::HttpHandlerFixed(203, "probe 0", in); else new Counter(&asked, in);
			if (shape == 1 || (shape == 2 && k % 5 == 4)) in = new Pillow::HttpHandlerStack(in);
		}
		Ask ask(ref::Request().bytes()); const bool handled = top.handleRequest(ask.rig.conn); const int wantAsked = kind == 2 ? n : at; std::string p;
		if (handled != (kind != 2)) p = handled ? "accepted" : "declined"; else if (asked != wantAsked) p = ref::num(asked) + " handlers asked instead of " + ref::num(wantAsked);
		else if (kind == 2 ? !ask.untouched() : ask.rig.dev->out.size() < 7 || ask.rig.dev->out.substr(ask.rig.dev->out.size() - 7) != "probe 0") p = "sent " + show(ask.rig.dev->out);
		c.state(hash(7, id)); if (!p.empty()) c.fail("%d handlers, shape %d, taker %d at %d: %s", n, shape, kind, at, p.c_str());
	}, 30));

	enum { WDecline, WHeadersThenDecline, WAnswerThenDecline, WCloseThenDecline, WAccept, WAnswerAccept, NWays };
	struct Way : Pillow::HttpHandler
	{
		int id, way; std::string* trace; Way(int id, int way, std::string* trace, QObject* parent) : Pillow::HttpHandler(parent), id(id), way(way), trace(trace) {}
		bool handleRequest(Conn* k)
		{
			*trace += (char)('a' + id); const bool fresh = k->state() == Conn::SendingHeaders;
			if (way == WHeadersThenDecline && fresh) k->writeHeaders(200, Pillow::HttpHeaderCollection() << Pillow::HttpHeader("Content-Length", "2"));
			if ((way == WAnswerThenDecline || way == WAnswerAccept) && fresh) k->writeResponse(200, Pillow::HttpHeaderCollection(), "ok");
			if (way == WCloseThenDecline) k->close();
			return way == WAccept || way == WAnswerAccept;
		}
	};
	v.push_back(Suite("what-counts", "every row of 4 handlers, each nested in 0-2 stacks, that { decline, decline after sending headers, after answering, after closing, accept without or with an answer } : only the returned value decides who is asked and what the stack returns", NWays * NWays * NWays * NWays * 3, [=](Ctx& c, uint64_t r)
	{
		const int depth = take(r, 3); Pillow::HttpHandlerStack top; std::string trace, expect, spec; bool taken = false;
		for (int i = 0; i < 4; ++i)
		{
			const int way = take(r, NWays); QObject* at = &top; for (int k = 0; k < depth; ++k) if ((i + k) % 2 == 0) at = new Pillow::HttpHandlerStack(at);
			new Way(i, way, &trace, at); spec += "-hxcAa"[way]; if (!taken) { expect += (char)('a' + i); taken = way >= WAccept; }
		}
		Ask ask(""); bool handled = false; ask.rig.onReady = [&](Conn* k) { handled = top.handleRequest(k); }; ask.rig.dev->give(ref::Request().bytes()); pump();
		c.state(hash(hash(6, trace), handled)); c.log("%s: %s", spec.c_str(), trace.c_str());
		if (handled != taken || trace != expect) c.fail("handlers %s, nested %d deep: asked [%s] instead of [%s], %s", spec.c_str(), depth, trace.c_str(), expect.c_str(), handled ? "accepted" : "declined");
	}, 30));

	v.push_back(Suite("changing-stacks", "every sequence of " + ref::num(deep ? 6 : 5) + " operations on a stack (add a declining/accepting handler, delete the first/last, move the first to the end, toggle the first, request): always the current children in their current order", [&]() { uint64_t n = 1; for (int i = 0; i < (deep ? 6 : 5); ++i) n *= 7; return n; }(), [=](Ctx& c, uint64_t r)
	{
		Pillow::HttpHandlerStack top; std::vector<Probe*> kids; std::string trace, ops; int id = 0;
		for (int s = 0; s <= (deep ? 6 : 5) && !c.failed(); ++s)
		{
			const int op = s == (deep ? 6 : 5) ? 6 : take(r, 7); ops += ref::num(op);
			switch (op)
			{
			case 0: case 1: kids.push_back(new Probe(id++, op, &trace, &top)); break;
			case 2: if (!kids.empty()) { delete kids[0]; kids.erase(kids.begin()); } break;
			case 3: if (!kids.empty()) { delete kids.back(); kids.pop_back(); } break;
			case 4: if (!kids.empty()) { Probe* k = kids[0]; k->setParent(0); k->setParent(&top); kids.erase(kids.begin()); kids.push_back(k); } break;
			case 5: if (!kids.empty()) kids[0]->mode = !kids[0]->mode; break;
			case 6:
			{
				trace.clear(); ref::Request q; Ask ask(q.bytes()); const bool handled = top.handleRequest(ask.rig.conn); std::string expect; bool taken = false;
				for (size_t k = 0; k < kids.size() && !taken; ++k) { expect += (char)('a' + kids[k]->id); taken = kids[k]->mode; }
				c.state(hash(hash(2, ops), trace));
				if (handled != taken || trace != expect) c.fail("operations %s: offered to [%s] instead of [%s], %s", ops.c_str(), trace.c_str(), expect.c_str(), handled ? "accepted" : "declined");
			}
			}
		}
		c.log("operations %s", ops.c_str());
	}, 30));

	v.push_back(Suite("fixed", "every sequence of 4 changes of status (5 values) or content (5 values: empty, short, binary, 5000 bytes) to a fixed handler, requests GET/HEAD/POST on one keep-alive connection after each", 10 * 10 * 10 * 10, [=](Ctx& c, uint64_t r)
	{
		static const int st[] = { 200, 404, 503, 201, 500 }; const std::string ct[] = { "", "short", std::string("\0\r\n\xff", 4), ref::text(5000), "other" };
		int status = r % 2 ? 404 : 200; std::string body = r % 3 ? "initial" : ""; Pillow::HttpHandlerFixed h(status, qb(body)); int changed = 0, expectChanged = 0; QObject::connect(&h, &Pillow::HttpHandlerFixed::changed, [&]() { ++changed; });
		if (r == 7) { Pillow::HttpHandlerFixed d; if (d.statusCode() != 200 || !d.content().isEmpty()) c.fail("default is %d", d.statusCode()); }
		Ask ask(""); bool handled = false; ask.rig.onReady = [&](Conn* k) { handled = h.handleRequest(k); }; std::string ops;
		for (int s = 0; s < 4 && !c.failed(); ++s)
		{
			const int op = take(r, 10); ops += ref::num(op);
			if (op < 5) { if (status != st[op]) ++expectChanged; status = st[op]; h.setStatusCode(status); } else { if (body != ct[op - 5]) ++expectChanged; body = ct[op - 5]; h.setContent(qb(body)); }
			for (int m = 0; m < 3 && !c.failed(); ++m)
			{
				ref::Request q; q.method = m == 0 ? "GET" : m == 1 ? "HEAD" : "POST"; if (m == 2) q.content("posted"); const size_t at = ask.rig.dev->out.size(); ask.rig.dev->give(q.bytes());
				Reply rep = Reply::whole(status, body); size_t next; const std::string p = checkMessage(ask.rig.dev->out, at, q, rep, prescribe(q, rep), &next);
				c.state(hash(3, ask.rig.dev->out.substr(at)));
				if (!handled) c.fail("fixed handler declined"); else if (!p.empty() || next != ask.rig.dev->out.size()) c.fail("operations %s, %s: %s", ops.c_str(), q.method.c_str(), p.empty() ? "extra output" : p.c_str());
			}
			if (h.statusCode() != status || sb(h.content()) != body) c.fail("operations %s: accessors do not return the current values", ops.c_str());
			if (changed != expectChanged) c.fail("operations %s: changed() emitted %d times instead of %d", ops.c_str(), changed, expectChanged);
		}
		c.log("operations %s", ops.c_str());
	}, 30));

	v.push_back(Suite("not-found", "404 handler: paths with every byte value allowed in a path, escapes, placeholders, 0-2000 bytes long, x GET, HEAD, POST: always 404, naming the path", (256 + 12) * 3, [=](Ctx& c, uint64_t r)
	{
		const int m = take(r, 3); ref::Request q; q.method = m == 0 ? "GET" : m == 1 ? "HEAD" : "POST"; static const char* special[] = { "/%251", "/%1", "/%41", "/%2F", "/a/b/c", "//", "/a'b", "/%E2%82%AC", "/%251%252", "/a%20b", "/'", "/~" };
		if (r < 256) q.path = std::string("/x") + (char)r + "y"; else q.path = special[r - 256]; if (r == 'Z') q.path = "/" + ref::text(2000);
		Ask ask(q.bytes()); if (!ask.ready() || q.path.find('#') != std::string::npos || q.path.find('?') != std::string::npos) { c.step(); return; }
		Pillow::HttpHandler404 h; const bool handled = h.handleRequest(ask.rig.conn); ref::Response res; size_t next;
		c.state(hash(4, ask.rig.dev->out)); c.log("%s -> %s", show(q.path, 50).c_str(), show(ask.rig.dev->out, 200).c_str());
		if (!handled || !ref::parseResponse(ask.rig.dev->out, 0, m == 1, &res, &next) || !res.problem.empty() || res.status != 404 || next != ask.rig.dev->out.size()) { c.fail("%s: %s", show(q.path, 60).c_str(), show(ask.rig.dev->out).c_str()); return; }
		bool ascii = true; for (size_t i = 0; i < q.path.size(); ++i) if ((unsigned char)q.path[i] > 127) ascii = false;
		if (m != 1 && ascii && res.body.find(q.path) == std::string::npos) c.fail("%s is not named in %s", q.path.c_str(), show(res.body).c_str());
	}, 30));

	v.push_back(Suite("function", "every sequence of 5 of { set function A, set function B, clear it, request }: current function called once with the connection, or declined", 4 * 4 * 4 * 4 * 4, [=](Ctx& c, uint64_t r)
	{
		int calls[2] = { 0, 0 }, expect[2] = { 0, 0 }; Conn* last = 0; int cur = -1; std::string ops; const bool initial = r % 2; std::function<void(Conn*)> f[2]; for (int i = 0; i < 2; ++i) f[i] = [&calls, &last, i](Conn* k) { ++calls[i]; last = k; };
		Pillow::HttpHandlerFunction* h = initial ? new Pillow::HttpHandlerFunction(f[0]) : new Pillow::HttpHandlerFunction(); if (initial) cur = 0;
		for (int s = 0; s < 6 && !c.failed(); ++s)
		{
			const int op = s == 5 ? 3 : take(r, 4); ops += ref::num(op);
			if (op < 2) { h->setFunction(f[op]); cur = op; } else if (op == 2) { h->setFunction(std::function<void(Conn*)>()); cur = -1; }
			else { ref::Request q; Ask ask(q.bytes()); const bool handled = h->handleRequest(ask.rig.conn); if (cur >= 0) ++expect[cur]; c.state(hash(hash(5, ops), handled)); if (handled != (cur >= 0) || calls[0] != expect[0] || calls[1] != expect[1] || (cur >= 0 && last != ask.rig.conn) || !ask.untouched()) c.fail("operations %s: %s, called %d/%d times instead of %d/%d", ops.c_str(), handled ? "accepted" : "declined", calls[0], calls[1], expect[0], expect[1]); }
		}
		delete h; c.log("operations %s", ops.c_str());
	}, 30));
	return v;
}
