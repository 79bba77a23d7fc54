// C21: replies of the network access manager.
#include "client.h"
#include <QtNetwork/QNetworkReply>
#include <QtNetwork/QNetworkCookieJar>
#include <QtNetwork/QNetworkCookie>
#include <QtNetwork/QHttpMultiPart>
using namespace mc;
using std::string;
typedef Pillow::NetworkAccessManager Nam;

struct Watched // A reply with everything it tells.
{
	QPointer<QNetworkReply> r; int finished, errors, meta, id; string content; int reading; QNetworkReply::NetworkError signalled; bool deleted, finishedAtOnce; std::function<void()> onFinished; string atFinish;
	Watched(QNetworkReply* reply, int id, int reading) : r(reply), finished(0), errors(0), meta(0), id(id), reading(reading), signalled(QNetworkReply::NoError), deleted(false), finishedAtOnce(reply->isFinished())
	{
		QObject::connect(reply, &QNetworkReply::finished, [this]() { ++this->finished; take(true); if (onFinished) onFinished(); });
		QObject::connect(reply, static_cast<void (QNetworkReply::*)(QNetworkReply::NetworkError)>(&QNetworkReply::error), [this](QNetworkReply::NetworkError e) { ++errors; signalled = e; });
		QObject::connect(reply, &QNetworkReply::metaDataChanged, [this]() { ++meta; });
		QObject::connect(reply, &QIODevice::readyRead, [this]() { take(false); });
	}
	void take(bool last) // reading: 0 all at the end, 1 all at once, 2 a few bytes at a time.
	{
		if (!r || !r->isOpen() || (reading == 0 && !last)) return;
		if (reading == 2 && !last) { char b[7]; const qint64 n = r->bytesAvailable() ? r->read(b, 7) : 0; if (n > 0) content.append(b, n); return; }
		content += sb(r->readAll());
	}
	~Watched() { if (r) { QObject::disconnect(r, 0, 0, 0); delete r.data(); } }
};

struct Net
{
	struct Conn { std::unique_ptr<Peer> p; int origin, busy; }; // busy: the request under way on it.
	Ctx& ctx; std::unique_ptr<Nam> nam; Listener l[3]; std::vector<std::unique_ptr<Conn> > conns; std::vector<std::unique_ptr<Watched> > all; std::map<int, ref::Request> arrived; std::map<int, int> where, targetOrigin; string story; int managerFinished;
	explicit Net(Ctx& ctx) : ctx(ctx), nam(new Nam), managerFinished(0) { l[1].close(); l[1].ip = l[0].ip; l[1].open(); QObject::connect(nam.get(), &QNetworkAccessManager::finished, [this](QNetworkReply*) { ++managerFinished; }); }
	~Net() { all.clear(); nam.reset(); spin(1); }
	void fail(const string& s) { ctx.fail("%s; %s", s.c_str(), story.c_str()); }
	Watched& watch(QNetworkReply* r, int id, int reading) { all.push_back(std::unique_ptr<Watched>(new Watched(r, id, reading))); return *all.back(); }
	Watched& get(int id, int origin, int reading = 0) { targetOrigin[id] = origin; return watch(nam->get(QNetworkRequest(url(l[origin].base() + "/r" + ref::num(id)))), id, reading); }
	Conn* connOf(int id) { for (size_t i = 0; i < conns.size(); ++i) if (conns[i]->busy == id) return conns[i].get(); return 0; }
	// Accepts and reads whatever has come.
	void poll()
	{
		for (int k = 0; k < 3; ++k) while (l[k].fd >= 0 && l[k].pending()) { Peer* p = l[k].accept(); if (!p) break; std::unique_ptr<Conn> c(new Conn); c->p.reset(p); c->origin = k; c->busy = 0; conns.push_back(std::move(c)); }
		for (size_t i = 0; i < conns.size(); ++i)
		{
			Conn& c = *conns[i]; ref::Request q;
			while (takeRequest(*c.p, &q))
			{
				const int id = atoi(q.target().c_str() + 2);
				if (c.busy) { fail("request " + ref::num(id) + " was sent on a connection that awaits the response to request " + ref::num(c.busy)); return; }
				if (targetOrigin.count(id) && targetOrigin[id] != c.origin) { fail("request " + ref::num(id) + " was sent to the wrong server"); return; }
				if (arrived.count(id)) { fail("request " + ref::num(id) + " was sent twice"); return; }
				arrived[id] = q; c.busy = id; where[id] = (int)i;
			}
		}
	}
	bool arrives(int id) { return until([&]() { poll(); return arrived.count(id) > 0 || ctx.failed(); }) && !ctx.failed(); }
	bool answer(int id, const string& bytes, bool close = false) { Conn* c = connOf(id); if (!c) { fail("harness: request is not under way"); return false; } c->busy = 0; c->p->give(bytes); if (close) c->p->fin(); return true; }
};

static string joined(const ref::Headers& h, const string& name, const char* sep) { string s; bool first = true; for (size_t i = 0; i < h.size(); ++i) if (ref::ieq(h[i].first, name)) { s += (first ? "" : sep) + h[i].second; first = false; } return s; }

static string checkReply(Watched& w, const Resp& r, const string& body)
{
	QNetworkReply& q = *w.r;
	if (w.finished != 1 || !q.isFinished()) return "finished() was emitted " + ref::num(w.finished) + " times, isFinished() " + ref::num(q.isFinished());
	if (q.error() != QNetworkReply::NoError || w.errors) return "error " + ref::num(q.error()) + ", signalled " + ref::num(w.errors) + " times";
	if (q.attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt() != r.status) return "status " + ref::num(q.attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt()) + " instead of " + ref::num(r.status);
	if (w.meta < 1) return "metaDataChanged() was not emitted";
	if (w.content != body) return "content [" + mc::show(w.content, 100) + "] (" + ref::num(w.content.size()) + " bytes) instead of [" + mc::show(body, 100) + "] (" + ref::num(body.size()) + ")";
	ref::Headers cookies;
	for (size_t i = 0; i < r.headers.size(); ++i)
	{
		const string& n = r.headers[i].first; if (ref::ieq(n, "set-cookie")) { cookies.push_back(r.headers[i]); continue; }
		const string got = sb(q.rawHeader(qb(n))); if ((!q.hasRawHeader(qb(n)) && !joined(r.headers, n, "").empty()) || (got != joined(r.headers, n, ", ") && got != joined(r.headers, n, ",") && got != joined(r.headers, n, "\n"))) return "header " + n + " is [" + mc::show(got) + "] instead of [" + mc::show(joined(r.headers, n, ", ")) + "]";
	}
	foreach (const QByteArray& n, q.rawHeaderList()) if (!ref::find(r.headers, sb(n))) return "header " + sb(n) + " was not sent";
	string want, have; for (size_t i = 0; i < cookies.size(); ++i) want += cookies[i].second.substr(0, cookies[i].second.find(';')) + "|";
	foreach (const QNetworkCookie& k, q.header(QNetworkRequest::SetCookieHeader).value<QList<QNetworkCookie> >()) have += sb(k.toRawForm(QNetworkCookie::NameAndValueOnly)) + "|";
	if (want != have) return "cookies [" + have + "] instead of [" + want + "]";
	if (r.status / 100 == 3 && r.status != 304 && ref::find(r.headers, "location")) { if (sb(q.attribute(QNetworkRequest::RedirectionTargetAttribute).toUrl().toEncoded()) != ref::value(r.headers, "location")) return "redirection target [" + sb(q.attribute(QNetworkRequest::RedirectionTargetAttribute).toUrl().toEncoded()) + "]"; }
	else if (!ref::find(r.headers, "location") && q.attribute(QNetworkRequest::RedirectionTargetAttribute).isValid()) return "a redirection target without a location";
	return "";
}

static std::vector<Resp> responses()
{
	std::vector<Resp> v; auto ints = [](int a, int b = 0) { std::vector<int> r(1, a); if (b) r.push_back(b); return r; };
	v.push_back(Resp().h("Content-Type", "text/plain").len("hello")); v.push_back(Resp().len("")); v.push_back(Resp().h("X-A", "1").h("X-B", "").h("x-c", "three, four").chk("chunked content", ints(7, 8))); v.push_back(Resp().h("Until", "eof").eof("to the end")); v.push_back(Resp().h("Connection", "close").len("bye"));
	v.push_back(Resp().st(204, "No Content")); v.push_back(Resp().st(304, "Not Modified").h("ETag", "\"x\"")); v.push_back(Resp().st(404, "Not Found").len("nothing here")); v.push_back(Resp().st(500, "Error").len("failed")); v.push_back(Resp().st(302, "Found").h("Location", "http://example.org/moved?x=1").len("")); v.push_back(Resp().st(301, "Moved").h("location", "/elsewhere").len("moved")); v.push_back(Resp().st(303, "See Other").h("Location", "rel/ative").len("")); v.push_back(Resp().st(307, "Temporary").h("Location", "http://h/%20a").len(""));
	v.push_back(Resp().h("Multi", "one").h("Other", "x").h("multi", "two").h("Multi", "three").len("m")); v.push_back(Resp().h("Content-Encoding", "gzip").len(gz("zipped content"))); v.push_back(Resp().len(ref::text(200000, 7))); v.push_back(Resp().st(201, "Created").len("made")); v.push_back(Resp().h("Content-Length", "000").eof("")); v.back().framing = Resp::None;
	return v;
}

enum Op { Get, Head, PutBytes, PutBuffer, PostBytes, PostBuffer, Delete, Custom, CustomData, PostEmpty, MultiPart, NOps };
static const char* opNames[] = { "GET", "HEAD", "PUT of bytes", "PUT of a device", "POST of bytes", "POST of a device", "DELETE", "custom verb", "custom verb with a device", "POST of nothing", "POST of a multipart" };

static QNetworkReply* make(Nam& nam, QNetworkRequest rq, int op, QBuffer& buf, string* method, string* data)
{
	*data = op == PutBytes || op == PostBytes ? "some bytes \r\n\r\n" + ref::text(3000, op) : op == PutBuffer || op == PostBuffer || op == CustomData ? ref::pattern(9000, op) : "";
	buf.setData(qb(*data)); buf.open(QIODevice::ReadOnly);
	switch (op)
	{
	case Get: *method = "GET"; return nam.get(rq); case Head: *method = "HEAD"; return nam.head(rq); case PutBytes: *method = "PUT"; return nam.put(rq, qb(*data)); case PutBuffer: *method = "PUT"; return nam.put(rq, &buf);
	case PostBytes: *method = "POST"; return nam.post(rq, qb(*data)); case PostBuffer: *method = "POST"; return nam.post(rq, &buf); case Delete: *method = "DELETE"; return nam.deleteResource(rq); case Custom: *method = "PROPFIND"; return nam.sendCustomRequest(rq, "PROPFIND"); case CustomData: *method = "PATCH"; return nam.sendCustomRequest(rq, "PATCH", &buf);
	case PostEmpty: *method = "POST"; return nam.post(rq, QByteArray());
	default: { *method = "POST"; QHttpMultiPart* m = new QHttpMultiPart(QHttpMultiPart::FormDataType); QHttpPart part; part.setHeader(QNetworkRequest::ContentDispositionHeader, "form-data; name=\"f\""); part.setBody("part body"); m->append(part); QNetworkReply* r = nam.post(rq, m); m->setParent(r); return r; }
	}
}

static void exchanges(Ctx& ctx, uint64_t root)
{
	const int op = take(root, NOps), reading = take(root, 3), split = take(root, 3); Net n(ctx); const std::vector<Resp> rs = responses(); int id = 0;
	for (size_t k = 0; k < rs.size() && !ctx.failed(); ++k)
		for (int again = 0; again < 2 && !ctx.failed(); ++again)
		{
			Resp r = rs[k]; ++id; n.targetOrigin[id] = 0; n.story = string(opNames[op]) + ", response " + mc::show(r.head(), 200) + (again ? " again" : "") + ", reading " + ref::num(reading) + ", split " + ref::num(split); ctx.log("%s", n.story.c_str());
			QNetworkRequest rq(url(n.l[0].base() + "/r" + ref::num(id) + "?a=%20b")); rq.setRawHeader("X-Mine", qb("value " + ref::num(id))); rq.setRawHeader("User-Agent", "explorer"); if (op == PostBytes) rq.setHeader(QNetworkRequest::ContentTypeHeader, "text/x");
			QBuffer buf; string method, data; QNetworkReply* reply = make(*n.nam, rq, op, buf, &method, &data); const int before = n.managerFinished; Watched& w = n.watch(reply, id, reading);
			if (!n.arrives(id)) { n.fail("the request did not arrive"); return; }
			const ref::Request q = n.arrived[id];
			if (q.method != method || q.target() != "/r" + ref::num(id) + "?a=%20b" || ref::value(q.headers, "x-mine") != "value " + ref::num(id) || ref::value(q.headers, "user-agent") != "explorer" || (op == PostBytes && ref::value(q.headers, "content-type") != "text/x")) { n.fail("sent " + q.method + " " + q.target() + " " + hdrText(q.headers)); return; }
			if (op == MultiPart ? q.body.find("part body") == string::npos || q.body.compare(0, 2, "--") != 0 || ref::value(q.headers, "content-type").find("boundary") == string::npos : q.body != data) { n.fail("sent " + ref::num(q.body.size()) + " bytes of content instead of " + ref::num(data.size())); return; }
			string s = op == Head ? r.head() : r.bytes(); string body = op == Head || r.status == 204 || r.status == 304 ? "" : r.body; if (ref::find(r.headers, "content-encoding") && !body.empty()) body = "zipped content";
			Net::Conn* c = n.connOf(id); c->busy = 0; const bool eof = r.framing == Resp::Eof && op != Head;
			if (split == 1) { const size_t at = s.size() / 2; c->p->give(s.substr(0, at)); if (w.finished) { n.fail("finished early"); return; } c->p->give(s.substr(at)); }
			else if (split == 2 && s.size() < 1000) { for (size_t p = 0; p < s.size(); ++p) { if (w.finished) { n.fail("finished early"); return; } c->p->give(s.substr(p, 1)); } } else c->p->give(s);
			if (eof) c->p->fin();
			if (!until([&]() { return w.finished > 0; })) { n.fail("the reply did not finish"); return; }
			spin(1); const string e = checkReply(w, r, body); if (!e.empty()) { n.fail(e); return; }
			if (reply->url() != rq.url() || reply->request().url() != rq.url() || reply->operation() == QNetworkAccessManager::UnknownOperation || n.managerFinished != before + 1) { n.fail("the reply does not tell its request, or the manager did not tell that it finished"); return; }
			ctx.state(hash(hash(30, n.story), id));
		}
}

enum Failure { Refuse, CloseAtOnce, CloseInHeaders, CloseInContent, ResetAtOnce, ResetInContent, BadStatus, BadChunk, AbortAtOnce, AbortSent, AbortInMeta, AbortInReadyRead, AbortInContent, NFailures };
static const char* failureNames[] = { "refused", "closed before the response", "closed in the headers", "closed in the content", "reset before the response", "reset in the content", "malformed status", "malformed chunk", "aborted at once", "aborted when sent", "aborted in metaDataChanged()", "aborted in readyRead()", "aborted between reads" };

static void failures(Ctx& ctx, uint64_t root)
{
	const int op = take(root, NOps), f = take(root, NFailures), reading = take(root, 2), then = take(root, 3); Net n(ctx); n.story = string(opNames[op]) + " " + failureNames[f] + (then == 1 ? ", then another inside finished()" : then == 2 ? ", after a successful one" : ", then another"); ctx.log("%s", n.story.c_str());
	if (op == Head && (f == CloseInContent || f == ResetInContent || f == BadChunk || f == AbortInReadyRead || f == AbortInContent)) return; // No content there.
	const string good = Resp().h("Id", "good").len("good content").bytes();
	if (then == 2) { Watched& w = n.get(9, 0); if (!n.arrives(9)) { n.fail("first request"); return; } n.answer(9, good); if (!until([&]() { return w.finished; })) { n.fail("first reply"); return; } }
	if (f == Refuse) { n.l[0].close(); for (size_t i = 0; i < n.conns.size(); ++i) n.conns[i]->p->rst(); n.conns.clear(); }
	QNetworkRequest rq(url(n.l[0].base() + "/r1")); QBuffer buf; string method, data; QNetworkReply* reply = make(*n.nam, rq, op, buf, &method, &data); Watched& w = n.watch(reply, 1, reading); QPointer<QNetworkReply> second; 
	if (then == 1) w.onFinished = [&]() { if (f != Refuse) { n.get(2, 0); } };
	if (w.finishedAtOnce) { n.fail("the reply was finished before anyone could be told"); return; }
	const Resp r = Resp().h("Seen", "yes").len("the content of the response"); const string s = r.bytes(), ch = "HTTP/1.1 200 OK\r\nSeen: yes\r\nTransfer-Encoding: chunked\r\n\r\n4\r\nabcd\r\n"; bool headers = false; int want = QNetworkReply::RemoteHostClosedError;
	if (f != Refuse && f != AbortAtOnce && !n.arrives(1)) { n.fail("the request did not arrive"); return; }
	Peer* p = n.connOf(1) ? n.connOf(1)->p.get() : 0;
	switch (f)
	{
	case Refuse: want = QNetworkReply::ConnectionRefusedError; break; case CloseAtOnce: p->fin(); break; case CloseInHeaders: p->give(s.substr(0, 25)); p->fin(); break; case CloseInContent: headers = true; p->give(s.substr(0, s.size() - 5)); p->fin(); break; case ResetAtOnce: p->rst(); break; case ResetInContent: headers = true; p->give(s.substr(0, s.size() - 5)); p->rst(); break;
	case BadStatus: want = QNetworkReply::ProtocolUnknownError; p->give("HTTP/1.1 abc\r\n\r\n"); break; case BadChunk: want = QNetworkReply::ProtocolUnknownError; headers = true; p->give(ch + "xyz\r\n"); break;
	default: want = QNetworkReply::OperationCanceledError;
		if (f == AbortAtOnce || f == AbortSent) reply->abort(); else if (f == AbortInContent) { headers = true; p->give(s.substr(0, s.size() - 5)); reply->abort(); }
		else { headers = true; if (f == AbortInMeta) QObject::connect(reply, &QNetworkReply::metaDataChanged, [reply]() { reply->abort(); }); else QObject::connect(reply, &QIODevice::readyRead, [reply]() { reply->abort(); }); p->give(s); }
	}
	if (!until([&]() { return w.finished > 0; })) { n.fail("the reply did not finish (isFinished() " + ref::num(reply->isFinished()) + ")"); return; }
	spin(2); const int e = reply->error(); const bool fits = e == want || (f == Refuse && e == QNetworkReply::UnknownNetworkError) || ((f == ResetAtOnce || f == ResetInContent) && (e == QNetworkReply::UnknownNetworkError)) || (want == QNetworkReply::ProtocolUnknownError && (e == QNetworkReply::ProtocolFailure));
	if (w.finished != 1 || !reply->isFinished()) n.fail("finished " + ref::num(w.finished) + " times"); else if (!fits) n.fail("error() is " + ref::num(e) + " instead of " + ref::num(want)); else if (w.errors != 1 || w.signalled != e) n.fail("error signalled " + ref::num(w.errors) + " times as " + ref::num(w.signalled) + ", error() is " + ref::num(e));
	else if (headers && (reply->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt() != 200 || sb(reply->rawHeader("Seen")) != "yes")) n.fail("the headers received before the failure are not reported");
	else if (!headers && reply->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt() != 0) n.fail("a status although there were no headers");
	if (ctx.failed()) return; ctx.state(hash(31, n.story + ref::num(reading)));
	if (Net::Conn* c = n.connOf(1)) { if (!until([&]() { return c->p->ended(); })) { n.fail("the connection was not closed"); return; } c->busy = 0; }
	reply->abort(); spin(1); if (w.finished != 1) { n.fail("abort() of a finished reply"); return; }
	if (f == Refuse) { n.l[0].open(n.l[0].port); }
	if (then != 1 || f == Refuse) n.get(2, 0);
	Watched& w2 = *n.all.back(); if (!n.arrives(2)) { n.fail("the next request did not arrive"); return; }
	n.answer(2, good); if (!until([&]() { return w2.finished > 0; })) { n.fail("the next reply did not finish"); return; }
	Resp g = Resp().h("Id", "good").len("good content"); const string x = checkReply(w2, g, "good content"); if (!x.empty()) n.fail("next reply: " + x);
}

// Several requests at a time: every schedule.
static void concurrent(Ctx& ctx, uint64_t root, int depth)
{
	Net n(ctx); int id = 0; std::vector<int> open; // Requests under way.
	std::map<int, Watched*> w; std::map<int, string> want; // Finished ones, with their content; "!" for an error.
	const int reading = take(root, 2); static const char* kinds[] = { "", " (closing)" }; std::vector<int> firsts; for (int i = 0; i < 2; ++i) firsts.push_back(take(root, 3));
	for (int d = 0; d < depth + 2 && !ctx.failed(); ++d)
	{
		int ev; if (d < 2) ev = firsts[d]; else { ev = ctx.choose(10); if (ev == 9) break; if (ev >= 3 && open.empty()) break; }
		if (ev < 3) // A request to one of three origins.
		{
			if (id >= 5) break; ++id; n.story += " request " + ref::num(id) + " to " + "ABC"[ev]; w[id] = &n.get(id, ev, reading); open.push_back(id); if (!n.arrives(id)) { n.fail("request " + ref::num(id) + " does not arrive"); return; }
		}
		else
		{
			const bool newest = ev == 4 || ev == 6; const int k = newest ? open.back() : open.front(); if (newest && open.size() < 2) break;
			const string body = "content " + ref::num(k); const Resp r = Resp().h("Id", ref::num(k)).len(body);
			switch (ev)
			{
			case 3: case 4: n.story += " answer " + ref::num(k); n.answer(k, r.bytes()); want[k] = body; break;
			case 5: { n.story += " answer " + ref::num(k) + " and close"; n.answer(k, Resp().h("Id", ref::num(k)).h("Connection", "close").len(body).bytes(), true); want[k] = body; } break;
			case 6: { n.story += " close " + ref::num(k); Net::Conn* c = n.connOf(k); c->p->give(r.bytes().substr(0, r.bytes().size() - 3)); c->p->fin(); c->busy = 0; want[k] = "!"; } break;
			case 7: n.story += " abort " + ref::num(k); w[k]->r->abort(); want[k] = "!"; if (Net::Conn* c = n.connOf(k)) c->busy = 0; break;
			case 8: n.story += " delete " + ref::num(k); delete w[k]->r.data(); w[k]->deleted = true; want[k] = "-"; break; // It may go on being served, but nobody is told.
			}
			for (size_t i = 0; i < open.size(); ++i) if (open[i] == k) { open.erase(open.begin() + i); break; }
			if (ev != 8 && !until([&]() { return w[k]->finished > 0; })) { n.fail("reply " + ref::num(k) + " does not finish"); return; }
			if (ev == 8 && root % 2) if (Net::Conn* c = n.connOf(k)) { c->busy = 0; c->p->give(r.bytes()); }
		}
		n.poll(); ctx.state(hash(32, n.story)); (void)kinds;
		for (std::map<int, Watched*>::iterator i = w.begin(); i != w.end() && !ctx.failed(); ++i) if (!i->second->deleted)
		{
			const bool fin = want.count(i->first) > 0; if (i->second->finished != (fin ? 1 : 0) || i->second->r->isFinished() != fin) n.fail("reply " + ref::num(i->first) + " finished " + ref::num(i->second->finished) + " times");
			if (fin && want[i->first] == "!") { if (i->second->r->error() == QNetworkReply::NoError) n.fail("reply " + ref::num(i->first) + " has no error"); }
			else if (fin && (i->second->r->error() || i->second->content != want[i->first] || sb(i->second->r->rawHeader("Id")) != ref::num(i->first))) n.fail("reply " + ref::num(i->first) + " has error " + ref::num(i->second->r->error()) + ", content [" + mc::show(i->second->content) + "], Id " + sb(i->second->r->rawHeader("Id")));
		}
	}
	ctx.log("%s", n.story.c_str());
	while (!open.empty() && !ctx.failed())
	{
		const int k = open.back(); open.pop_back(); const string body = "late " + ref::num(k); if (!n.answer(k, Resp().h("Id", ref::num(k)).len(body).bytes())) return;
		if (!until([&]() { return w[k]->finished > 0; }) || w[k]->content != body || w[k]->r->error()) n.fail("reply " + ref::num(k) + " does not finish well: [" + mc::show(w[k]->content) + "]");
	}
}

// Requests, aborts and deletions inside the signals of a reply.
static void inSlots(Ctx& ctx, uint64_t root)
{
	static const char* places[] = { "finished", "finished after closing", "finished after abort()", "the manager's finished", "metaDataChanged", "readyRead" }; static const char* acts[] = { "request to the same server", "request to another port", "deleteLater", "abort the last request", "delete the last reply", "abort this" };
	const int place = take(root, 6); std::vector<int> ops; Net n(ctx); n.story = string("in ") + places[place] + ":"; for (int k = 0; k < 3; ++k) { const int o = take(root, 7); if (o == 6) { while (k < 2) { if (take(root, 7)) return; ++k; } break; } ops.push_back(o); n.story += string(" ") + acts[o] + ","; } ctx.log("%s", n.story.c_str());
	int id = 1; bool done = false; std::map<int, int> expect; std::vector<std::unique_ptr<Watched> >& all = n.all; // expect: 0 content, 1 aborted, 2 deleted
	Watched& w = n.get(1, 0); bool later = false, aborted = false; QNetworkReply* r1 = w.r.data(); std::map<int, Watched*> ws;
	auto act = [&]() {
		if (done) return; done = true;
		for (size_t k = 0; k < ops.size(); ++k) switch (ops[k])
		{
		case 0: case 1: ++id; ws[id] = &n.get(id, ops[k]); expect[id] = 0; break;
		case 2: if (!later) r1->deleteLater(); later = true; break;
		case 3: if (id > 1 && expect[id] == 0) { expect[id] = 1; ws[id]->r->abort(); } break;
		case 4: if (id > 1 && expect[id] == 0) { expect[id] = 2; delete ws[id]->r.data(); } break;
		case 5: if (place >= 4) aborted = true; r1->abort(); break;
		}
	};
	if (place < 3) w.onFinished = act; else if (place == 3) QObject::connect(n.nam.get(), &QNetworkAccessManager::finished, [&](QNetworkReply* r) { if (r == r1) act(); }); else if (place == 4) QObject::connect(r1, &QNetworkReply::metaDataChanged, act); else QObject::connect(r1, &QIODevice::readyRead, act);
	if (!n.arrives(1)) { n.fail("no request"); return; }
	const string s = Resp().h("Id", "1").len("first content").bytes(); Net::Conn* c = n.connOf(1); QPointer<QNetworkReply> guard(r1);
	if (place == 1) { c->busy = 0; c->p->give(s.substr(0, s.size() - 4)); c->p->fin(); } else if (place == 2) { c->busy = 0; r1->abort(); } else { c->busy = 0; c->p->give(s); }
	if (!until([&]() { return done; })) { n.fail("the signal did not come"); return; }
	if (!until([&]() { return w.finished > 0 || !guard; })) { n.fail("the reply did not finish"); return; }
	spin(2); if (w.finished > 1) { n.fail("finished twice"); return; } if (guard && (place == 1 || place == 2 || aborted) != (guard->error() != 0)) { n.fail("error " + ref::num(guard->error())); return; }
	for (int k = 2; k <= id && !ctx.failed(); ++k)
	{
		if (expect[k] == 1) { if (!until([&]() { return ws[k]->finished > 0; }, 2) || ws[k]->finished != 1 || ws[k]->r->error() != QNetworkReply::OperationCanceledError) n.fail("aborted request " + ref::num(k) + ": finished " + ref::num(ws[k]->finished) + " times, error " + ref::num(ws[k]->r->error())); continue; }
		if (expect[k] == 2) continue;
		if (!n.arrives(k)) { n.fail("request " + ref::num(k) + " does not arrive"); return; }
		n.answer(k, Resp().h("Id", ref::num(k)).len("content " + ref::num(k)).bytes()); if (!until([&]() { return ws[k]->finished > 0; }) || ws[k]->content != "content " + ref::num(k) || ws[k]->r->error()) n.fail("reply " + ref::num(k) + " is wrong: [" + ws[k]->content + "] error " + ref::num(ws[k]->r->error()));
	}
	(void)all; ctx.state(hash(33, n.story));
}

static void cookies(Ctx& ctx, uint64_t root, int depth)
{
	struct K { const char* set; const char* name; const char* value; const char* path; int kind; }; // kind 0 set, 1 expires, 2 rejected
	static const K k[] = { { "a=1", "a", "1", "/", 0 }, { "a=2; Path=/", "a", "2", "/", 0 }, { "b=x; path=/r; HttpOnly", "b", "x", "/r", 0 }, { "a=gone; Max-Age=0", "a", "", "/", 1 }, { "s=v; Path=/sub", "s", "v", "/sub", 0 }, { "q=\"quoted; x\"; Path=/", 0, 0, 0, 3 }, { "d=1; Domain=other.example", "d", "1", "/", 2 }, { "e=; Path=/", "e", "", "/", 0 }, { 0, 0, 0, 0, 3 } };
	Net n(ctx); std::map<string, std::map<string, std::pair<string, string> > > jar; int id = 0; // host -> name -> (value, path)
	for (int i = 0; i < depth && !ctx.failed(); ++i)
	{
		const int a = take(root, 9), b = take(root, 3), origin = i ? take(root, 3) : 0, f = take(root, 2); if (k[a].kind == 3 && k[a].set) { if (b || f) return; }
		++id; n.story += " [to " + string(1, "ABC"[origin]) + ": " + (k[a].set ? k[a].set : "no cookie") + (b ? ", another" : "") + (f ? ", failing later" : "") + "]"; Watched& w = n.get(id, origin); if (!n.arrives(id)) { n.fail("no request"); return; }
		const string host = n.l[origin].ip, path = "/r" + ref::num(id); std::map<string, std::pair<string, string> >& j = jar[host]; size_t want = 0; const string sent = ref::value(n.arrived[id].headers, "cookie");
		std::vector<string> parts; for (size_t p = 0; !sent.empty() && p <= sent.size();) { size_t e = sent.find("; ", p); if (e == string::npos) e = sent.size(); parts.push_back(sent.substr(p, e - p)); p = e + 2; }
		for (std::map<string, std::pair<string, string> >::iterator x = j.begin(); x != j.end(); ++x) { const string& cp = x->second.second; const bool applies = path.compare(0, cp.size(), cp) == 0 && (cp.size() == path.size() || cp[cp.size() - 1] == '/' || path[cp.size()] == '/'); if (!applies) continue; ++want; if (std::find(parts.begin(), parts.end(), x->first + "=" + x->second.first) == parts.end()) n.fail("cookie " + x->first + "=" + x->second.first + " was not sent: [" + sent + "]"); }
		if (parts.size() != want || ref::count(n.arrived[id].headers, "cookie") > 1) n.fail("sent cookies [" + sent + "], " + ref::num(want) + " expected");
		if (ctx.failed()) return;
		Resp r; if (k[a].set) r.h("Set-Cookie", k[a].set); if (b == 1) r.h("set-cookie", "second=" + ref::num(i)); if (b == 2) r.h("X-Between", "1").h("Set-Cookie", "third=3; Path=/"); r.len("body");
		if (k[a].kind == 0) j[k[a].name] = std::make_pair(string(k[a].value), string(k[a].path)); else if (k[a].kind == 1) j.erase(k[a].name); else if (k[a].kind == 3 && k[a].set) j["q"] = std::make_pair(string("\"quoted"), string("/"));
		if (b == 1) j["second"] = std::make_pair(ref::num(i), string("/")); if (b == 2) j["third"] = std::make_pair(string("3"), string("/"));
		if (k[a].kind == 3 && k[a].set) { return; } // How quotes are read is Qt's matter.
		if (f) { Net::Conn* c = n.connOf(id); c->busy = 0; c->p->give(r.bytes().substr(0, r.bytes().size() - 2)); c->p->fin(); } else n.answer(id, r.bytes());
		if (!until([&]() { return w.finished > 0; })) { n.fail("no end"); return; }
		if (!f) { const string e = k[a].kind == 1 ? "" : checkReply(w, r, "body"); if (!e.empty()) { n.fail(e); return; } }
		ctx.state(hash(34, n.story));
	}
	ctx.log("%s", n.story.c_str());
}

// The manager goes away while replies are under way or finished; other schemes are Qt's.
static void lifetimes(Ctx& ctx, uint64_t root)
{
	const int stage = take(root, 4), then = take(root, 4); Net n(ctx); n.story = "manager deleted at stage " + ref::num(stage) + ", then " + ref::num(then); ctx.log("%s", n.story.c_str());
	if (root == 1) { QNetworkReply* r = n.nam->get(QNetworkRequest(QUrl("data:text/plain,hello%20data"))); Watched& w = n.watch(r, 1, 0); if (!until([&]() { return w.finished; }) || w.content != "hello data") n.fail("a data: URL is not served"); ctx.state(35); return; }
	QPointer<QNetworkReply> r(n.nam->get(QNetworkRequest(url(n.l[0].base() + "/r1")))); Watched& w = n.watch(r, 1, 0); if (stage > 0 && !n.arrives(1)) { n.fail("no request"); return; }
	const string s = Resp().len("content").bytes(); if (stage == 2) { n.connOf(1)->p->give(s.substr(0, s.size() - 2)); } if (stage == 3) { n.answer(1, s); until([&]() { return w.finished; }); }
	n.nam.reset(); spin(1); if (r) { if (then == 1) r->abort(); if (then == 2) r->bytesAvailable(); if (then == 3 && r->isOpen()) r->readAll(); } spin(2); ctx.state(hash(36, stage * 4 + then));
}

// Many exchanges of two kinds in turn on one manager: each ends as the first did, and nothing piles up.
static void longSequences(Ctx& ctx, uint64_t root, int total)
{
	enum { KOk, KGzip, KClosing, KChunkedCookie, KMidway, KMalformed, KAborted, KAbortedInMeta, KDeleted, KOther, KRefused, KTwo, KKinds };
	static const char* names[] = { "answered", "answered with gzip", "answered and closed", "answered in chunks with a cookie", "closed midway", "malformed", "aborted", "aborted in metaDataChanged()", "reply deleted", "on another server", "refused", "two at a time" };
	const int first = take(root, KKinds), second = take(root, KKinds); Net n(ctx); const string story = string(names[first]) + " and " + names[second] + " in turn"; ctx.log("%s", story.c_str()); long long before = 0; n.story = story;
	int id = 0; Listener gone; const string nowhere = gone.base(); gone.close();
	for (int i = 0; i < total && !ctx.failed(); ++i)
	{
		const int kind = (i / 3 + i) % 2 ? second : first; n.story = story + ", exchange " + ref::num(i); if (i == total / 2) { n.arrived.clear(); n.where.clear(); n.targetOrigin.clear(); spin(3); before = liveBytes(); }
		const int at = ++id; Watched* w; Watched* w2 = 0; const int told = n.managerFinished;
		if (kind == KRefused) w = &n.watch(n.nam->get(QNetworkRequest(url(nowhere + "/r" + ref::num(at)))), at, 0); else w = &n.get(at, kind == KOther ? 2 : 0, i % 2);
		if (kind == KTwo) { w2 = &n.get(++id, 0); if (!n.arrives(id)) { n.fail("the second request does not arrive"); return; } }
		if (kind != KRefused && !n.arrives(at)) { n.fail("the request does not arrive"); return; }
		const string body = "body " + ref::num(at), zipped = gz(body); Resp r; r.h("Serial", ref::num(at)); int want = QNetworkReply::NoError; Net::Conn* c = n.connOf(at);
		switch (kind)
		{
		case KOk: case KOther: r.len(body); n.answer(at, r.bytes()); break;
		case KGzip: r.h("Content-Encoding", "gzip").len(zipped); n.answer(at, r.bytes()); break;
		case KClosing: r.h("Connection", "close").len(body); n.answer(at, r.bytes(), true); break;
		case KChunkedCookie: { std::vector<int> sizes(1, (int)body.size()); r.h("Set-Cookie", "k=v; Path=/").chk(body, sizes); n.answer(at, r.bytes()); } break;
		case KMidway: r.len(body); want = QNetworkReply::RemoteHostClosedError; c->busy = 0; c->p->give(r.bytes().substr(0, r.bytes().size() - 2)); c->p->fin(); break;
		case KMalformed: want = -1; c->busy = 0; c->p->give("HTTP/1.1 2x0 OK\r\n\r\n"); break;
		case KAborted: want = QNetworkReply::OperationCanceledError; c->busy = 0; r.len(body); c->p->give(r.bytes().substr(0, r.bytes().size() - i % 9 - 1)); w->r->abort(); break;
		case KAbortedInMeta: want = QNetworkReply::OperationCanceledError; { QNetworkReply* q = w->r; QObject::connect(q, &QNetworkReply::metaDataChanged, q, [q]() { q->abort(); }); } r.len(body); n.answer(at, r.bytes()); break;
		case KDeleted: delete w->r.data(); w->deleted = true; c->busy = 0; r.len(body); c->p->give(r.bytes()); break;
		case KRefused: want = QNetworkReply::ConnectionRefusedError; break;
		case KTwo: r.len(body); if (i % 2) n.answer(id, Resp().len("other").bytes()); n.answer(at, r.bytes()); if (i % 2 == 0) n.answer(id, Resp().len("other").bytes()); break;
		}
		if (kind != KDeleted)
		{
			if (!until([&]() { return w->finished > 0 && (!w2 || w2->finished > 0); })) { n.fail("the reply does not finish"); return; }
			spin(1); const int e = w->r->error();
			if (want == QNetworkReply::NoError) { const string x = checkReply(*w, r, body); if (!x.empty()) { n.fail(x); return; } if (w2) { const string y = checkReply(*w2, Resp().len("other"), "other"); if (!y.empty()) { n.fail("second of two: " + y); return; } } }
			else if (w->finished != 1 || !w->r->isFinished() || w->errors != 1 || (want == -1 ? e == QNetworkReply::NoError : kind == KRefused ? e == QNetworkReply::NoError : e != want)) { n.fail("finished " + ref::num(w->finished) + " times with error " + ref::num(e)); return; }
			if (n.managerFinished != told + (w2 ? 2 : 1)) { n.fail("the manager told " + ref::num(n.managerFinished - told) + " times that a reply finished"); return; }
		}
		else spin(2);
		n.all.clear(); for (size_t k = n.conns.size(); k-- > 0;) { Peer& p = *n.conns[k]->p; string().swap(p.in); if (p.ended()) n.conns.erase(n.conns.begin() + k); }
		if (n.conns.size() > 6) { n.fail(ref::num(n.conns.size()) + " connections are open"); return; }
		ctx.step();
	}
	spin(3); n.arrived.clear(); n.where.clear(); n.targetOrigin.clear(); spin(3); const long long growth = liveBytes() - before; ctx.state(hash(68, story)); ctx.log("grew by %lld", growth);
	if (!ctx.failed() && before && growth > 80000 + 300ll * (total - total / 2)) ctx.fail("memory in use grew by %lld bytes over %d exchanges: %s", growth, total - total / 2, story.c_str());
}

// Contents of any size, both ways.
static void sizes(Ctx& ctx, uint64_t root)
{
	static const int grid[] = { 0, 1, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 131073, 1000000, 3000000 };
	static const int ops[] = { PutBytes, PutBuffer, PostBytes, PostBuffer, CustomData }; const int op = ops[take(root, 5)], size = grid[take(root, 20)], reading = take(root, 3), framing = take(root, 3), other = take(root, 2); if (reading == 2 && size > 65537) return; Net n(ctx);
	n.story = string(opNames[op]) + " with " + ref::num(size) + " bytes, answered with as many" + (framing == 0 ? "" : framing == 1 ? ", chunked" : ", until the end") + ", reading " + ref::num(reading) + (other ? ", then a small one and again" : ""); ctx.log("%s", n.story.c_str());
	for (int id = 1; id <= (other ? 3 : 1); ++id)
	{
		const int now = other && id == 2 ? 10 : size; const string data = ref::pattern(now, op + id * 3); n.targetOrigin[id] = 0; QNetworkRequest rq(url(n.l[0].base() + "/r" + ref::num(id))); QBuffer buf; buf.setData(qb(data)); buf.open(QIODevice::ReadOnly); rq.setHeader(QNetworkRequest::ContentTypeHeader, "x/y");
		QNetworkReply* reply = op == PutBytes ? n.nam->put(rq, qb(data)) : op == PutBuffer ? n.nam->put(rq, &buf) : op == PostBytes ? n.nam->post(rq, qb(data)) : op == PostBuffer ? n.nam->post(rq, &buf) : n.nam->sendCustomRequest(rq, "PATCH", &buf);
		Watched& w = n.watch(reply, id, reading); if (!n.arrives(id)) { n.fail("request " + ref::num(id) + " did not arrive"); return; }
		if (n.arrived[id].body != data) { n.fail("request " + ref::num(id) + " was sent with " + ref::num(n.arrived[id].body.size()) + " bytes of content"); return; }
		Resp r; if (framing == 0) r.len(data); else if (framing == 1) r.chk(data, std::vector<int>(now ? 1 : 0, now)); else r.eof(data);
		Net::Conn* c = n.connOf(id); c->busy = 0; const string bytes = r.bytes(); size_t at = 0; until([&]() { at += c->p->send(bytes, at); return at >= bytes.size() || w.finished; }); if (framing == 2) c->p->fin();
		if (!until([&]() { return w.finished > 0; })) { n.fail("reply " + ref::num(id) + " did not finish"); return; }
		spin(1); const string e = checkReply(w, r, data); if (!e.empty()) { n.fail(e); return; }
		ctx.state(hash(hash(31, n.story), id));
	}
}

std::vector<Suite> suitesC21(Tier t)
{
	const bool th = t == Thorough; std::vector<Suite> v; const int depth = th ? 5 : 3, ck = th ? 3 : 2;
	v.push_back(retried(Suite("exchanges", ref::num(NOps) + " kinds of requests (all operations, data from bytes, devices and multiparts) x reading {at the end, at once, a few bytes at a time} x response {whole, in two, byte by byte}, each for " + ref::num(responses().size()) + " responses twice on one manager", NOps * 9, exchanges, 120)));
	v.push_back(retried(Suite("sizes", "5 ways of sending 20 sizes of content (0 to 3000000 bytes, around every power of two) and receiving as much {with its length, chunked, until the end} x reading {at the end, at once, a few bytes at a time}, alone or with a small one in between", 5 * 20 * 3 * 3 * 2, sizes, 120)));
	v.push_back(retried(Suite("failures", ref::num(NOps) + " kinds of requests x " + ref::num(NFailures) + " failures (refused, closed, reset, malformed, aborted at every stage) x reading x next request {later, inside finished(), or a successful one before}", NOps * NFailures * 2 * 3, failures, 120)));
	v.push_back(retried(Suite("concurrent", "two requests to any of 3 origins (two on one address), then every sequence of up to " + ref::num(depth) + " events {request to one of them, answer the oldest or newest, answer and close, close midway, abort, delete the reply}; every reply compared after each event, no connection ever has two requests under way", 2 * 9 * 2, [depth](Ctx& c, uint64_t r) { concurrent(c, r, depth); }, 120)));
	v.push_back(retried(Suite("in-slots", "up to 3 calls {request to the same or another server, deleteLater, abort or delete the last, abort this} inside 6 signals of a reply or the manager", 6 * 343, inSlots, 120)));
	uint64_t n = 54; for (int i = 1; i < ck; ++i) n *= 9 * 3 * 3 * 2;
	v.push_back(retried(Suite("cookies", "every sequence of " + ref::num(ck) + " exchanges with 9 Set-Cookie forms (paths, expiry, foreign domain), one or two fields, successful or closed midway, to 3 origins, and one more request", n, [ck](Ctx& c, uint64_t r) { cookies(c, r, ck); }, 120)));
	const int total = th ? 1000 : 160;
	v.push_back(retried(Suite("long-sequences", ref::num(total) + " exchanges of two of 12 kinds in turn, every pair: each ends as the first one did, connections are reused and not piled up, memory in use does not grow", 144, [total](Ctx& c, uint64_t r) { longSequences(c, r, total); }, 120)));
	v.push_back(retried(Suite("lifetimes", "the manager deleted at 4 stages of an exchange, then calls on the reply; other schemes", 32, lifetimes, 120)));
	return v;
}
