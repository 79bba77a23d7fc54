// What an application answers, and what a conforming client must then see on the wire.
#ifndef REPLY_H
#define REPLY_H
#include "qtlib.h"
#include "HttpHelpers.h"

struct Reply
{
	int status; ref::Headers headers; std::string body;
	enum How { Whole, WholeString, Pieces } how;
	std::vector<std::string> pieces; // With Pieces: what is given to writeContent, in order.
	Reply() : status(200), how(Whole) {}
	Reply& h(const std::string& k, const std::string& v) { headers.push_back(ref::Header(k, v)); return *this; }
	static Reply whole(int status, const std::string& body) { Reply r; r.status = status; r.body = body; return r; }
	static Reply inPieces(const std::vector<std::string>& p) { Reply r; r.how = Pieces; r.pieces = p; return r; }
	std::string text() const
	{
		std::string s = how == Pieces ? "writeHeaders " : "writeResponse ";
		s += ref::num(status);
		for (size_t i = 0; i < headers.size() && i < 6; ++i) s += " " + headers[i].first + "=[" + headers[i].second.substr(0, 40) + "]";
		if (how == Pieces) { s += " pieces"; for (size_t i = 0; i < pieces.size() && i < 10; ++i) s += " " + ref::num(pieces[i].size()); } else s += " body " + ref::num(body.size());
		return s;
	}
};

inline bool knownStatus(int s)
{
	static const int v[] = { 100, 101, 200, 201, 202, 203, 204, 205, 206, 300, 301, 302, 303, 304, 305, 307, 400, 401, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 500, 501, 502, 503, 504, 505 };
	for (size_t i = 0; i < sizeof v / sizeof *v; ++i) if (v[i] == s) return true;
	return Pillow::HttpProtocol::StatusCodes::getStatusMessage(s) != 0; // Codes added to the library's table.
}

// The outcome the property prescribes.
struct Outcome
{
	long long length; bool chunked, keepAlive, head; std::string body; bool complete; // head: without content, like the response to HEAD.
};

inline bool clientKeepsAlive(const ref::Request& q)
{
	return q.http11() ? !ref::connectionOption(q.headers, "close") : ref::connectionOption(q.headers, "keep-alive");
}

inline long long declaredLength(const ref::Headers& h, long long dflt)
{
	const std::string* v = ref::find(h, "content-length");
	if (!v) return dflt;
	if (v->empty() || v->size() > 18 || v->find_first_not_of("0123456789") != std::string::npos) return -1;
	return atoll(v->c_str());
}

// ended: whether endContent() is called when the length is unknown.
inline Outcome prescribe(const ref::Request& q, const Reply& r, bool ended = true)
{
	Outcome o; o.head = q.method == "HEAD" || r.status == 204 || r.status == 304; // Neither has content.
	o.length = declaredLength(r.headers, r.how == Reply::Pieces ? -1 : (long long)r.body.size());
	o.chunked = o.length < 0 && q.http11() && ref::ieq(ref::value(r.headers, "transfer-encoding"), "chunked");
	o.keepAlive = clientKeepsAlive(q) && (o.length >= 0 || o.chunked) && !ref::connectionOption(r.headers, "close");
	std::vector<std::string> p = r.pieces; if (r.how != Reply::Pieces) p.assign(1, r.body);
	for (size_t i = 0; i < p.size(); ++i) if (o.length < 0 || (long long)(o.body.size() + p[i].size()) <= o.length) o.body += p[i];
	o.complete = o.head || (o.length >= 0 ? (long long)o.body.size() == o.length : ended);
	if (o.head) o.body.clear();
	return o;
}

// Checks the message at pos of out. Empty string when it is as prescribed.
inline std::string checkMessage(const std::string& out, size_t pos, const ref::Request& q, const Reply& r, const Outcome& o, size_t* next)
{
	ref::Response m; *next = out.size();
	if (!ref::parseResponse(out, pos, o.head, &m, next)) return "no complete response head: " + mc::show(out.substr(pos));
	const std::string got = " in: " + mc::show(out.substr(pos), 600);
	if (!m.problem.empty()) return m.problem + got;
	if (m.version != q.version) return "response version " + m.version + " to a " + q.version + " request" + got;
	const int status = knownStatus(r.status) ? r.status : 500;
	if (m.status != status) return "status " + ref::num(m.status) + " instead of " + ref::num(status) + got;
	ref::Headers mine, theirs;
	static const char* managed[] = { "content-length", "connection", "transfer-encoding", "content-type" };
	for (int side = 0; side < 2; ++side)
	{
		const ref::Headers& from = side ? m.headers : r.headers; ref::Headers& to = side ? theirs : mine;
		for (size_t i = 0; i < from.size(); ++i) { bool skip = false; for (int k = 0; k < 4; ++k) if (ref::ieq(from[i].first, managed[k])) skip = true; if (!skip) to.push_back(from[i]); }
	}
	if (!(mine == theirs)) return "caller's headers not preserved" + got;
	if (ref::find(r.headers, "content-type"))
	{
		if (ref::count(m.headers, "content-type") != 1 || ref::value(m.headers, "content-type") != ref::value(r.headers, "content-type")) return "content-type not preserved" + got;
	}
	else if (ref::count(m.headers, "content-type") > 1) return "several content-types" + got;
	const std::string* cl = ref::find(m.headers, "content-length");
	if (o.length >= 0 && (!cl || *cl != ref::num(o.length))) return "content-length should be " + ref::num(o.length) + got;
	if (o.length < 0 && cl) return "content-length although the length is unknown" + got;
	const std::string te = ref::value(m.headers, "transfer-encoding"), teGiven = ref::value(r.headers, "transfer-encoding");
	if (o.chunked != ref::ieq(te, "chunked")) return std::string("should ") + (o.chunked ? "" : "not ") + "be chunked" + got;
	if (!teGiven.empty() && !ref::ieq(teGiven, "chunked") && te != teGiven) return "transfer-encoding header not preserved" + got;
	if (ref::count(m.headers, "connection") > 1) return "several connection headers" + got;
	const std::string conn = ref::value(m.headers, "connection");
	const bool told = q.http11() ? !ref::ieq(conn, "close") : ref::ieq(conn, "keep-alive");
	if (told != o.keepAlive) return std::string("the client is told ") + (told ? "keep-alive" : "close") + " but the connection must " + (o.keepAlive ? "stay open" : "close") + got;
	if (!o.head && m.body != o.body && m.framing != ref::Response::UntilClose) return "client decodes " + ref::num(m.body.size()) + " body bytes [" + mc::show(m.body, 100) + "] instead of " + ref::num(o.body.size()) + " [" + mc::show(o.body, 100) + "]" + got;
	if (!o.head && m.framing == ref::Response::UntilClose) { if (m.body != o.body) return "close-delimited body differs: " + ref::num(m.body.size()) + " instead of " + ref::num(o.body.size()) + got; *next = out.size(); }
	else if (!o.head && status != 204 && status != 304 && status / 100 != 1 && m.complete != o.complete) return std::string("the message should ") + (o.complete ? "" : "not ") + "be complete" + got;
	return "";
}

// Gives the reply to the connection, as a list of single calls (so that the explorer can interleave other events).
inline std::vector<std::function<void(Pillow::HttpConnection*)> > calls(const Reply& r, const Outcome& o, bool end = true)
{
	typedef Pillow::HttpConnection C; std::vector<std::function<void(C*)> > v;
	const Pillow::HttpHeaderCollection h = qh(r.headers);
	if (r.how == Reply::Whole) { const QByteArray b = qb(r.body); const int s = r.status; v.push_back([s, h, b](C* c) { c->writeResponse(s, h, b); }); }
	else if (r.how == Reply::WholeString) { const QString b = QString::fromUtf8(qb(r.body)); const int s = r.status; v.push_back([s, h, b](C* c) { c->writeResponseString(s, h, b); }); }
	else
	{
		const int s = r.status; v.push_back([s, h](C* c) { c->writeHeaders(s, h); });
		for (size_t i = 0; i < r.pieces.size(); ++i) { const QByteArray b = qb(r.pieces[i]); v.push_back([b](C* c) { c->writeContent(b); }); }
	}
	if (end && o.length < 0 && !o.head) v.push_back([](C* c) { c->endContent(); });
	return v;
}
#endif
