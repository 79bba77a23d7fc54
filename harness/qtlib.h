// Qt side helpers shared by the explorers: a controlled in-memory device, and recording of a connection's signals.
#ifndef QTLIB_H
#define QTLIB_H
#include <QtCore/QtCore>
#include <QtNetwork/QtNetwork>
#include "PillowCore.h"
#include "HttpConnection.h"
#include "HttpHeader.h"
#include "mc.h"
#include "ref.h"

inline QByteArray qb(const std::string& s) { return QByteArray(s.data(), (int)s.size()); }
inline std::string sb(const QByteArray& b) { return std::string(b.constData(), b.size()); }
inline std::string su(const QString& s) { return sb(s.toUtf8()); }
inline Pillow::HttpHeaderCollection qh(const ref::Headers& h) { Pillow::HttpHeaderCollection c; for (size_t i = 0; i < h.size(); ++i) c << Pillow::HttpHeader(qb(h[i].first), qb(h[i].second)); return c; }

// A sequential device whose input arrival, read granularity and output draining are decided by the explorer.
class MemDevice : public QIODevice
{
public:
	int failReads; // The next reads fail (-1), as on a transient device error.
	QByteArray in; int inPos; int maxRead; bool autoDrain; qint64 pending; std::string out; int closeCount; qint64 pendingAtClose; qint64 maxPending;
	std::string shapes; // Sizes of the individual reads are of no interest; kept for debugging.
	MemDevice() : failReads(0), inPos(0), maxRead(0), autoDrain(true), pending(0), closeCount(0), pendingAtClose(0), maxPending(0) { open(QIODevice::ReadWrite | QIODevice::Unbuffered); out.reserve(256); }
	bool isSequential() const { return true; }
	qint64 bytesAvailable() const { return in.size() - inPos + QIODevice::bytesAvailable(); }
	qint64 bytesToWrite() const { return pending; }
	void feed(const std::string& s) { if (inPos == in.size()) { in.clear(); inPos = 0; } in.append(s.data(), (int)s.size()); }
	void notify() { emit readyRead(); }
	void give(const std::string& s) // Feeds, and signals until everything was read (or nothing more gets read).
	{
		if (!isOpen()) return;
		feed(s);
		for (int guard = 0; guard < 100000; ++guard) { const int before = inPos; notify(); if (!isOpen() || inPos >= in.size() || inPos == before) break; }
	}
	void drain(qint64 n) { if (n > pending) n = pending; pending -= n; emit bytesWritten(n); }
	void close() { if (isOpen()) { ++closeCount; pendingAtClose = pending; QIODevice::close(); } }
	friend class OutSide;
protected:
	qint64 readData(char* data, qint64 max)
	{
		if (failReads > 0) { --failReads; return -1; }
		qint64 n = qMin<qint64>(max, in.size() - inPos);
		if (maxRead > 0 && n > maxRead) n = maxRead;
		memcpy(data, in.constData() + inPos, n); inPos += (int)n;
		return n;
	}
	qint64 writeData(const char* data, qint64 n)
	{
		out.append(data, (size_t)n);
		if (!autoDrain) { pending += n; if (pending > maxPending) maxPending = pending; }
		return n;
	}
};

// The output of a MemDevice as a device of its own, for connections initialised with two different devices.
class OutSide : public QIODevice
{
public:
	MemDevice* d;
	explicit OutSide(MemDevice* d) : QIODevice(d), d(d) { open(QIODevice::WriteOnly | QIODevice::Unbuffered); d->setOpenMode(QIODevice::ReadOnly | QIODevice::Unbuffered); QObject::connect(d, &QIODevice::bytesWritten, this, &QIODevice::bytesWritten); }
	bool isSequential() const { return true; }
	qint64 bytesToWrite() const { return d->pending; }
	qint64 readData(char*, qint64) { return -1; }
	qint64 writeData(const char* data, qint64 n) { return d->writeData(data, n); }
};

// The request as the connection reports it.
struct Seen
{
	std::string method, uri, path, query, fragment, version, content, uriD, pathD, queryD, fragmentD; ref::Headers headers; std::vector<std::pair<std::string, std::string> > params;
	bool operator==(const Seen& o) const
	{
		return method == o.method && uri == o.uri && path == o.path && query == o.query && fragment == o.fragment && version == o.version && content == o.content
			&& uriD == o.uriD && pathD == o.pathD && queryD == o.queryD && fragmentD == o.fragmentD && headers == o.headers && params == o.params;
	}
	std::string text() const
	{
		std::string s = method + " uri=[" + uri + "] path=[" + path + "] query=[" + query + "] fragment=[" + fragment + "] " + version + " decoded=[" + uriD + "|" + pathD + "|" + queryD + "|" + fragmentD + "] " + ref::num(headers.size()) + " headers:";
		for (size_t i = 0; i < headers.size() && i < 8; ++i) s += " " + headers[i].first + "=[" + headers[i].second.substr(0, 100) + "]";
		s += " params:";
		for (size_t i = 0; i < params.size() && i < 8; ++i) s += " " + params[i].first + "=[" + params[i].second + "]";
		return s + " content(" + ref::num(content.size()) + ")=[" + content.substr(0, 100) + "]";
	}
};

inline Seen look(Pillow::HttpConnection* c, bool decoded = true)
{
	Seen s;
	s.method = sb(c->requestMethod()); s.uri = sb(c->requestUri()); s.path = sb(c->requestPath()); s.query = sb(c->requestQueryString()); s.fragment = sb(c->requestFragment());
	s.version = sb(c->requestHttpVersion()); s.content = sb(c->requestContent());
	if (decoded)
	{
		s.uriD = su(c->requestUriDecoded()); s.pathD = su(c->requestPathDecoded()); s.queryD = su(c->requestQueryStringDecoded()); s.fragmentD = su(c->requestFragmentDecoded());
		const Pillow::HttpParamCollection& p = c->requestParams();
		for (int i = 0; i < p.size(); ++i) s.params.push_back(std::make_pair(su(p.at(i).first), su(p.at(i).second)));
	}
	const Pillow::HttpHeaderCollection& h = c->requestHeaders();
	for (int i = 0; i < h.size(); ++i) s.headers.push_back(ref::Header(sb(h.at(i).first), sb(h.at(i).second)));
	return s;
}

inline std::string utf8(const std::string& s) { return su(QString::fromUtf8(s.data(), (int)s.size())); } // Normalises invalid sequences as Qt does.

inline std::vector<std::pair<std::string, std::string> > refParams(const std::string& query)
{
	std::vector<std::pair<std::string, std::string> > r; size_t p = 0;
	while (p < query.size())
	{
		size_t e = query.find('&', p); if (e == std::string::npos) e = query.size();
		const std::string one = query.substr(p, e - p); size_t eq = one.find('=');
		if (eq == std::string::npos) r.push_back(std::make_pair(utf8(ref::percentDecode(one)), std::string()));
		else r.push_back(std::make_pair(utf8(ref::percentDecode(one.substr(0, eq))), utf8(ref::percentDecode(one.substr(eq + 1)))));
		p = e + 1;
	}
	return r;
}

// What the connection must report. For opaque targets path and query are not specified, and are copied from what was seen.
// Malformed percent escapes have no specified decoding either (the request grammar excludes them from paths, %uXX does not).
inline Seen expected(const ref::Request& r, const Seen& seen)
{
	Seen s; s.method = r.method; s.uri = r.target(); s.fragment = r.hasFragment ? r.fragment : ""; s.version = r.version; s.content = r.body; s.headers = r.headers;
	if (r.opaque) { s.path = seen.path; s.query = seen.query; s.pathD = seen.pathD; s.queryD = seen.queryD; s.params = seen.params; }
	else
	{
		s.path = r.path; s.query = r.hasQuery ? r.query : "";
		s.pathD = ref::wellEscaped(s.path) ? utf8(ref::percentDecode(s.path)) : seen.pathD;
		s.queryD = ref::wellEscaped(s.query) ? utf8(ref::percentDecode(s.query)) : seen.queryD;
		s.params = ref::wellEscaped(s.query) ? refParams(s.query) : seen.params;
	}
	s.uriD = ref::wellEscaped(s.uri) ? utf8(ref::percentDecode(s.uri)) : seen.uriD;
	s.fragmentD = ref::wellEscaped(s.fragment) ? utf8(ref::percentDecode(s.fragment)) : seen.fragmentD;
	return s;
}

// While one exists, the connections of Rigs get one device for their input and another one for their output.
struct TwoDevices { bool was; static bool& on() { static bool b = false; return b; } explicit TwoDevices(bool want = true) : was(on()) { on() = want; } ~TwoDevices() { on() = was; } };

// A connection on a MemDevice with everything observable recorded.
struct Rig
{
	struct Event { char kind; size_t outSize; int state; }; // R requestReady, C requestCompleted, X closed
	MemDevice* dev; OutSide* outSide; Pillow::HttpConnection* conn; std::vector<Event> events; std::vector<Seen> seen; bool lookDecoded; bool ownConn;
	std::function<void(Pillow::HttpConnection*)> onReady, onCompleted, onClosed;
	std::vector<QMetaObject::Connection> links;

	explicit Rig(Pillow::HttpConnection* reuse = 0) : dev(new MemDevice), outSide(0), conn(reuse ? reuse : new Pillow::HttpConnection), lookDecoded(true), ownConn(!reuse)
	{
		links.push_back(QObject::connect(conn, &Pillow::HttpConnection::requestReady, [this](Pillow::HttpConnection* c) { record('R'); seen.push_back(look(c, lookDecoded)); if (onReady) onReady(c); }));
		links.push_back(QObject::connect(conn, &Pillow::HttpConnection::requestCompleted, [this](Pillow::HttpConnection* c) { record('C'); if (onCompleted) onCompleted(c); }));
		links.push_back(QObject::connect(conn, &Pillow::HttpConnection::closed, [this](Pillow::HttpConnection* c) { record('X'); if (onClosed) onClosed(c); }));
	}
	~Rig() { for (size_t i = 0; i < links.size(); ++i) QObject::disconnect(links[i]); if (ownConn) { delete conn; delete dev; } else { dev->deleteLater(); } }
	void start() { if (TwoDevices::on()) { outSide = new OutSide(dev); conn->initialize(dev, outSide); } else conn->initialize(dev, dev); }
	bool bothClosed() const { return !dev->isOpen() && (!outSide || !outSide->isOpen()); }
	bool bothOpen() const { return dev->isOpen() && (!outSide || outSide->isOpen()); }
	void record(char k) { Event e; e.kind = k; e.outSize = dev->out.size(); e.state = conn->state(); events.push_back(e); }
	int count(char k) const { int n = 0; for (size_t i = 0; i < events.size(); ++i) if (events[i].kind == k) ++n; return n; }
	std::string order() const { std::string s; for (size_t i = 0; i < events.size(); ++i) s += events[i].kind; return s; }
	bool closed() const { return conn->state() == Pillow::HttpConnection::Closed; }
	uint64_t stateHash(uint64_t salt) const { uint64_t h = mc::hash(salt, (uint64_t)conn->state()); h = mc::hash(h, order()); h = mc::hash(h, dev->out); return mc::hash(h, (uint64_t)dev->pending); }
};

inline const char* stateName(int s)
{
	static const char* names[] = { "Uninitialized", "ReceivingHeaders", "ReceivingContent", "SendingHeaders", "SendingContent", "Completed", "Flushing", "Closed" };
	return s >= 0 && s < 8 ? names[s] : "?";
}

inline void pump() { QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete); QCoreApplication::processEvents(); QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete); }

inline void quietMessages(QtMsgType, const QMessageLogContext&, const QString&) {}

inline void setupQt()
{
	static int argc = 1; static char name[] = "explorer"; static char* argv[] = { name, 0 };
	qInstallMessageHandler(quietMessages);
	new QCoreApplication(argc, argv);
}
#endif
