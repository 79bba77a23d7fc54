// Helpers of the demonstrations: an in-memory device and little else.
#include <QtCore/QtCore>
#include <QtNetwork/QtNetwork>
#include <QtTest/QSignalSpy>
#include "HttpConnection.h"
#include "HttpHandler.h"
#include "HttpHandlerSimpleRouter.h"
#include "HttpHandlerProxy.h"
#include "HttpHandlerQtScript.h"
#include "HttpHelpers.h"
#include "HttpHeader.h"
#include "HttpServer.h"
#include "HttpsServer.h"
#include "HttpClient.h"
#include "ByteArrayHelpers.h"
#include <cstdio>
#include <unistd.h>
#include <functional>
#define CHECK(c) do { if (!(c)) { printf("demo: failed: %s (line %d)\n", #c, __LINE__); fflush(stdout); _exit(1); } } while (0)
#define CHECK_EQ(a, b) do { const QByteArray a_((a)), b_((b)); if (a_ != b_) { printf("demo: [%s] instead of [%s] (line %d)\n", a_.left(400).constData(), b_.left(400).constData(), __LINE__); fflush(stdout); _exit(1); } } while (0)

struct Dev : QIODevice
{
	QByteArray in, out; qint64 pending; bool hold;
	Dev() : pending(0), hold(false) { open(QIODevice::ReadWrite | QIODevice::Unbuffered); }
	bool isSequential() const { return true; }
	qint64 bytesAvailable() const { return in.size(); }
	qint64 bytesToWrite() const { return pending; }
	qint64 readData(char* d, qint64 n) { n = qMin<qint64>(n, in.size()); memcpy(d, in.constData(), n); in.remove(0, n); return n; }
	qint64 writeData(const char* d, qint64 n) { out.append(d, n); if (hold) pending += n; return n; }
	void feed(const QByteArray& b) { in.append(b); emit readyRead(); }
	void drain() { const qint64 n = pending; pending = 0; if (n) emit bytesWritten(n); }
};

inline bool waitFor(std::function<bool()> f, int ms = 5000) { QElapsedTimer t; t.start(); while (!f()) { if (t.elapsed() > ms) return false; QCoreApplication::processEvents(QEventLoop::AllEvents, 5); QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete); } return true; }
inline Pillow::HttpHeaderCollection H(const QByteArray& k = QByteArray(), const QByteArray& v = QByteArray(), const QByteArray& k2 = QByteArray(), const QByteArray& v2 = QByteArray()) { Pillow::HttpHeaderCollection h; if (!k.isNull()) h << Pillow::HttpHeader(k, v); if (!k2.isNull()) h << Pillow::HttpHeader(k2, v2); return h; }
int demo();
int main(int argc, char** argv) { QCoreApplication a(argc, argv); const int r = demo(); fflush(stdout); _exit(r); }
